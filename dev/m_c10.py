X="lib/fixedwrite.c"; W="lib/writer.c"; P="lib/fqlprocesses.c"
def b(n,*e): return (n,"C10","bad",list(e))
def ok(n,*e): return (n,"C10","ok",list(e))
CASES=[
b("ferror dropped",(X,"bool failed = ferror(self->file);","bool failed = false;")),
b("fclose unchecked",(X,"failed = (fclose(self->file) == EOF) || failed;","fclose(self->file);")),
b("no fail",(X,"		perror(string_c_str(&self->tempname));\n		return FQL_FAIL;\n	}\n\n	if (self->is_det","		perror(string_c_str(&self->tempname));\n	}\n\n	if (self->is_det")),
b("rename unchecked",(X,"	if (rename(tmp, file)) {\n		perror(tmp);\n		return FQL_FAIL;\n	}","	if (rename(tmp, file)) {\n		perror(tmp);\n	}")),
b("rename swapped",(X,"rename(tmp, file)","rename(file, tmp)")),
b("tmp in cwd",(X,'	string_strcpy(&self->tempname, targetdir);','	string_strcpy(&self->tempname, ".");')),
b("tmp in /tmp",(X,'	char* targetdir = ".";','	char* targetdir = "/tmp";')),
b("always dot",(X,'		targetdir = dirname(filename_cp);','		dirname(filename_cp);')),
b("direct",(X,'	self->file = fdopen(fd, "w");','	self->file = fopen(string_c_str(&self->filename), "w");')),
b("detached order",(X,"	if (self->is_detached) {\n		self->is_detached = false;\n		return FQL_GOOD;\n	}\n",""),),
b("forget first",(X,"	if (rename(tmp, file)) {","	fqlsig_tmp_remove_node(self->tempnode);\n	if (rename(tmp, file)) {"),(X,"	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n	return","	self->tempnode = NULL;\n	return")),
b("writer ignores",(W,"		try_(fixedwriter_close(self->writer_data));","		fixedwriter_close(self->writer_data);")),
b("writer ignores csv",(W,"		if (csv_writer_close(self->writer_data) == CSV_FAIL) {\n			return FQL_FAIL;\n		}","		csv_writer_close(self->writer_data);")),
b("open ignores",(W,"		try_(fixedwriter_open(self->writer_data, file_name));","		fixedwriter_open(self->writer_data, file_name);")),
b("stage ignores",(P,"		try_(writer_close(select->writer));","		writer_close(select->writer);")),
b("stage early",(P,"	if (!proc->wait_for_in0) {\n		try_(writer_close(update->writer));\n		return PROC_RETURN_COMPLETE;\n	}\n\n	enum","	if (!proc->wait_for_in0 || fifo_is_empty(in_false)) {\n		try_(writer_close(update->writer));\n		return PROC_RETURN_COMPLETE;\n	}\n\n	enum")),
b("stage running",(P,"		try_(writer_close(delete->writer));\n		return PROC_RETURN_COMPLETE;\n	}\n\n	enum","		try_(writer_close(delete->writer));\n		return PROC_RETURN_WAIT_ON_IN0;\n	}\n\n	enum")),
b("truncate",("lib/order.c","	if (self->temp_node != NULL) {\n		_order_unmap","	truncate(in_name, 0);\n	if (self->temp_node != NULL) {\n		_order_unmap")),
b("reader writes",("lib/fixedread.c","open(file_name, O_RDONLY)","open(file_name, O_RDWR | O_TRUNC)")),
ok("close helper",(X,"int fixedwriter_close(fixedwriter* self)\n{","static int _flush(FILE* f)\n{\n	int bad = ferror(f);\n	if (fclose(f) != 0) {\n		bad = 1;\n	}\n	return bad;\n}\n\nint fixedwriter_close(fixedwriter* self)\n{"),(X,"	bool failed = ferror(self->file);\n	failed = (fclose(self->file) == EOF) || failed;\n","	int failed = _flush(self->file);\n")),
ok("rename temp var",(X,"	if (rename(tmp, file)) {\n","	int moved = rename(tmp, file);\n	if (moved != 0) {\n")),
ok("sprintf dir",(X,"	if (filename_cp != NULL) {\n		free_(filename_cp);\n	}\n","	free_(filename_cp);\n")),
]
