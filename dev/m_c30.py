O="lib/operation.c"; R="lib/reader.c"; W="lib/writer.c"; Q="lib/query.c"; D="lib/fqldelete.c"
def b(n,*e): return (n,"C30","bad",list(e))
def ok(n,*e): return (n,"C30","ok",list(e))
GW="""	case FQL_UPDATE: {
		fqlupdate* update = (fqlupdate*)self;
		return update->writer;
	}
"""
CASES=[
b("tag",(D,".oper_type = FQL_DELETE","\t.oper_type = FQL_UPDATE")),
b("destroy-skip",(O,"	case FQL_UPDATE:\n		fqlupdate_destroy((fqlupdate*)self);\n		break;\n","	case FQL_UPDATE:\n		break;\n")),
b("destroy-other",(O,"fqlupdate_destroy((fqlupdate*)self)","fqldelete_destroy((fqldelete*)self)")),
b("destroy-fall",(O,"		fqlselect_destroy((fqlselect*)self);\n		break;\n","		fqlselect_destroy((fqlselect*)self);\n")),
b("writer-null",(O,GW,"	case FQL_UPDATE:\n")),
b("writer-swap",(O,GW,"	case FQL_UPDATE: {\n		fqldelete* update = (fqldelete*)self;\n		return update->writer;\n	}\n")),
b("writer-share",(O,"	case FQL_DELETE: {\n		fqldelete* delete = (fqldelete*)self;\n		return delete->writer;\n	}\n"+GW,"	case FQL_DELETE:\n	case FQL_UPDATE: {\n		fqldelete* delete = (fqldelete*)self;\n		return delete->writer;\n	}\n")),
b("top-missing",(O,"		fqldelete* delete = (fqldelete*)self;\n		delete->top_count = top_count;\n","")),
b("top-zero",(O,"		if (*has_matched_alias) {\n			return;\n		}\n		table_idx = &delete->table_idx;","		table_idx = &delete->table_idx;\n		*table_idx = 0;")),
b("preop-drop",(O,"		return fqlupdate_preop(query->op, query);","		fqlupdate_preop(query->op, query);\n		break;")),
b("preop-while",(O,"	case FQL_WHILE:\n	case FQL_IF:\n		fqlbranch_preop(","	case FQL_WHILE:\n		break;\n	case FQL_IF:\n		fqlbranch_preop(")),
b("preop-stepped",(O,"query->plan && query->plan->has_stepped","query->plan && !query->plan->has_stepped")),
b("resolve-update",(O,"	case FQL_UPDATE:\n		return fqlupdate_resolve_final_types((fqlupdate*)self);\n","	case FQL_UPDATE:\n")),
b("rownum",(O,"expr->rownum_ref = &update->rownum;","expr->rownum_ref = &((fqlselect*)update)->rownum;")),
b("apply-while",(O,"	case FQL_WHILE:\n	case FQL_IF:\n		return fqlbranch_apply","	case FQL_WHILE:\n		return fqlset_apply_process(query, plan);\n	case FQL_IF:\n		return fqlbranch_apply")),
b("reset-idx",(O,"		fqlupdate* update = query->op;\n		op_table = vec_at(query->sources, update->table_idx);","		fqlupdate* update = query->op;\n		op_table = vec_at(query->sources, 0);")),
b("reset-skip",(O,"		try_(fqlupdate_reset(update));\n","")),
b("alias-flag",(O,"		*has_matched_alias = true;\n","")),
b("alias-noname",(O,"	if (!strcasecmp(op_table_name, string_c_str(&check_table->name))) {\n		*table_idx = check_table->idx;\n	}\n","")),
b("alias-neg",(O,"	if (!strcasecmp(op_table_name, string_c_str(&check_table->name)))","	if (strcasecmp(op_table_name, string_c_str(&check_table->name)))")),
b("winit",(O,"		fqlselect_verify_must_run((fqlselect*)self);\n","")),
b("expr-schema",(O,"	if (op_schema == NULL) {\n		return NULL;\n	}\n	return op_schema->expressions;","	if (op_schema == NULL || *self == FQL_UPDATE) {\n		return NULL;\n	}\n	return op_schema->expressions;")),
b("assign-swap",(Q,"	case FQL_SET: {\n		fqlset* setstmt = self->op;","	case FQL_WHILE:\n	case FQL_SET: {\n		fqlset* setstmt = self->op;")),
b("init-branch",(Q,"	case FQL_WHILE:\n	case FQL_IF:\n		self->op = new_(fqlbranch, self->fqlref, self, operation);","	case FQL_WHILE:\n	case FQL_IF:\n	case FQL_DELETE:\n		self->op = new_(fqlbranch, self->fqlref, self, operation);"),(Q,"	case FQL_DELETE:\n		self->op = new_(fqldelete);\n		break;\n","")),
b("rd-at",(R,"self->get_record_at__ = &fixedread_get_record_at;","self->get_record_at__ = &libcsv_get_record_at;")),
b("rd-stdin",(R,"			self->get_record__ = &fixedread_get_record_stdin;\n			self->reset__ = &fixedread_reset_stdin;","			self->get_record__ = &fixedread_get_record_stdin;\n			self->reset__ = &fixedread_reset;")),
b("rd-nostdin",(R,"			self->reset__ = &libcsv_reset_stdin;","			self->reset__ = &libcsv_reset;")),
b("rd-free",(R,"		self->free__ = &subquery_free;\n","")),
b("rd-unknown",(R,"unknown read_type\\n\", self->type);\n		return FQL_FAIL;","unknown read_type\\n\", self->type);\n		return FQL_GOOD;")),
b("reopen-unknown",(R,"	default:\n		return FQL_FAIL;\n	}\n\n	try_","	default:\n		break;\n	}\n\n	try_")),
b("reopen-lost",(R,"		try_(fixedread_reopen(self));","		fixedread_reopen(self);")),
b("reopen-merge",(R,"		csv_reader_close(self->reader_data);\n","		break;\n	case IO_SUBQUERY:\n		csv_reader_close(self->reader_data);\n")),
b("size",(R,"	case IO_FIXED:\n		return ((fixedread*)(self->reader_data))->file_size;\n","	case IO_FIXED:\n		return csv_reader_get_file_size(self->reader_data);\n")),
b("wr-close-default",(W,"	default:\n		return FQL_FAIL;\n	}\n\n	if (*string","	default:\n		return FQL_GOOD;\n	}\n\n	if (*string")),
b("wr-open-lost",(W,"		try_(fixedwriter_open(self->writer_data, file_name));","		fixedwriter_open(self->writer_data, file_name);")),
b("wr-destroy",(W,"	case IO_FIXED:\n		delete_(fixedwriter, self->writer_data);\n		break;\n","	case IO_FIXED:\n		break;\n")),
b("wr-delim",(W,"	case IO_LIBCSV: {\n		csv_writer* csv = self->writer_data;\n		csv_writer_set_delim(csv, delim);\n		break;\n	}\n	case IO_FIXED: /* no delimiter for this */\n		break;","	case IO_LIBCSV:\n	case IO_FIXED: {\n		csv_writer* csv = self->writer_data;\n		csv_writer_set_delim(csv, delim);\n		break;\n	}\n")),
b("wr-rec",(W,"&fixedwriter_write_record","&libcsv_write_record")),
b("wr-export",(W,"	case IO_FIXED:\n		return fixedwriter_export_temp(self->writer_data);\n","	case IO_FIXED:\n		break;\n")),
b("wr-file",(W,"		return fixedwriter_get_file(self->writer_data);","		fixedwriter_get_file(self->writer_data);\n		return NULL;")),
ok("ifs",(O,"	switch (*self) {\n	case FQL_SELECT:\n		return fqlselect_resolve_final_types((fqlselect*)self);\n	case FQL_UPDATE:\n		return fqlupdate_resolve_final_types((fqlupdate*)self);\n	case FQL_DELETE:\n	case FQL_SET:\n	case FQL_WHILE:\n	case FQL_IF:\n	case FQL_NONE:\n		return FQL_GOOD;\n	}\n","	if (*self == FQL_SELECT) {\n		return fqlselect_resolve_final_types((fqlselect*)self);\n	}\n	if (*self != FQL_UPDATE) {\n		return FQL_GOOD;\n	}\n	return fqlupdate_resolve_final_types((fqlupdate*)self);\n")),
ok("helper",(O,"int op_preop(query* query)\n{","static bool _stepped(query* query)\n{\n	return query->plan && query->plan->has_stepped;\n}\n\nint op_preop(query* query)\n{"),(O,"	if (query->plan && query->plan->has_stepped) {\n		return","	if (_stepped(query)) {\n		return")),
ok("preop-ret",(O,"		return fqlselect_preop(query->op, query);","{\n		int ret = fqlselect_preop(query->op, query);\n		return ret;\n}")),
ok("preop-try",(O,"		return fqlselect_preop(query->op, query);","		try_(fqlselect_preop(query->op, query));\n		break;")),
ok("one-writer",(O,"	case FQL_DELETE: {\n		fqldelete* delete = (fqldelete*)self;\n		return delete->writer;\n	}\n"+GW,"	case FQL_UPDATE:\n		return ((fqlupdate*)self)->writer;\n	case FQL_DELETE:\n		return ((fqldelete*)self)->writer;\n")),
ok("writer-ptr",(O,"	switch (*self) {\n	case FQL_SELECT: {\n		fqlselect* select = (fqlselect*)self;\n		return select->writer;\n	}","	writer* ret = NULL;\n	switch (*self) {\n	case FQL_SELECT: {\n		fqlselect* select = (fqlselect*)self;\n		ret = select->writer;\n		return ret;\n	}")),
ok("alias-helper",(O,"void op_match_table_alias(","static bool _named(const char* a, string* b)\n{\n	return strcasecmp(a, string_c_str(b)) == 0;\n}\nvoid op_match_table_alias("),(O,"	if (!strcasecmp(op_table_name, string_c_str(&check_table->alias))) {","	if (_named(op_table_name, &check_table->alias)) {"),(O,"	if (!strcasecmp(op_table_name, string_c_str(&check_table->name))) {","	if (_named(op_table_name, &check_table->name)) {")),
ok("rd-tern",(R,"		if (table->is_stdin) {\n			self->get_record__ = &fixedread_get_record_stdin;\n			self->reset__ = &fixedread_reset_stdin;\n			return FQL_GOOD;\n		}\n		self->get_record__ = &fixedread_get_record;\n		self->reset__ = &fixedread_reset;\n","		self->get_record__ = table->is_stdin ? &fixedread_get_record_stdin\n		                                     : &fixedread_get_record;\n		self->reset__ = table->is_stdin ? &fixedread_reset_stdin : &fixedread_reset;\n		if (table->is_stdin) {\n			return FQL_GOOD;\n		}\n")),
ok("wr-if",(W,"	switch (self->type) {\n	case IO_LIBCSV:\n		break;\n	case IO_FIXED:\n		return fixedwriter_export_temp(self->writer_data);\n	default:\n		return NULL;\n	}\n","	if (self->type == IO_FIXED) {\n		return fixedwriter_export_temp(self->writer_data);\n	}\n	if (self->type != IO_LIBCSV) {\n		return NULL;\n	}\n")),
ok("wr-ret",(W,"		try_(fixedwriter_open(self->writer_data, file_name));\n		return FQL_GOOD;","		return fixedwriter_open(self->writer_data, file_name);")),
ok("wr-lt0",(W,"		if (csv_writer_close(self->writer_data) == CSV_FAIL) {\n			return FQL_FAIL;\n		}","		int ret = csv_writer_close(self->writer_data);\n		if (ret == CSV_FAIL) {\n			return FQL_FAIL;\n		}")),
ok("rd-data",(R,"		csv_reader_close(self->reader_data);\n","		csv_reader* csv = self->reader_data;\n		csv_reader_close(csv);\n")),
ok("local-type",(W,"	switch (self->type) {\n	case IO_LIBCSV:\n		return csv_writer_get_file","	enum io type = self->type;\n	switch (type) {\n	case IO_LIBCSV:\n		return csv_writer_get_file")),
b("make-other",(Q,"		self->op = new_(fqldelete);","		self->op = new_(fqlupdate);")),
b("make-if",(Q,"self->fqlref, self, operation);","self->fqlref, self, FQL_IF);")),
ok("make-ifs",(Q,"	switch (operation) {\n	case FQL_SET:\n		self->op = new_(fqlset);\n		break;","	if (operation == FQL_SET) {\n		self->op = new_(fqlset);\n	}\n	switch (operation) {\n	case FQL_SET:\n		break;")),
ok("make-two",(Q,"	case FQL_WHILE:\n	case FQL_IF:\n		self->op = new_(fqlbranch, self->fqlref, self, operation);","	case FQL_WHILE:\n		self->op = new_(fqlbranch, self->fqlref, self, FQL_WHILE);\n		break;\n	case FQL_IF:\n		self->op = new_(fqlbranch, self->fqlref, self, operation);")),
]
