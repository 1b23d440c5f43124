F="lib/fixedwrite.c"; R="lib/reader.c"; S="lib/fqlsig.c"; L="lib/libfql.c"; O="lib/order.c"
def b(n,*e): return (n,"C11","bad",list(e))
def ok(n,*e): return (n,"C11","ok",list(e))
PUSH="	self->tempnode = fqlsig_tmp_push(string_c_str(&self->tempname));\n"
CASES=[
b("no-push",(F,PUSH,"")),
b("push-other",(F,PUSH,"	self->tempnode = fqlsig_tmp_push(string_c_str(&self->filename));\n")),
b("push-cond",(F,PUSH,"	if (!string_empty(&self->filename)) {\n	"+PUSH+"	}\n")),
b("reader-no-push",(R,"	self->random_access_tempnode =\n	        fqlsig_tmp_push(string_c_str(self->random_access_filename));\n","")),
b("late",(F,PUSH,""),(F,"		close(fd);\n		return FQL_FAIL;\n	}\n	return","		close(fd);\n		return FQL_FAIL;\n	}\n"+PUSH+"	return")),
b("early-forget",(F,"	if (rename(tmp, file)) {\n		perror(tmp);\n		return FQL_FAIL;\n	}\n	if (chmod","	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n	if (rename(tmp, file)) {\n		perror(tmp);\n		return FQL_FAIL;\n	}\n	if (chmod"),(F,"		return FQL_FAIL;\n	}\n	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n	return FQL_GOOD;","		return FQL_FAIL;\n	}\n	return FQL_GOOD;")),
b("order-forget",(O,"fqlsig_tmp_remove_node_and_file(self->temp_node)","fqlsig_tmp_remove_node(self->temp_node)")),
b("stray-remove",(O,"fqlsig_tmp_remove_node_and_file(self->temp_node)","fqlsig_tmp_remove_file(string_c_str(&self->in_filename))")),
b("remove-dest",(F,"	if (rename(tmp, file)) {\n		perror(tmp);\n","	if (rename(tmp, file)) {\n		perror(tmp);\n		remove(file);\n")),
b("all-one",(S,"	while (_tmp_file_head) {\n","	if (_tmp_file_head) {\n")),
b("all-noremove",(S,"		char* tmp = node_dequeue(&_tmp_file_head);\n		fqlsig_tmp_remove_file(tmp);","		char* tmp = node_dequeue(&_tmp_file_head);")),
b("all-stop",(S,"		fqlsig_tmp_remove_file(tmp);\n		free_(tmp);\n	}\n}","		fqlsig_tmp_remove_file(tmp);\n		if (*tmp == '#') {\n			break;\n		}\n		free_(tmp);\n	}\n}")),
b("nohup",(S,"	sigaction(SIGHUP, &act, NULL);\n","")),
b("nohandler",(S,"	act.sa_handler = fqlsig_cleanexit;\n","")),
b("noterm-twice",(S,"	sigaction(SIGTERM, &act, NULL);\n","	sigaction(SIGINT, &act, NULL);\n")),
b("no-atexit",(S,"	atexit(fqlsig_tmp_removeall);\n","")),
b("handler-noremove",(S,"	fqlsig_tmp_removeall();\n	exit","	exit")),
b("handler-cond",(S,"	fqlsig_tmp_removeall();\n	exit","	if (libcsv_action__ != NULL) {\n		fqlsig_tmp_removeall();\n	}\n	exit")),
b("no-init",(L,"	fqlsig_init_sig();\n","")),
b("no-reset",(L,"	fqlsig_tmp_removeall();\n","")),
ok("helper",(F,"int _mktmp(fixedwriter* self)","static int _create(fixedwriter* self)\n{\n	return mkstemp(self->tempname.data);\n}\nint _mktmp(fixedwriter* self)"),(F,"	int fd = mkstemp(self->tempname.data);","	int fd = _create(self);")),
ok("fd-lt",(F,"	if (fd == -1) {","	if (fd < 0) {")),
ok("do-while",(S,"	while (_tmp_file_head) {\n","	while (_tmp_file_head != NULL) {\n")),
ok("inline-remove",(S,"		char* tmp = node_dequeue(&_tmp_file_head);\n		fqlsig_tmp_remove_file(tmp);","		char* tmp = node_dequeue(&_tmp_file_head);\n		if (remove(tmp) != 0) {\n			perror(tmp);\n		}")),
ok("loop-sig",(S,"	sigaction(SIGTERM, &act, NULL);\n	sigaction(SIGHUP, &act, NULL);\n","	sigaction(SIGHUP, &act, NULL);\n	sigaction(SIGTERM, &act, NULL);\n")),
ok("table",(S,"	sigaction(SIGINT, &act, NULL);\n	sigaction(SIGQUIT, &act, NULL);\n	sigaction(SIGTERM, &act, NULL);\n	sigaction(SIGHUP, &act, NULL);\n","	static const int sigs[] = {SIGINT, SIGQUIT, SIGTERM, SIGHUP};\n	for (unsigned i = 0; i < sizeof(sigs) / sizeof(*sigs); ++i) {\n		sigaction(sigs[i], &act, NULL);\n	}\n")),
ok("table2",(S,"	sigaction(SIGINT, &act, NULL);\n	sigaction(SIGQUIT, &act, NULL);\n	sigaction(SIGTERM, &act, NULL);\n	sigaction(SIGHUP, &act, NULL);\n","	const int sigs[] = {SIGINT, SIGQUIT, SIGTERM, SIGHUP};\n	for (unsigned i = 0; i < sizeof(sigs) / sizeof(*sigs); ++i) {\n		sigaction(sigs[i], &act, NULL);\n	}\n")),
b("once-only",(S,"	if (_signals_ready)\n		return;\n","	if (getenv(\"FQL_NOSIG\"))\n		return;\n")),
ok("guard",(S,"	if (_signals_ready)\n		return;\n","	if (_signals_ready) {\n		return;\n	}\n	_signals_ready = true;\n"),(S,"\n	_signals_ready = true;\n}","\n}")),
ok("name-var",(F,PUSH,"	const char* name = string_c_str(&self->tempname);\n	self->tempnode = fqlsig_tmp_push(name);\n")),
ok("rename-ne",(F,"	if (rename(tmp, file)) {\n","	if (rename(tmp, file) != 0) {\n")),
ok("order-split",(O,"fqlsig_tmp_remove_node_and_file(self->temp_node)","fqlsig_tmp_remove_node_and_file(self->temp_node); ; ")),
]
