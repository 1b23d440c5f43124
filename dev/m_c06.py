P="C06"
Q="lib/query.c"; F="lib/libfql.c"; O="lib/operation.c"; L="lib/antlr/listenerinterface.cpp"; C="src/fql.c"
CASES=[
("ok_ret_var",P,"ok",[(Q,"	try_(group_reset(self->distinct));\n	try_(group_reset(self->groupby));\n\n	return FQL_GOOD;","	int rc = group_reset(self->distinct);\n	if (rc != FQL_FAIL) {\n		rc = group_reset(self->groupby);\n	}\n	return rc == FQL_FAIL ? FQL_FAIL : FQL_GOOD;")]),
("ok_bool",P,"ok",[(F,"int fql_make_plans(fqlhandle* fql, const char* query_str)\n{","static bool _failed(int code)\n{\n	return code != 0;\n}\n\nint fql_make_plans(fqlhandle* fql, const char* query_str)\n{"),(F,"	if (schema_resolve(fql)) {","	if (_failed(schema_resolve(fql))) {")]),
("ok_extract",P,"ok",[(F,"int fql_make_plans(fqlhandle* fql, const char* query_str)\n{","static int _resolve_and_build(fqlhandle* fql)\n{\n	if (schema_resolve(fql) || plan_build(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;\n	}\n	return FQL_GOOD;\n}\n\nint fql_make_plans(fqlhandle* fql, const char* query_str)\n{"),(F,"	if (schema_resolve(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;\n	}\n\n	if (plan_build(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;\n	}\n","	try_(_resolve_and_build(fql));\n")]),
("bad_extract",P,"bad",[(F,"int fql_make_plans(fqlhandle* fql, const char* query_str)\n{","static int _resolve_and_build(fqlhandle* fql)\n{\n	int ret = FQL_GOOD;\n	if (schema_resolve(fql) || plan_build(fql)) {\n		fql_reset(fql);\n	}\n	return ret;\n}\n\nint fql_make_plans(fqlhandle* fql, const char* query_str)\n{"),(F,"	if (schema_resolve(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;\n	}\n\n	if (plan_build(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;\n	}\n","	try_(_resolve_and_build(fql));\n")]),
("bad_plans_gt0",P,"bad",[(F,"	if (schema_resolve(fql)) {","	if (schema_resolve(fql) > 0) {")]),
("bad_overwritten",P,"bad",[(F,"		if (ret == FQL_FAIL) {\n			break;\n		}\n\n		if (fql->props.threading) {","		if (fql->props.threading) {")]),
("bad_exec_reset",P,"bad",[(F,"	fql_reset(fql);\n\n	return ret;\n}\n\nint fql_make_plans","	ret = fql_reset(fql);\n\n	return ret;\n}\n\nint fql_make_plans")]),
("bad_cli",P,"bad",[(C,"		if (fql_exec(handle, query_str) == FQL_FAIL) {\n			goto err_exit;\n		}\n		goto","		fql_exec(handle, query_str);\n		goto")]),
("bad_cli_rows",P,"bad",[(C,"		if (rows == FQL_FAIL) {\n			goto err_exit;\n		}\n","")]),
("bad_cli_code",P,"bad",[(C,"	fql_free(handle);\n	return EXIT_FAILURE;","	fql_free(handle);\n	return EXIT_SUCCESS;")]),
("ok_cli",P,"ok",[(C,"		if (fql_exec(handle, query_str) == FQL_FAIL) {\n			goto err_exit;\n		}\n		goto success_exit;","		int rc = fql_exec(handle, query_str);\n		if (rc != FQL_FAIL) {\n			goto success_exit;\n		}\n		goto err_exit;")]),
]
A="lib/antlr/antlr.cpp"
CASES+=[
("bad_parse_and",P,"bad",[(A,"	if (myLexerErrorListener.getError()\n	    || myParser","	if (myLexerErrorListener.getError()\n	    && myParser")]),
("bad_retcode",P,"bad",[(A,"	return analyzer.get_return_code();","	analyzer.get_return_code();\n	return FQL_GOOD;")]),
("ok_parse",P,"ok",[(A,"	if (myLexerErrorListener.getError()\n	    || myParserErrorListener.getError()) {\n		return FQL_FAIL;\n	}","	if (myLexerErrorListener.getError()) {\n		return FQL_FAIL;\n	}\n	if (myParserErrorListener.getError()) {\n		return FQL_FAIL;\n	}")]),
("ok_helper_fail",P,"ok",[(F,"int fql_make_plans(fqlhandle* fql, const char* query_str)\n{","static int _reset_fail(fqlhandle* fql)\n{\n	fql_reset(fql);\n	return FQL_FAIL;\n}\n\nint fql_make_plans(fqlhandle* fql, const char* query_str)\n{"),(F,"	if (schema_resolve(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;","	if (schema_resolve(fql)) {\n		return _reset_fail(fql);")]),
]
import re
s=open("/repo/"+L).read()
n=0
for m in re.finditer(r"\t+_set_failure\(\);\n|\t+_set_failure\(\);\r?\n",s):
    a=max(0,m.start()-150); a=s.find("\n",a)+1
    old=s[a:m.end()]
    if s.count(old)!=1: continue
    n+=1
    CASES.append(("lis:%d"%(s.count("\n",0,m.start())+1),P,"bad",[(L,old,s[a:m.start()])]))
