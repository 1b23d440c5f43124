L="lib/libfql.c"; K="lib/like.c"; X="lib/expression.c"; S="lib/schema.c"; H="lib/schema.h"; P="lib/fqlplan.c"; FN="lib/scalarfn.c"; U="util/util.c"; O="lib/operation.c"; HH="lib/fqlhandle.h"
def b(n,*e): return (n,"C23","bad",list(e))
def ok(n,*e): return (n,"C23","ok",list(e))
IN="	strncpy_(fql->props.in_delim, delim, DELIM_LEN_MAX);"
CASES=[
b("in+1",(L,IN,IN.replace("MAX)","MAX + 1)"))),
b("in-strcpy",(L,IN,"	strcpy(fql->props.in_delim, delim);")),
b("in-strlen",(L,IN,"	strncpy_(fql->props.in_delim, delim, strlen(delim));")),
b("term-33",(L,"term, 32);","term, 64);")),
b("no-clear",(L,IN,"	strncat(fql->props.in_delim, delim, DELIM_LEN_MAX);")),
b("schema-sizeof",(S,"	strncpy_(self->delimiter, delim, DELIM_LEN_MAX);","	strncpy_(self->delimiter, delim, sizeof(self->delimiter));")),
b("schema-array",(H,"	char delimiter[DELIM_LEN_MAX + 1];","	char delimiter[DELIM_LEN_MAX];")),
b("props-array",(HH,"		char in_delim[DELIM_LEN_MAX + 1];","		char in_delim[DELIM_LEN_MAX / 2 + 1];")),
b("op-64",(O,"term, DELIM_LEN_MAX);","term, 2 * DELIM_LEN_MAX);")),
b("like8",(K,"	char key[32];\n	unsigned i","	char key[8];\n	unsigned i")),
b("like-bracketed",(K,'		sprintf(key, "[[%d]]", range_idx);','		sprintf(key, "[%s]", string_c_str(&bracketed));')),
b("join20",(P,"	char buffer[100]","	char buffer[20]")),
b("join-name",(P,"_new_join_proc(join_type, \"hash\", self)","_new_join_proc(join_type, string_c_str(&table_iter->name), self)"),) if False else None,
b("int12",(X,"			char buf[21];","			char buf[12];")),
b("float30",(X,"			char buf[330];","			char buf[30];")),
b("path",(S,"	char absolute_path[PATH_MAX];","	char absolute_path[256];")),
b("import",(L,"malloc_(len + 2);","malloc_(len + 1);")),
b("needle",(FN,"malloc_(needle.len + 1);","malloc_(needle.len);")),
b("ext",(U,"malloc_(strlen(dot) + 1);","malloc_(strlen(dot));")),
ok("32",(L,IN,IN.replace("DELIM_LEN_MAX","32"))),
ok("sizeof-1",(L,IN,IN.replace("DELIM_LEN_MAX","sizeof(fql->props.in_delim) - 1"))),
ok("snprintf",(L,IN,'	snprintf(fql->props.in_delim, sizeof(fql->props.in_delim), "%s", delim);')),
ok("helper",(L,"void fql_set_in_delim(","static void _set_text(char* dest, const char* text)\n{\n	strncpy_(dest, text, DELIM_LEN_MAX);\n}\n\nvoid fql_set_in_delim("),(L,IN,"	_set_text(fql->props.in_delim, delim);")),
b("helper-bad",(L,"void fql_set_in_delim(","static void _set_text(char* dest, const char* text)\n{\n	strncpy_(dest, text, DELIM_LEN_MAX + 1);\n}\n\nvoid fql_set_in_delim("),(L,IN,"	_set_text(fql->props.in_delim, delim);")),
ok("helper-n",(L,"void fql_set_in_delim(","static void _set_text(char* dest, const char* text, size_t n)\n{\n	strncpy_(dest, text, n);\n}\n\nvoid fql_set_in_delim("),(L,IN,"	_set_text(fql->props.in_delim, delim, DELIM_LEN_MAX);")),
ok("key-outer",(K,"	char key[32];\n	unsigned i","	char key[16];\n	unsigned i")),
ok("import-order",(L,"	int len = strlen(assign_expression);\n	char* expr_cpy = malloc_(len + 2);","	size_t room = strlen(assign_expression) + 2;\n	char* expr_cpy = malloc_(room);"),) if False else None,
ok("int-snprintf",(X,'			sprintf(buf, "%ld", self->field.i);','			snprintf(buf, sizeof(buf), "%ld", self->field.i);')),
ok("memcpy-lim",(L,IN,"	size_t n = strlen(delim);\n	if (n > DELIM_LEN_MAX) {\n		n = DELIM_LEN_MAX;\n	}\n	memcpy(fql->props.in_delim, delim, n);\n	fql->props.in_delim[n] = '\\0';")),
ok("check-strcpy",(L,IN,"	if (strlen(delim) <= DELIM_LEN_MAX) {\n		strcpy(fql->props.in_delim, delim);\n	}")),
b("check-strcpy-bad",(L,IN,"	if (strlen(delim) <= DELIM_LEN_MAX + 1) {\n		strcpy(fql->props.in_delim, delim);\n	}")),
ok("tern",(L,IN,"	size_t n = strlen(delim);\n	n = (n > DELIM_LEN_MAX) ? DELIM_LEN_MAX : n;\n	memcpy(fql->props.in_delim, delim, n);\n	fql->props.in_delim[n] = '\\0';")),
ok("loop",(L,IN,"	unsigned i = 0;\n	for (; i < DELIM_LEN_MAX && delim[i] != '\\0'; ++i) {\n		fql->props.in_delim[i] = delim[i];\n	}\n	fql->props.in_delim[i] = '\\0';")),
b("loop-bad",(L,IN,"	unsigned i = 0;\n	for (; i < DELIM_LEN_MAX + 8 && delim[i] != '\\0'; ++i) {\n		fql->props.in_delim[i] = delim[i];\n	}\n	fql->props.in_delim[i] = '\\0';")),
b("store-strlen",(L,IN,IN+"\n	fql->props.in_delim[strlen(delim)] = '\\0';")),
b("memcpy-nolim",(L,IN,"	size_t n = strlen(delim);\n	memcpy(fql->props.in_delim, delim, n + 1);")),
]
CASES=[c for c in CASES if c]
