S="lib/schema.c"; O="lib/operation.c"; Q="lib/query.c"; L="lib/libfql.c"
def b(n,*e): return (n,"C12","bad",list(e))
def ok(n,*e): return (n,"C12","ok",list(e))
CASES=[
b("select op check dropped",(S,"} else if (*(enum fql_operation*)aquery->op == FQL_SELECT\n		           && !aquery->fqlref->props.overwrite) {","} else if (*(enum fql_operation*)aquery->op == FQL_DELETE\n		           && !aquery->fqlref->props.overwrite) {")),
b("overwrite inverted",(S,"		           && !aquery->fqlref->props.overwrite) {","		           && aquery->fqlref->props.overwrite) {")),
b("other prop",(S,"		           && !aquery->fqlref->props.overwrite) {","		           && !aquery->fqlref->props.override_warnings) {")),
b("or",(S,"		if (access(aquery->into_table_name, F_OK) != 0) {","		if (access(aquery->into_table_name, F_OK) != 0\n		    || aquery->orderby != NULL) {")),
b("W_OK",(S,"		if (access(aquery->into_table_name, F_OK) != 0) {","		if (access(aquery->into_table_name, W_OK) != 0) {")),
b("no return",(S,"			        aquery->into_table_name);\n			return FQL_FAIL;\n		}\n\n		char absolute","			        aquery->into_table_name);\n		}\n\n		char absolute")),
b("only if no union",(S,"	if (aquery->into_table_name != NULL) {\n		if (access","	if (aquery->into_table_name != NULL && aquery->union_id == 0) {\n		if (access")),
b("reset check has_executed dropped op",(O,"		    && access(query->into_table_name, F_OK) == 0) {","		    && access(query->into_table_name, W_OK) == 0) {")),
b("reset no return",(O,"			        query->into_table_name);\n			return FQL_FAIL;","			        query->into_table_name);")),
b("reset open first",(O,"	if (!query->union_id && query->into_table_name) {\n","	if (!query->union_id && query->into_table_name) {\n		try_(writer_open(op_writer, query->into_table_name));\n")),
b("prepare forgets",(Q,"bool has_executed = (self->plan == NULL || self->plan->is_complete);","bool has_executed = (self->plan != NULL && self->plan->rows_affected > 0);")),
b("prepare and",(Q,"bool has_executed = (self->plan == NULL || self->plan->is_complete);","bool has_executed = (self->plan == NULL || !self->plan->is_complete);")),
b("preflight passes false",(Q,"	try_(op_reset(self, has_executed));","	try_(op_reset(self, has_executed && self->orderby == NULL));")),
b("reset before",(Q,"	bool has_executed = (self->plan == NULL || self->plan->is_complete);\n","	plan_reset(self->plan);\n	bool has_executed = (self->plan == NULL || self->plan->is_complete);\n")),
b("complete only if rows",("lib/process.c","	plan->is_complete = true;\n\n	return ret;\n}\n","	plan->is_complete = (ret == 0);\n\n	return ret;\n}\n")),
b("setter",(L,"	fql->props.overwrite = overwrite;","	fql->props.overwrite = true;")),
b("other setter",(L,"	fql->props.print_header = print_header;","	fql->props.print_header = print_header;\n	fql->props.overwrite = print_header;")),
b("ctor",(L,"	                .print_header = true,\n","	                .print_header = true,\n	                .overwrite = true,\n")),
b("var idx not kept",(Q,"	self->into_table_var_idx =\n	        try_(scope_get_var_index(self->fqlref->_scope, table_name));\n	variable* table_var = vec_at(self->fqlref->variables, self->into_table_var_idx);","	int idx = try_(scope_get_var_index(self->fqlref->_scope, table_name));\n	variable* table_var = vec_at(self->fqlref->variables, idx);")),
b("new fopen",("lib/reader.c","int reader_reopen(reader* self)\n{\n","int reader_reopen(reader* self)\n{\n	FILE* f = fopen(string_c_str(&self->file_name), \"w\");\n	if (f) fclose(f);\n")),

b("schema_resolve skip",(S,"		try_(_resolve_query(fql, *it, IO_UNDEFINED));\n	}\n\n	return FQL_GOOD;","		if ((*it)->where == NULL || (*it)->into_table_name == NULL) {\n			try_(_resolve_query(fql, *it, IO_UNDEFINED));\n		}\n	}\n\n	return FQL_GOOD;")),
b("schema_resolve ignore",(S,"		try_(_resolve_query(fql, *it, IO_UNDEFINED));\n	}\n\n	return FQL_GOOD;","		_resolve_query(fql, *it, IO_UNDEFINED);\n	}\n\n	return FQL_GOOD;")),
ok("helper",(S,"int schema_resolve(struct fqlhandle* fql)\n","bool _missing(query* q)\n{\n	return access(q->into_table_name, F_OK) != 0;\n}\n\nint schema_resolve(struct fqlhandle* fql)\n"),(S,"int _add_schema_path(","bool _missing(query*);\nint _add_schema_path(")),
ok("eq order",(S,"		           && !aquery->fqlref->props.overwrite) {","		           && aquery->fqlref->props.overwrite == 0) {")),
ok("nested",(O,"		try_(writer_open(op_writer, query->into_table_name));","		const char* target = query->into_table_name;\n		int opened = writer_open(op_writer, target);\n		if (opened == FQL_FAIL) {\n			return FQL_FAIL;\n		}")),
ok("prepare",(Q,"bool has_executed = (self->plan == NULL || self->plan->is_complete);","bool has_executed = true;\n	if (self->plan != NULL) {\n		has_executed = self->plan->is_complete;\n	}")),
]
