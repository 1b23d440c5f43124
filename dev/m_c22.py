L="lib/libfql.c"; S="lib/scope.c"
def b(n,*e): return (n,"C22","bad",list(e))
def ok(n,*e): return (n,"C22","ok",list(e))
CASES=[
b("no-query-clear",(L,"	vec_clear(fql->query_vec);\n","")),
b("no-idx",(L,"	vec_clear(fql->query_vec);\n	fql->query_idx = 0;\n","	vec_clear(fql->query_vec);\n")),
b("no-tmp",(L,"	fqlsig_tmp_removeall();\n","")),
b("no-schema-map",(L,"	hashmap_clear(fql->schema_map);\n","")),
b("no-scope-reset",(L,"	scope_reset(fql->global_scope);\n","")),
b("no-scope-current",(L,"	scope_reset(fql->global_scope);\n	fql->_scope = fql->global_scope;\n","	scope_reset(fql->_scope);\n")),
b("no-branch",(L,"	fql->branch_state = BRANCH_EXPECT_EXPR;\n\n	/* the","	fql->branch_state = BRANCH_NO_BRANCH;\n\n	/* the")),
b("no-var-clear",(L,"	vec_clear(fql->variables);\n","")),
b("idx-only-if-empty",(L,"	vec_clear(fql->query_vec);\n	fql->query_idx = 0;\n","	if (!vec_empty(fql->query_vec)) {\n		fql->query_idx = 0;\n	}\n	vec_clear(fql->query_vec);\n")),
b("skip-last-query",(L,"	for (; it != vec_end(fql->query_vec); ++it) {\n		delete_(query, *it);\n	}","	for (; it < (query**)vec_end(fql->query_vec) - 1; ++it) {\n		delete_(query, *it);\n	}")),
b("make-no-reset",(L,"	if (schema_resolve(fql)) {\n		fql_reset(fql);\n","	if (schema_resolve(fql)) {\n")),
b("make-ignores",(L,"	if (plan_build(fql)) {\n		fql_reset(fql);\n		return FQL_FAIL;\n	}","	if (plan_build(fql)) {\n		fql_reset(fql);\n	}")),
b("exec-no-reset",(L,"		ret = fql_exec_all_plans(fql);\n	}\n\n	fql_reset(fql);\n","		return fql_exec_all_plans(fql);\n	}\n")),
b("plans-no-reset-on-fail",(L,"			ret = process_exec_plan(plan);\n		}\n","			ret = process_exec_plan(plan);\n		}\n		if (ret == FQL_FAIL) {\n			return ret;\n		}\n")),
b("plans-fail-only",(L,"	if (ret == FQL_FAIL || fql->query_idx >= fql->query_vec->size) {\n		fql_reset(fql);\n	}\n\n	return ret;\n}\n\nint fql_exec_all","	if (ret == FQL_FAIL) {\n		fql_reset(fql);\n	}\n\n	return ret;\n}\n\nint fql_exec_all")),
b("plans-gt",(L,"	if (ret == FQL_FAIL || fql->query_idx >= fql->query_vec->size) {\n		fql_reset(fql);\n	}\n\n	return ret;\n}\n\nint fql_exec_all","	if (ret == FQL_FAIL || fql->query_idx > fql->query_vec->size) {\n		fql_reset(fql);\n	}\n\n	return ret;\n}\n\nint fql_exec_all")),
b("step-no-stepped",(L,"	plan->has_stepped = false;\n\n","")),
b("step-no-clear",(L,"	vec_clear(fql->api_vec);\n\n	fql->query_idx = (","	fql->query_idx = (")),
b("step-fail-returns",(L,"		ret = query_prepare(*query);\n		if (ret == FQL_FAIL) {\n			goto _step_fail_break;\n		}\n\n		/* Since","		ret = try_(query_prepare(*query));\n\n		/* Since")),
b("free",(L,"	fql_reset(fql);\n\n	delete_(vec, fql->variables);","	delete_(vec, fql->variables);")),
b("scope names",(S,"	hashmap_clear(&self->variable_map);\n","")),
ok("order",(L,"	vec_clear(fql->query_vec);\n	fql->query_idx = 0;\n","	fql->query_idx = 0;\n	vec_clear(fql->query_vec);\n")),
ok("helper",(L,"void _free_api_strings(vec* api);\n\n","void _free_api_strings(vec* api);\n\nstatic void _drop_variables(fqlhandle* fql)\n{\n	for (variable* v = vec_begin(fql->variables); v != vec_end(fql->variables); ++v) {\n		variable_destroy(v);\n	}\n	vec_clear(fql->variables);\n}\n\n"),(L,"	variable* var_iter = vec_begin(fql->variables);\n	for (; var_iter != vec_end(fql->variables); ++var_iter) {\n		variable_destroy(var_iter);\n	}\n	vec_clear(fql->variables);\n","	_drop_variables(fql);\n")),
ok("index-loop",(L,"	query** it = vec_begin(fql->query_vec);\n	for (; it != vec_end(fql->query_vec); ++it) {\n		delete_(query, *it);\n	}\n	vec_clear(fql->query_vec);\n	fql->query_idx = 0;","	unsigned i = 0;\n	for (; i < fql->query_vec->size; ++i) {\n		query** it = vec_at(fql->query_vec, i);\n		delete_(query, *it);\n	}\n	vec_clear(fql->query_vec);\n	fql->query_idx = 0;")),
ok("while-loop",(L,"	query** it = vec_begin(fql->query_vec);\n	for (; it != vec_end(fql->query_vec); ++it) {\n		delete_(query, *it);\n	}\n	vec_clear(fql->query_vec);\n	fql->query_idx = 0;","	query** it = vec_begin(fql->query_vec);\n	while (it != vec_end(fql->query_vec)) {\n		query* old = *it;\n		query_destroy(old);\n		free(old);\n		++it;\n	}\n	vec_clear(fql->query_vec);\n	fql->query_idx = 0;")),
ok("step-helper",(L,"	_free_api_strings(fql->api_vec);\n	vec_clear(fql->api_vec);\n\n	fql->query_idx","	_drop_fields(fql);\n\n	fql->query_idx"),(L,"int fql_step(fqlhandle* fql, struct fql_field** fields)\n","static void _drop_fields(fqlhandle* fql)\n{\n	_free_api_strings(fql->api_vec);\n	vec_clear(fql->api_vec);\n}\n\nint fql_step(fqlhandle* fql, struct fql_field** fields)\n")),
]
