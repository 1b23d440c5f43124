P="C25"; S="lib/schema.c"; E="lib/expression.c"; O="lib/order.c"; U="lib/fqlupdate.c"; Q="lib/query.c"
T3="""	/* match file without extension */
	for (node = files; node; node = node->next) {
		string_resize(&file_noext, strlen(node->data));
		getnoext(file_noext.data, node->data);
		if (string_eq(file_noext.data, base)) {
			++matches;
			string_sprintf(dest, "%s/%s", dir, node->data);
		}
	}
"""
T2="""	/* match exact ignoring case */
	for (node = files; node; node = node->next) {
		if (istring_eq(node->data, base)) {
			++matches;
			string_sprintf(dest, "%s/%s", dir, node->data);
		}
	}

	if (matches) {
		ret = (matches > 1) ? FUZZY_AMBIGUOUS : FUZZY_SUCCESS;
		goto fuzzy_file_match_return;
	}
"""
HLP="""static int _count(node* files, const char* base, const char* dir, string* dest)
{
	int n = 0;
	for (node* it = files; it; it = it->next) {
		if (!istring_eq(it->data, base)) {
			continue;
		}
		string_sprintf(dest, "%s/%s", dir, it->data);
		++n;
	}
	return n;
}

enum fuzzy_return
schema_fuzzy_resolve_file("""
CASES=[
("norewind",P,"bad",[(S,T3,T3.replace("node = files;",";"))]),
("brk",P,"bad",[(S,T3,T3.replace('dir, node->data);\n','dir, node->data);\n			break;\n'))]),
("case3",P,"bad",[(S,T3,T3.replace("string_eq","istring_eq"))]),
("nocount",P,"bad",[(S,T2,T2.replace("matches > 1","matches > 2"))]),
("noamb",P,"bad",[(S,T2,T2.replace("(matches > 1) ? FUZZY_AMBIGUOUS : FUZZY_SUCCESS","FUZZY_SUCCESS"))]),
("goon",P,"bad",[(S,T2,T2.replace("if (matches) {","if (matches == 1) {"))]),
("first",P,"bad",[(S,T2,T2.replace("++matches;","++matches;\n			if (matches > 1) continue;"))]),
("dest0",P,"bad",[(S,T2,T2.replace('string_sprintf(dest, "%s/%s", dir, node->data)','string_sprintf(dest, "%s/%s", dir, base)'))]),
("strict",P,"bad",[(S,"	if (strictness) {\n		goto","	if (!strictness) {\n		goto")]),
("nostrict",P,"bad",[(S,"	if (strictness) {\n		goto fuzzy_file_match_return;\n	}\n","")]),
("strict2",P,"bad",[(S,"	if (strictness) {\n		goto","	if (strictness > 1) {\n		goto")]),
("amb_ok",P,"bad",[(S,"	case FUZZY_AMBIGUOUS:\n		fprintf(stderr, \"Table name ambiguous: %s\\n\", string_c_str(&table->name));\n		return FQL_FAIL;","	case FUZZY_AMBIGUOUS:\n		fprintf(stderr, \"Table name ambiguous: %s\\n\", string_c_str(&table->name));\n		break;")]),
("schema_amb",P,"bad",[(S,"			        string_c_str(*path_iter));\n			return FQL_FAIL;","			        string_c_str(*path_iter));")]),
("schema_nf",P,"bad",[(S,"		        string_c_str(self->name));\n		return FQL_FAIL;\n	}\n\n	try_(_parse","		        string_c_str(self->name));\n	}\n\n	try_(_parse")]),
("var_amb",P,"bad",[(Q,"			        \"Table variable file ambiguous: %s\\n\",\n			        string_c_str(var->value.s));\n			return FQL_FAIL;","			        \"Table variable file ambiguous: %s\\n\",\n			        string_c_str(var->value.s));\n			break;")]),
("first_src",P,"bad",[(S,"		for (; j <= limit; ++j) {","		for (; j <= limit && !matches; ++j) {")]),
("limit",P,"bad",[(S,"		for (; j <= limit; ++j) {","		for (; j < limit; ++j) {")]),
("max1",P,"bad",[(S,"		if (matches > 1) {\n			fprintf(stderr,\n			        \"%s: ambig","		if (matches > 1 && strictness) {\n			fprintf(stderr,\n			        \"%s: ambig")]),
("zero",P,"bad",[(S,"		if (matches == 0) {\n			fprintf(stderr,\n			        \"%s: cannot","		if (matches < 0) {\n			fprintf(stderr,\n			        \"%s: cannot")]),
("nosc",P,"bad",[(S,"				if (n > 1 && !strictness) {","				if (n > 1) {")]),
("qual",P,"bad",[(S,"			if (string_empty(&expr->table_name)\n			    || istring_eq(expr->table_name.data,\n			                  search_table->alias.data)) {\n				int n","			if (string_empty(&expr->table_name)\n			    || istring_eq(expr->table_name.data,\n			                  search_table->alias.data) || limit == 0) {\n				int n")]),
("unq",P,"bad",[(S,"			if (string_empty(&expr->table_name)\n			    || istring_eq(expr->table_name.data,\n			                  search_table->alias.data)) {\n				int n","			if (string_empty(&expr->table_name) || istring_eq(expr->table_name.data,\n			                  search_table->name.data)) {\n				int n")]),
("caseval",P,"bad",[(S,"		try_(_assign_expressions_limited(&sc->values,\n		                                 sources,\n		                                 limit,\n		                                 strictness));\n","")]),
("fnargs",P,"bad",[(S,"		try_(_assign_expressions_limited(func->args, sources, limit, strictness));","		_assign_expressions_limited(func->args, sources, limit, strictness);")]),
("fnlim",P,"bad",[(S,"		try_(_assign_expressions_limited(func->args, sources, limit, strictness));","		try_(_assign_expressions_limited(func->args, sources, limit, 0));")]),
("bind_last",P,"bad",[(E,"	expression** first_match = vec_begin(exprs);","	expression** first_match = vec_back(exprs);")]),
("bind1",P,"bad",[(E,"	return exprs->size;\n","	return 1;\n")]),
("bindname",P,"bad",[(E,"multimap_get(table->schema->expr_map, string_c_str(&self->name))","multimap_get(table->schema->expr_map, string_c_str(&self->alias))")]),
("ast",P,"bad",[(S,"		if (matches == 0) {\n			fprintf(stderr,\n			        \"could not locate","		if (matches == 0 && expressions->size == 1) {\n			fprintf(stderr,\n			        \"could not locate")]),
("ast_first",P,"bad",[(S,"					new_expr->src_idx = j;","					new_expr->src_idx = i;")]),
("ord_amb",P,"bad",[(O,"			if (exprs->size > 1) {","			if (exprs->size > 2) {")]),
("ord_pos",P,"bad",[(O,"ordinal <= 0 ||","ordinal < 0 ||")]),
("ord_pos2",P,"bad",[(O,"ordinal > (int)select_exprs->size","ordinal > (int)select_exprs->size + 1")]),
("set_amb",P,"bad",[(U,"		if (matches->size > 1) {","		if (matches->size > 1 && query->fqlref->props.strictness) {")]),
("set_none",P,"bad",[(U,"			        \"unable to match set column `%s'\\n\",\n			        string_c_str(&(*update_col)->name));\n			return FQL_FAIL;","			        \"unable to match set column `%s'\\n\",\n			        string_c_str(&(*update_col)->name));\n			continue;")]),
("set_twice",P,"bad",[(U,"		if (!(*match_expr)->is_passthrough) {","		if (!(*match_expr)->is_passthrough && i == 0) {")]),
("grp",P,"bad",[(S,"	if (expr->expr == EXPR_COLUMN_NAME) {\n		fprintf(stderr,\n		        \"expression `%s' does not match a grouping\\n\",\n		        (char*)expr->alias.data);\n		return FQL_FAIL;\n	}","	if (expr->expr == EXPR_COLUMN_NAME) {\n		return FQL_GOOD;\n	}")]),
("grp2",P,"bad",[(S,"	if (loose_groups) {\n		return FQL_GOOD;\n	}\n\n	if (expr->expr == EXPR_COLUMN_NAME)","	if (!loose_groups) {\n		return FQL_GOOD;\n	}\n\n	if (expr->expr == EXPR_COLUMN_NAME)")]),
("grpval",P,"bad",[(S,"		if (_op_find_group(expr_map, *it, &key, loose_groups)) {\n			vec_destroy(&key);\n			return FQL_FAIL;\n		}","		if (_op_find_group(expr_map, *it, &key, loose_groups)) {\n			break;\n		}")]),
("ok_helper",P,"ok",[(S,"enum fuzzy_return\nschema_fuzzy_resolve_file(",HLP),(S,T2,T2[:T2.index("	for")]+"	matches = _count(files, base, dir, dest);\n"+T2[T2.index("\n	if (matches)"):])]),
("ok_switch",P,"ok",[(S,T2,T2.replace("ret = (matches > 1) ? FUZZY_AMBIGUOUS : FUZZY_SUCCESS;","if (matches == 1) {\n			ret = FUZZY_SUCCESS;\n		} else {\n			ret = FUZZY_AMBIGUOUS;\n		}"))]),
("ok_exact_count",P,"ok",[(S,"			ret = FUZZY_SUCCESS;\n			goto fuzzy_file_match_return;\n		}\n	}\n\n	if (strictness)","			ret = FUZZY_SUCCESS;\n			break;\n		}\n	}\n	if (ret == FUZZY_SUCCESS) {\n		goto fuzzy_file_match_return;\n	}\n\n	if (strictness)")]),
("ok_reorder",P,"ok",[(S,"			++matches;\n			string_sprintf(dest, \"%s/%s\", dir, node->data);","			string_sprintf(dest, \"%s/%s\", dir, node->data);\n			matches += 1;")]),
("ok_caller",P,"ok",[(S,"	switch (schema_fuzzy_resolve_file(&table->reader->file_name,\n	                                  &table->name,\n	                                  fql->props.strictness)) {\n	case FUZZY_AMBIGUOUS:","	enum fuzzy_return found = schema_fuzzy_resolve_file(&table->reader->file_name, &table->name, fql->props.strictness);\n	switch (found) {\n	case FUZZY_AMBIGUOUS:")]),
("ok_qual",P,"ok",[(S,"			if (string_empty(&expr->table_name)\n			    || istring_eq(expr->table_name.data,\n			                  search_table->alias.data)) {\n				int n = expression_try_assign_source(expr, search_table);\n				if (n > 1 && !strictness) {\n					n = 1;\n				}\n				matches += n;\n			}","			if (!string_empty(&expr->table_name)\n			    && !istring_eq(search_table->alias.data, expr->table_name.data)) {\n				continue;\n			}\n			int n = expression_try_assign_source(expr, search_table);\n			matches += (n > 1 && !strictness) ? 1 : n;")]),
("ok_while",P,"ok",[(S,"		for (; j <= limit; ++j) {\n			table* search_table = vec_at(sources, j);\n","		while (j <= limit) {\n			table* search_table = vec_at(sources, j++);\n")]),
("ok_one",P,"ok",[(S,"		if (matches > 1) {\n			fprintf(stderr,\n			        \"%s: ambiguous expression\\n\",\n			        (char*)expr->name.data);\n			return FQL_FAIL;\n		}\n\n		if (matches == 0) {\n			fprintf(stderr,\n			        \"%s: cannot find expression\\n\",\n			        (char*)expr->name.data);\n			return FQL_FAIL;\n		}","		if (matches != 1) {\n			fprintf(stderr, matches ? \"%s: ambiguous expression\\n\" : \"%s: cannot find expression\\n\", (char*)expr->name.data);\n			return FQL_FAIL;\n		}")]),
("ok_bind",P,"ok",[(E,"	expression** first_match = vec_begin(exprs);\n	expression_link(self, *first_match, table);","	expression** first_match = vec_at(exprs, 0);\n	expression_link(self, *first_match, table);")]),
("ok_ord",P,"ok",[(O,"			if (exprs == NULL) {\n				break;\n			}\n			if (exprs->size > 1) {","			if (!exprs) {\n				break;\n			} else if (exprs->size != 1) {")]),
("ok_set",P,"ok",[(U,"		if (matches->size > 1) {","		if (matches->size >= 2) {")]),
]
