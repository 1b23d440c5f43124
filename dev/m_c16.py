G="lib/logic.c"; S="lib/switchcase.c"; F="lib/fqlprocesses.c"; Q="lib/query.c"; E="lib/expression.c"
P="C16"
CASES=[
("sc_swap",P,"bad",[(G,"(self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {\n		return self->negation","(self->type == LG_OR && !ret) || (self->type == LG_AND && ret)) {\n		return self->negation")]),
("mand_or",P,"bad",[(G,"(self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {\n		return ret;","(self->type != LG_PREDICATE && !ret)) {\n		return ret;")]),
("mand_first",P,"bad",[(G,"	return logic_can_be_false(self->items[1], check_logic);","	return logic_can_be_false(self->items[0], check_logic);")]),
("case_nofail",P,"bad",[(S,"		case FQL_FAIL:\n			return FQL_FAIL;\n","		case FQL_FAIL:\n			break;\n")]),
("case_skip",P,"bad",[(S,"	unsigned i = 0;\n	logicgroup** it = vec_begin(&self->tests);\n\n	for (;","	unsigned i = 0;\n	logicgroup** it = vec_begin(&self->tests);\n	if (self->tests.size > 1 && self->values.size == self->tests.size) ++it;\n	for (;")]),
("case_else_tests",P,"bad",[(S,"		return self->values.size - 1;","		return self->tests.size - 1;")]),
("case_else_ge",P,"bad",[(S,"if (self->values.size > self->tests.size) {","if (self->values.size >= self->tests.size) {")]),
("case_last",P,"bad",[(S,"		case 1:\n			return i;\n			break;","		case 1:\n			if (i + 1 < self->values.size) return i;\n			break;")]),
("case_wrongidx",P,"bad",[(S,"	return expression_get_float(ret, *val, rg);","	return expression_get_float(ret, *(expression**)vec_begin(&self->values), rg);")]),
("case_nullok",P,"bad",[(S,"		*ret = 0;\n		return FQL_NULL;\n	}\n\n	expression** val = vec_at(&self->values, val_idx);\n\n	return expression_get_float","		*ret = 0;\n		return FQL_GOOD;\n	}\n\n	expression** val = vec_at(&self->values, val_idx);\n\n	return expression_get_float")]),
("case_swallow",P,"bad",[(S,"	return expression_get_stringview(ret, *val, rg);","	expression_get_stringview(ret, *val, rg);\n	return FQL_GOOD;")]),
("if_swap",P,"bad",[(F,"(result) ? ifstmt->true_idx : ifstmt->false_idx","(result) ? ifstmt->false_idx : ifstmt->true_idx")]),
("logic_drop",P,"bad",[(F,"		} else if (!result && out_false != NULL) {\n			fifo_add(out_false, rg_iter);","		} else if (!result && out_false != NULL && out_true == NULL) {\n			fifo_add(out_false, rg_iter);")]),
("logic_swap",P,"bad",[(F,"		if (result && out_true != NULL) {\n			fifo_add(out_true, rg_iter);","		if (result && out_true != NULL) {\n			fifo_add(out_false ? out_false : out_true, rg_iter);")]),
("lj_keep",P,"bad",[(F,"if (!try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {","if (try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {")]),
("or_is_and",P,"bad",[(Q,"	_add_logic_item(self, LG_OR);","	_add_logic_item(self, LG_AND);")]),
("part_same",P,"bad",[(Q,"			parent->items[1] = lg;","			parent->items[0] = lg;")]),
("in_not",P,"bad",[(Q,"	if (negation % 2) {\n		lg->negation = !lg->negation;\n	}\n","	if (negation > 2) {\n		lg->negation = !lg->negation;\n	}\n")]),
("expr_wrong",P,"bad",[(E,"switchcase_eval_to_stringview(self->field.sc, ret, rg)","expression_get_stringview(ret, self->field.sc->static_expr, rg)")]),
# ok
("ok_tree_if",P,"ok",[(G,"	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {\n		return self->negation ? !ret : ret;\n	}","	bool decided = (self->type == LG_AND) ? !ret : ret;\n	if (decided) {\n		return self->negation ? !ret : ret;\n	}")]),
("ok_case_ret",P,"ok",[(S,"		switch (logicgroup_eval(*it, rg, NULL)) {\n		case 1:\n			return i;\n			break;\n		case FQL_FAIL:\n			return FQL_FAIL;\n		default:;\n		}","		int r = logicgroup_eval(*it, rg, NULL);\n		if (r == FQL_FAIL)\n			return FQL_FAIL;\n		if (r)\n			return i;")]),
("ok_case_index",P,"ok",[(S,"	unsigned i = 0;\n	logicgroup** it = vec_begin(&self->tests);\n\n	for (; it != vec_end(&self->tests); ++it, ++i) {\n		switch (logicgroup_eval(*it, rg, NULL)) {","	for (unsigned i = 0; i < self->tests.size; ++i) {\n		logicgroup** it = vec_at(&self->tests, i);\n		switch (logicgroup_eval(*it, rg, NULL)) {")]),
("ok_case_else",P,"ok",[(S,"	if (self->values.size > self->tests.size) {\n		return self->values.size - 1;\n	}\n\n	return -1;","	bool has_else = self->values.size > self->tests.size;\n	return has_else ? (int)self->values.size - 1 : -1;")]),
("ok_if",P,"ok",[(F,"	*ifstmt->next_query_idx_ref = (result) ? ifstmt->true_idx : ifstmt->false_idx;","	if (result)\n		*ifstmt->next_query_idx_ref = ifstmt->true_idx;\n	else\n		*ifstmt->next_query_idx_ref = ifstmt->false_idx;")]),
("ok_logic",P,"ok",[(F,"		if (result && out_true != NULL) {\n			fifo_add(out_true, rg_iter);\n		} else if (!result && out_false != NULL) {\n			fifo_add(out_false, rg_iter);\n		} else {\n			fqlprocess_recycle(proc, rg_iter);\n		}","		fifo* dest = result ? out_true : out_false;\n		if (dest != NULL) {\n			fifo_add(dest, rg_iter);\n		} else {\n			fqlprocess_recycle(proc, rg_iter);\n		}")]),
("ok_mand",P,"ok",[(G,"		if (self->condition == check_logic) {\n			return 0;\n		}\n		return 1;","		return self->condition != check_logic;")]),
("ok_mand2",P,"ok",[(G,"	int ret = 0;\n	ret = logic_can_be_false(self->items[0], check_logic);\n\n	/* Check for short circuit */\n	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {\n		return ret;\n	}\n\n	return logic_can_be_false(self->items[1], check_logic);","	int left = logic_can_be_false(self->items[0], check_logic);\n	int right = logic_can_be_false(self->items[1], check_logic);\n	return (self->type == LG_AND) ? (left && right) : (left || right);")]),
("ok_part",P,"ok",[(Q,"		if (parent->items[0] == NULL) {\n			parent->items[0] = lg;\n		} else {\n			parent->items[1] = lg;\n		}","		int slot = (parent->items[0] != NULL);\n		parent->items[slot] = lg;")]),
]
