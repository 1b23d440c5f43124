L="lib/fqllogic.c"; S="util/stringview.c"; G="lib/logic.c"; D="lib/field.c"; I="lib/inlist.c"
P="C15"
RT="""		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
	}
	return ret;
}

int stringview_compare_nocase_rtrim("""
NR="""		ret = tolower (s0[i]) - tolower (s1[i]);"""
CASES=[
("ge_gt",P,"bad",[(L,"return (n0 >= n1);","return (n0 > n1);")]),
("gef",P,"bad",[(L,"	get_floats(n0, n1);\n	return (n0 >= n1);","	get_floats(n0, n1);\n	return !(n0 <= n1);")]),
("gt_s_const",P,"bad",[(L,"stringview_compare_nocase_rtrim(&sv0, &sv1) > 0)","stringview_compare_nocase_rtrim(&sv0, &sv1) > 1)")]),
("lt_s_swap",P,"bad",[(L,"stringview_compare_nocase_rtrim(&sv0, &sv1) < 0)","stringview_compare_nocase_rtrim(&sv1, &sv0) < 0)")]),
("ne_s_rtrim",P,"bad",[(L,"stringview_compare_nocase_rtrim(&sv0, &sv1) != 0)","stringview_compare_nocase(&sv0, &sv1) != 0)")]),
("null_true",P,"bad",[(L,"	long n0 = 0;\n	long n1 = 0;\n	get_integers(n0, n1);\n	return (n0 != n1);","	long n0 = 0;\n	long n1 = 0;\n	try_logic_deref_(expression_get_int(&n0, self->expr[0], rg));\n	if (try_(expression_get_int(&n1, self->expr[1], rg)) == FQL_NULL)\n		return true;\n	return (n0 != n1);")]),
("same_op",P,"bad",[(L,"#define get_floats(n0_, n1_)                                                     \\\n	{                                                                        \\\n		try_logic_deref_(expression_get_float(&n0_, self->expr[0], rg)); \\\n		try_logic_deref_(expression_get_float(&n1_, self->expr[1], rg))","#define get_floats(n0_, n1_)                                                     \\\n	{                                                                        \\\n		try_logic_deref_(expression_get_float(&n0_, self->expr[0], rg)); \\\n		try_logic_deref_(expression_get_float(&n1_, self->expr[0], rg))")]),
("matrix_swap",P,"bad",[(G,"{&fql_logic_lt_i, &fql_logic_lt_f, &fql_logic_lt_s},","{&fql_logic_lt_i, &fql_logic_le_f, &fql_logic_lt_s},")]),
("matrix_col",P,"bad",[(G,"{&fql_logic_gt_i, &fql_logic_gt_f, &fql_logic_gt_s},","{&fql_logic_gt_f, &fql_logic_gt_i, &fql_logic_gt_s},")]),
("in_null",P,"bad",[(L,"		if (ret != FQL_NULL && n0 == n1) {","		if (ret == FQL_NULL)\n			return false;\n		if (n0 == n1) {")]),
("in_stop",P,"bad",[(L,"		if (ret != FQL_NULL && n1 == n0) {\n			return true;\n		}","		if (ret != FQL_NULL && n1 == n0) {\n			return true;\n		}\n		if (n1 > n0)\n			break;")]),
("in_skipfirst",P,"bad",[(L,"	expression** it = vec_begin(list_vec);\n	for (; it != vec_end(list_vec); ++it) {\n		stringview sv1;","	expression** it = vec_begin(list_vec);\n	for (++it; it < (expression**)vec_end(list_vec); ++it) {\n		stringview sv1;")]),
("in_s_case",P,"bad",[(L,"if (ret != FQL_NULL && !stringview_compare_nocase_rtrim(&sv0, &sv1))","if (ret != FQL_NULL && !stringview_compare_rtrim(&sv0, &sv1))")]),
("isnull_fail",P,"bad",[(L,"int ret = try_(expression_get_stringview(&sv, self->expr[0], rg));\n	return","int ret = expression_get_stringview(&sv, self->expr[0], rg);\n	return")]),
("isnull_neg",P,"bad",[(L,"return (ret == FQL_NULL);","return (ret != FQL_GOOD + 1);")]),
("like_gt",P,"bad",[(L,"	if (match_ret < 0) {","	if (match_ret <= 0) {")]),
("like_nocompile",P,"bad",[(L,"		try_(like_to_regex(self->like_data, sv1));\n","		if (self->like_data->regex == NULL)\n			try_(like_to_regex(self->like_data, sv1));\n")]),
("resolve_order",P,"bad",[(G,"	self->logic__ = _logic_matrix[self->comp_type][self->data_type];","	self->logic__ = _logic_matrix[self->comp_type][self->expr[0]->field_type];")]),
("resolve_ok",P,"bad",[(G,"		        field_description(self->data_type));\n		return FQL_FAIL;","		        field_description(self->data_type));\n		return FQL_GOOD;")]),
("dettype",P,"bad",[(D,"	} else if (t0 == FIELD_STRING) {\n		return t1;","	} else if (t0 == FIELD_STRING) {\n		return t0;")]),
("dettype2",P,"bad",[(D,"	return FIELD_FLOAT;\n}\n\nint field_to_int","	return t0;\n}\n\nint field_to_int")]),
("inlist_type",P,"bad",[(I,"		type = field_determine_type(type, (*it)->field_type);","		type = field_determine_type(left_side->field_type, (*it)->field_type);")]),
("txt_signedidx",P,"bad",[(S,NR,"		ret = tolower (s0[i]) - s1[i];")]),
("txt_short",P,"bad",[(S,RT,RT.replace("stringview_compare_nocase_rtrim(","stringview_compare_nocase_rtrim(").replace("isspace(long_str[i])","isspace(long_str[0])"))]),
("txt_restart",P,"bad",[(S,"	for (; ret == 0 && i < long_sv->len; ++i) {\n		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;\n	}\n	return ret;\n}\n\nint","	for (i = 0; ret == 0 && i < long_sv->len; ++i) {\n		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;\n	}\n	return ret;\n}\n\nint")]),
("txt_sign",P,"bad",[(S,"? 0 : sv0->len - sv1->len","? 0 : sv1->len - sv0->len")]),
("txt_overrun",P,"bad",[(S,"i < short_sv->len; ++i) {\n		ret = s0[i] - s1[i];","i <= short_sv->len; ++i) {\n		ret = s0[i] - s1[i];")]),
("txt_lost",P,"bad",[(S,"	for (; ret == 0 && i < short_sv->len; ++i) {\n		ret = s0[i] - s1[i];","	for (; i < short_sv->len; ++i) {\n		ret = s0[i] - s1[i];")]),
("txt_longwrong",P,"bad",[(S,"	const stringview* short_sv = sv0;\n	const stringview* long_sv = sv1;\n	if (sv0->len > sv1->len) {\n		short_sv = sv1;\n		long_sv = sv0;\n	}","	const stringview* short_sv = sv0;\n	const stringview* long_sv = sv1;\n	if (sv0->len > sv1->len) {\n		short_sv = sv1;\n	}")]),
("txt_strncmp",P,"bad",[(S,"memcmp(sv0->data","strncmp(sv0->data")]),
("txt_len",P,"bad",[(S,"	return num_compare_(sv0->len, sv1->len);\n}\n\nint stringview_compare(","	return 0;\n}\n\nint stringview_compare(")]),
# refactorings
("ok_ge",P,"ok",[(L,"return (n0 >= n1);","return !(n0 < n1);")]),
("ok_if",P,"ok",[(L,"	return (n0 > n1);","	if (n1 < n0)\n		return true;\n	return false;")]),
("ok_f",P,"ok",[(L,"	get_floats(n0, n1);\n	return (n0 > n1);","	get_floats(n0, n1);\n	if (n1 < n0)\n		return 1;\n	return 0;")]),
("ok_s",P,"ok",[(L,"	get_stringviews(sv0, sv1);\n	return (stringview_compare_nocase_rtrim(&sv0, &sv1) > 0);","	get_stringviews(sv0, sv1);\n	int c = stringview_compare_nocase_rtrim(&sv1, &sv0);\n	return (c < 0) ? 1 : 0;")]),
("ok_helper",P,"ok",[(L,"int fql_logic_eq_s(logic* self, node* rg)\n{\n	stringview sv0, sv1;\n	get_stringviews(sv0, sv1);\n	return (stringview_compare_nocase_rtrim(&sv0, &sv1) == 0);","static int cmp_(logic* self, node* rg, int* out)\n{\n	stringview sv0, sv1;\n	get_stringviews(sv0, sv1);\n	*out = stringview_compare_nocase_rtrim(&sv0, &sv1);\n	return 1;\n}\n\nint fql_logic_eq_s(logic* self, node* rg)\n{\n	int c = 0;\n	int ret = cmp_(self, rg, &c);\n	if (ret <= 0)\n		return ret;\n	return c == 0;")]),
("ok_in_idx",P,"ok",[(L,"	expression** it = vec_begin(list_vec);\n	for (; it != vec_end(list_vec); ++it) {\n		long n1 = 0;\n		int ret = try_(expression_get_int(&n1, *it, rg));","	expression** list = vec_begin(list_vec);\n	for (unsigned i = 0; i < list_vec->size; ++i) {\n		long n1 = 0;\n		int ret = try_(expression_get_int(&n1, list[i], rg));")]),
("ok_in_cont",P,"ok",[(L,"		if (ret != FQL_NULL && n0 == n1) {\n			return true;\n		}","		if (ret == FQL_NULL) {\n			continue;\n		}\n		if (n0 == n1) {\n			return true;\n		}")]),
("ok_in_while",P,"ok",[(L,"	for (; it != vec_end(list_vec); ++it) {\n		double n1 = 0;","	while (it != vec_end(list_vec)) {\n		expression* e = *it++;\n		double n1 = 0;"),(L,"expression_get_float(&n1, *it, rg)","expression_get_float(&n1, e, rg)")]),
("ok_like",P,"ok",[(L,"	if (match_ret < 0) {\n		return false;\n	}\n	return true;","	return match_ret >= 0;")]),
("ok_resolve",P,"ok",[(G,"	self->logic__ = _logic_matrix[self->comp_type][self->data_type];","	logic_fn* row = _logic_matrix[self->comp_type];\n	self->logic__ = row[self->data_type];")]),
("ok_dettype",P,"ok",[(D,"	if (t0 == t1) {\n		return t0;\n	} else if (t0 == FIELD_STRING) {\n		return t1;\n	} else if (t1 == FIELD_STRING) {\n		return t0;\n	}","	if (t0 == FIELD_STRING) {\n		return t1;\n	}\n	if (t1 == FIELD_STRING || t1 == t0) {\n		return t0;\n	}")]),
("ok_txt_loop",P,"ok",[(S,"	for (; ret == 0 && i < short_sv->len; ++i) {\n		ret = tolower (s0[i]) - tolower (s1[i]);\n	}","	while (i < short_sv->len) {\n		ret = tolower(s0[i]) - tolower(s1[i]);\n		if (ret) {\n			return ret;\n		}\n		++i;\n	}")]),
("ok_txt_tail",P,"ok",[(S,"	for (; ret == 0 && i < long_sv->len; ++i) {\n		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;\n	}\n	return ret;\n}\n\nint","	if (ret)\n		return ret;\n	for (; i < long_sv->len; ++i) {\n		if (!isspace(long_str[i])) {\n			return (sv0->len < sv1->len) ? -1 : 1;\n		}\n	}\n	return 0;\n}\n\nint")]),
("ok_txt_idx0",P,"ok",[(S,"	const unsigned char *long_str = (unsigned char*) long_sv->data;\n\n	for (; ret == 0 && i < long_sv->len; ++i) {\n		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;\n	}\n	return ret;\n}\n\nint","	const unsigned char *long_str = (unsigned char*) long_sv->data;\n	unsigned j = short_sv->len;\n	for (; ret == 0 && j < long_sv->len; ++j) {\n		ret = (isspace(long_str[j])) ? 0 : sv0->len - sv1->len;\n	}\n	return ret;\n}\n\nint")]),
("ok_txt_cmp",P,"ok",[(S,"	int ret = num_compare_(sv0->len, sv1->len);\n	int maybe_ret = (len) ? memcmp(sv0->data, sv1->data, len) : 0;\n	if (maybe_ret) {\n		return maybe_ret;\n	}\n	return ret;","	int ret = (len) ? memcmp(sv0->data, sv1->data, len) : 0;\n	return ret ? ret : num_compare_(sv0->len, sv1->len);")]),
]
