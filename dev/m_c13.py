S="lib/scalarfn.c"; E="lib/expression.c"; L="lib/fqllogic.c"; P="C13"; FP="lib/fqlprocesses.c"; FS="lib/fqlselect.c"; W="lib/libcsvwrite.c"
CASES=[
("left_try",P,"bad",[(S,"	long n = 0;\n	try_deref_(expression_get_int(&n, args[1], rg));\n\n	if (n < 0) {\n		fprintf(stderr, \"Invalid length value `%ld'\\n\", n);\n		return FQL_FAIL;\n	}\n\n	if (n > sv.len) {\n		string_strncpy(ret->s, sv.data, sv.len);","	long n = 0;\n	try_(expression_get_int(&n, args[1], rg));\n\n	if (n < 0) {\n		fprintf(stderr, \"Invalid length value `%ld'\\n\", n);\n		return FQL_FAIL;\n	}\n\n	if (n > sv.len) {\n		string_strncpy(ret->s, sv.data, sv.len);")]),
("plus_s",P,"bad",[(S,"	try_deref_(expression_get_stringview(&s1, args[1], rg));\n\n	string_copy","	if (try_(expression_get_stringview(&s1, args[1], rg)) == FQL_NULL)\n		s1 = (stringview) {\"\", 0};\n\n	string_copy")]),
("or_null",P,"bad",[(S,"	try_deref_(expression_get_int(&n0, args[0], rg));\n	try_deref_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = n0 | n1;","	try_deref_(expression_get_int(&n0, args[0], rg));\n	try_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = n0 | n1;")]),
("isnull_zero",P,"bad",[(S,"	int retval = try_(expression_get_int(&ret->i, *expr, rg));\n	if (retval == FQL_GOOD) {","	int retval = try_(expression_get_int(&ret->i, *expr, rg));\n	if (retval == FQL_GOOD && ret->i) {")]),
("isnull_drop",P,"bad",[(S,"	try_deref_(expression_get_stringview(&sv, expr[1], rg));\n\ngood_return","	try_(expression_get_stringview(&sv, expr[1], rg));\n\ngood_return")]),
("get_deref",P,"bad",[(E,"		try_deref_(func->call__(func, &new_field, rg));\n		try_(field_to_float","		try_(func->call__(func, &new_field, rg));\n		try_(field_to_float")]),
("get_lacks",P,"bad",[(E,"		if (rec == NULL || rec->fields.size <= src_expr->index) {\n			string_clear(&self->buf);\n			*ret = 0;\n			return FQL_NULL;\n		}\n		stringview* sv = vec_at(&rec->fields, src_expr->index);\n		string_copy_from_stringview(&self->buf, sv);\n		fail_if_(str2double","		if (rec == NULL || rec->fields.size < src_expr->index) {\n			string_clear(&self->buf);\n			*ret = 0;\n			return FQL_NULL;\n		}\n		stringview* sv = vec_at(&rec->fields, src_expr->index);\n		string_copy_from_stringview(&self->buf, sv);\n		fail_if_(str2double")]),
("get_missing0",P,"bad",[(E,"		if (rec == NULL) {\n			*ret = 0;\n			return FQL_NULL;","		if (rec == NULL) {\n			*ret = 0;\n			return FQL_GOOD;")]),
("set_flag_first",P,"bad",[(FP,"	var->is_null = false;\n	int expr_ret = 0;","	int expr_ret = 0;")]),
("set_flag",P,"bad",[(FP,"	if (expr_ret == FQL_NULL) {\n		var->is_null = true;\n	}","	if (expr_ret == FQL_NULL && declstmt->init_expr->expr == EXPR_NULL) {\n		var->is_null = true;\n	}")]),
("var_null",P,"bad",[(E,"	if (var->is_null) {\n		self->expr = EXPR_NULL;","	if (var->is_null && var->type != SQL_INT) {\n		self->expr = EXPR_NULL;")]),
("csv_null",P,"bad",[(W,"			    != FQL_NULL) {","			    != FQL_FAIL) {")]),
("api_flag",P,"bad",[(FS,"				string_clear(s);\n				field->is_null = true;","				string_clear(s);")]),
("const_null",P,"bad",[(FS,"		if (try_(expression_get_float(&num, expr, rg))) {\n			self->const_dest->expr = EXPR_NULL;\n		}","		try_(expression_get_float(&num, expr, rg));")]),
("subin_null",P,"bad",[(L,"long n0 = 0;\n	get_","long n0 = 0;\n	get_")]),
("ok_or",P,"ok",[(S,"	long n0 = 0;\n	long n1 = 0;\n	try_deref_(expression_get_int(&n0, args[0], rg));\n	try_deref_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = n0 | n1;","	long n0 = 0;\n	long n1 = 0;\n	int rc = expression_get_int(&n0, args[0], rg);\n	if (rc == FQL_GOOD)\n		rc = expression_get_int(&n1, args[1], rg);\n	if (rc == FQL_GOOD)\n		ret->i = n0 | n1;\n	return rc;")]),
("ok_isnull",P,"ok",[(S,"	int retval = try_(expression_get_int(&ret->i, *expr, rg));\n	if (retval == FQL_GOOD) {\n		return FQL_GOOD;\n	}\n	return expression_get_int(&ret->i, expr[1], rg);","	int retval = try_(expression_get_int(&ret->i, *expr, rg));\n	if (retval == FQL_NULL) {\n		return expression_get_int(&ret->i, expr[1], rg);\n	}\n	return FQL_GOOD;")]),
("ok_helper",P,"ok",[(S,"int fql_isnull_i(","static int two_ints(function* fn, node* rg, long* a, long* b)\n{\n	expression** args = vec_begin(fn->args);\n	try_deref_(expression_get_int(a, args[0], rg));\n	try_deref_(expression_get_int(b, args[1], rg));\n	return FQL_GOOD;\n}\n\nint fql_isnull_i("),(S,"	long n0 = 0;\n	long n1 = 0;\n	try_deref_(expression_get_int(&n0, args[0], rg));\n	try_deref_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = n0 & n1;","	long n0 = 0;\n	long n1 = 0;\n	try_deref_(two_ints(fn, rg, &n0, &n1));\n\n	ret->i = n0 & n1;")]),
("ok_get",P,"ok",[(E,"		try_deref_(func->call__(func, &new_field, rg));\n		try_(field_to_float(ret, &new_field, &new_field_type));\n		break;","		int rc = func->call__(func, &new_field, rg);\n		if (rc == FQL_GOOD) {\n			rc = field_to_float(ret, &new_field, &new_field_type);\n		}\n		return rc;")]),
("ok_csv",P,"ok",[(W,"			if (try_(expression_get_stringview(&sv, exprs[i], rg))\n			    != FQL_NULL) {\n				field = (struct csv_field) {sv.data, sv.len};\n				len += csv_write_field(handle, &field);\n			}","			int rc = expression_get_stringview(&sv, exprs[i], rg);\n			if (rc == FQL_FAIL)\n				return FQL_FAIL;\n			if (rc == FQL_NULL)\n				continue;\n			field = (struct csv_field) {sv.data, sv.len};\n			len += csv_write_field(handle, &field);")]),
("ok_set",P,"ok",[(FP,"	if (expr_ret == FQL_NULL) {\n		var->is_null = true;\n	}","	var->is_null = (expr_ret == FQL_NULL);")]),
]
CASES=[c for c in CASES if c[0]!="subin_null"]
