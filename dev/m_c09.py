P="C09"; F="lib/function.c"; A="lib/aggregate.c"; L="lib/logic.c"; Q="lib/query.c"; H="lib/libfql.c"
CASES=[
("swapdiv",P,"bad",[(F,"{&fql_op_divi_i, &fql_op_divi_f, NULL},\n        {&fql_op_mod_i, NULL, NULL},","{&fql_op_mod_i, &fql_op_divi_f, NULL},\n        {&fql_op_divi_i, NULL, NULL},")]),
("floatcol",P,"bad",[(F,"{&fql_op_mult_i, &fql_op_mult_f, NULL}","{&fql_op_mult_i, &fql_op_divi_f, NULL}")]),
("oneop",P,"bad",[(F,"	expression* expr1 = expr0;\n	if (self->args->size == 2) {\n		expr1 = args[1];\n	}","	expression* expr1 = expr0;\n	if (self->args->size > 2) {\n		expr1 = args[1];\n	}")]),
("umin2",P,"bad",[(F,"	case SCALAR_OP_UNARY_MINUS:\n		self->arg_min = 1;\n		self->arg_max = 1;","	case SCALAR_OP_UNARY_MINUS:\n		self->arg_min = 1;")]),
("nullok",P,"bad",[(F,"	if (self->call__ == NULL) {\n		fprintf","	if (self->call__ == NULL && *type != FIELD_FLOAT) {\n		fprintf")]),
("names",P,"bad",[(F,'"RIGHT",         "ROUND"','"ROUND",         "RIGHT"')]),
("names2",P,"bad",[(F,'"BIT_AND", "BIT_XOR"','"BIT_XOR", "BIT_AND"')]),
("right",P,"bad",[(F,"		self->call__ = &fql_right;","		self->call__ = &fql_left;")]),
("lentype",P,"bad",[(F,"		self->call__ = &fql_len;\n		*type = FIELD_INT;","		self->call__ = &fql_len;\n		*type = FIELD_STRING;")]),
("lenlen",P,"bad",[(F,"		self->call__ = &fql_datalength;","		self->call__ = &fql_len;")]),
("argmax",P,"bad",[(F,"argc >= self->arg_min && argc <= self->arg_max","argc >= self->arg_min || argc <= self->arg_max")]),
("argmin",P,"bad",[(F,"argc >= self->arg_min && argc <= self->arg_max","argc <= self->arg_max")]),
("sub2",P,"bad",[(F,"	self->arg_min = 3;\n	self->arg_max = 3;","	self->arg_min = 2;\n	self->arg_max = 3;")]),
("isnullf",P,"bad",[(F,"			self->call__ = &fql_isnull_f;","			self->call__ = &fql_isnull_i;")]),
("isnulltype",P,"bad",[(F,"		parent->field_type = (*first_arg)->field_type;\n		switch (parent->field_type) {","		switch (parent->field_type) {")]),
("noimpl",P,"bad",[(F,"_scalar_str[self->type]);\n	return FQL_FAIL;\n}\n\nfunction*","_scalar_str[self->type]);\n	return FQL_NULL;\n}\n\nfunction*")]),
("castround",P,"bad",[(F,"	case SCALAR_ROUND:\n		return self;","	case SCALAR_ROUND:\n		self->call__ = &fql_left;\n		return self;")]),
("aggmax",P,"bad",[(A,"			self->call__ = &fql_max_f;","			self->call__ = &fql_min_f;")]),
("aggsumstr",P,"bad",[(A,"			self->call__ = &fql_sum_f;\n			break;","			self->call__ = &fql_sum_f;\n			break;\n		case FIELD_STRING:\n			self->call__ = &fql_sum_f;\n			break;")]),
("aggcount",P,"bad",[(A,"		self->call__ = &fql_count;\n		self->data_type = FIELD_INT;","		self->call__ = &fql_count;\n		self->data_type = argument->field_type;")]),
("aggtype",P,"bad",[(A,"	col->field_type = self->data_type;\n","	if (self->agg_type != AGG_AVG) col->field_type = self->data_type;\n")]),
("aggname",P,"bad",[(A,'        "MAX",\n        "MIN",','        "MIN",\n        "MAX",')]),
("aggfall",P,"bad",[(A,"	default:\n		fprintf(stderr,\n		        \"Aggregate function","	case AGG_COUNT_BIG:\n		break;\n	default:\n		fprintf(stderr,\n		        \"Aggregate function")]),
("cmpge",P,"bad",[(L,'string_eq(op, ">=")) {\n		self->comp_type = COMP_GE','string_eq(op, ">=")) {\n		self->comp_type = COMP_GT')]),
("cmpne",P,"bad",[(L,'string_eq(op, "<>") || string_eq(op, "!=")','string_eq(op, "<>")')]),
("cmpstr",P,"bad",[(L,'        ">",\n        ">=",','        ">=",\n        ">",')]),
("typereal",P,"bad",[(H,'istring_eq(type_str, "float") || istring_eq(type_str, "real")','istring_eq(type_str, "float")')]),
("typecase",P,"bad",[(H,'istring_eq(type_str, "bit")','string_eq(type_str, "bit")')]),
("castbit",P,"bad",[(Q,"call__ = &fql_cast_bit;","call__ = &fql_cast_int;")]),
("castlen",P,"bad",[(Q,"		if (cast_expr->field.fn->args->size == 2) {","		if (cast_expr->field.fn->args->size >= 1) {")]),
("castundef",P,"bad",[(Q,"	case SQL_UNDEFINED:\n		return FQL_FAIL;","	case SQL_UNDEFINED:\n		return FQL_GOOD;")]),
("desc",P,"bad",[(Q,"	(*expr)->descending = true;","	(*expr)->descending = self->orderby->expressions.size < 2;")]),
("desc1",P,"bad",[(Q,"	expression** expr = vec_back(&self->orderby->expressions);","	expression** expr = vec_begin(&self->orderby->expressions);")]),
("or",P,"bad",[(Q,"	_add_logic_item(self, LG_OR);","	_add_logic_item(self, LG_AND);")]),
("isnot",P,"bad",[(Q,"	if (negation) {\n		lg->negation = !lg->negation;","	if (negation) {\n		lg->negation = true;")]),
("notpar",P,"bad",[(Q,"	if (negation % 2) {","	if (negation) {")]),
("not2",P,"bad",[(Q,"	self->negate_next_logic = !self->negate_next_logic;","	self->negate_next_logic = true;")]),
("like",P,"bad",[(Q,'query_set_logic_comparison(self, "LIKE");','query_set_logic_comparison(self, "IN");')]),
("aggset",P,"bad",[(Q,"new_(aggregate, agg_type)","new_(aggregate, AGG_SUM)")]),
("assignupd",P,"bad",[(Q,"		expression** set_expr = vec_back(&update->set_columns);\n		expression* set_expr_cpy = expression_copy(*set_expr);\n		return _distribute_expression(self, set_expr_cpy);","		return FQL_GOOD;")]),
("assignset",P,"bad",[(Q,"		                                         setstmt->variable_idx);","		                                         self->fqlref->declare_idx);")]),
("init",P,"bad",[(Q,"	case FQL_DELETE:\n		self->op = new_(fqldelete);","	case FQL_DELETE:\n		self->op = new_(fqlupdate);")]),
("top",P,"bad",[(Q,"	self->top_count = top_count;","	self->top_count = top_count > 1 ? top_count : 1;")]),
("topneg",P,"bad",[(Q,"	fail_if_(top_count < 0);\n","")]),
("ok_opswitch",P,"ok",[(F,"	case SCALAR_OP_UNARY_BIT_NOT:\n		self->arg_min = 1;\n		self->arg_max = 1;\n		break;\n	case SCALAR_OP_UNARY_MINUS:","	case SCALAR_OP_UNARY_BIT_NOT:\n	case SCALAR_OP_UNARY_MINUS:")]),
("ok_validate",P,"ok",[(F,"	if (argc >= self->arg_min && argc <= self->arg_max) {\n		return FQL_GOOD;\n	}\n	if (self->arg_min","	bool bad = argc < self->arg_min || argc > self->arg_max;\n	if (!bad) {\n		return FQL_GOOD;\n	}\n	if (self->arg_min")]),
("ok_args",P,"ok",[(F,"	expression* expr1 = expr0;\n	if (self->args->size == 2) {\n		expr1 = args[1];\n	}","	expression* expr1 = self->args->size == 2 ? args[1] : expr0;")]),
("ok_agghelp",P,"ok",[(A,"int aggregate_resolve(","static int _typed(aggregate* self, enum field_type t, aggregate_fn i, aggregate_fn f)\n{\n	if (t == FIELD_INT) {\n		self->call__ = i;\n	} else if (t == FIELD_FLOAT) {\n		self->call__ = f;\n	} else {\n		return 1;\n	}\n	return 0;\n}\n\nint aggregate_resolve("),(A,"		switch (argument->field_type) {\n		case FIELD_INT:\n			self->call__ = &fql_avg_i;\n			break;\n		case FIELD_FLOAT:\n			self->call__ = &fql_avg_f;\n			break;\n		default:\n			goto unexpected_type;\n		}","		if (_typed(self, argument->field_type, &fql_avg_i, &fql_avg_f)) {\n			goto unexpected_type;\n		}")]),
("ok_cmp",P,"ok",[(L,'	if (string_eq(op, "=")) {\n		self->comp_type = COMP_EQ;\n	} else if','	if (string_eq(op, "LIKE")) {\n		self->comp_type = COMP_LIKE;\n		return;\n	}\n	if (string_eq(op, "=")) {\n		self->comp_type = COMP_EQ;\n	} else if')]),
("ok_cmptab",P,"ok",[(L,'	if (string_eq(op, "=")) {\n		self->comp_type = COMP_EQ;\n	} else if','	if (op[0] == \'=\' && op[1] == 0) {\n		self->comp_type = COMP_EQ;\n	} else if')]),
("ok_desc",P,"ok",[(Q,"	expression** expr = vec_back(&self->orderby->expressions);\n	(*expr)->descending = true;","	vec* v = &self->orderby->expressions;\n	expression* e = *(expression**)vec_back(v);\n	e->descending = true;")]),
("ok_par",P,"ok",[(Q,"	if (negation % 2) {\n		lg->negation = !lg->negation;\n	}","	if (negation & 1) {\n		lg->negation ^= true;\n	}")]),
("ok_isnull",P,"ok",[(Q,"	if (negation) {\n		lg->negation = !lg->negation;\n	}","	lg->negation = lg->negation != negation;")]),
("ok_top",P,"ok",[(Q,"	fail_if_(top_count < 0);\n	self->top_count = top_count;","	if (top_count >= 0) {\n		self->top_count = top_count;\n		return FQL_GOOD;\n	}\n	return FQL_FAIL;")]),
("ok_cast",P,"ok",[(Q,"		if (cast_expr->field.fn->args->size == 2) {\n			cast_expr->field.fn->call__ = &fql_left;\n		} else {\n			cast_expr->field.fn->call__ = &fql_cast_string;\n		}","		cast_expr->field.fn->call__ =\n		        cast_expr->field.fn->args->size == 2 ? &fql_left : &fql_cast_string;")]),
]
