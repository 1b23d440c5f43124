P="C27"; V="lib/variable.c"; S="lib/scope.c"; L="lib/libfql.c"; B="lib/fqlbranch.c"; Q="lib/query.c"; F="lib/field.c"; FP="lib/fqlprocesses.c"
CASES=[
("last_hit",P,"bad",[(S,"it && idx == NULL;","it;")]),
("only_own",P,"bad",[(S,"it = it->parent_scope) {","it = NULL) {")]),
("self_map",P,"bad",[(S,"hashmap_get(&it->variable_map","hashmap_get(&self->variable_map")]),
("start_parent",P,"bad",[(S,"scope* it = self;","scope* it = self->parent_scope ? self->parent_scope : self;")]),
("zero",P,"bad",[(S,"		return FQL_FAIL;\n","		return 0;\n")]),
("decl_global",P,"bad",[(L,"hashmap_get(&fql->_scope->variable_map, varname);","hashmap_get(&fql->global_scope->variable_map, varname);")]),
("decl_put_global",P,"bad",[(L,"hashmap_set(&fql->_scope->","hashmap_set(&fql->global_scope->")]),
("decl_again",P,"bad",[(L,"			var->can_be_redeclared = false;\n","")]),
("decl_any",P,"bad",[(L,"		if (var->can_be_redeclared) {","		if (var->can_be_redeclared || var->is_null) {")]),
("decl_chain",P,"bad",[(L,"	if (var_idx != NULL) {\n		variable* var","	if (var_idx != NULL && fql->_scope == fql->global_scope) {\n		variable* var")]),
("idx_late",P,"bad",[(L,"	int new_var_idx = fql->variables->size;\n","	int new_var_idx = fql->variables->size - 1;\n")]),
("branch_parent",P,"bad",[(B,"		self->scope->parent_scope = fql->_scope->parent_scope;","		self->scope->parent_scope = fql->_scope;")]),
("branch_global",P,"bad",[(B,"		self->scope->parent_scope = fql->_scope;\n	}","		self->scope->parent_scope = fql->global_scope;\n	}")]),
("branch_same",P,"bad",[(B,"	fql->_scope = self->scope;\n","")]),
("exit_stay",P,"bad",[(Q,"	self->fqlref->_scope = ifstmt->scope->parent_scope;","	self->fqlref->_scope = ifstmt->scope;")]),
("exit_one",P,"bad",[(Q,"	self->fqlref->_scope = ifstmt->scope->parent_scope;","	self->fqlref->_scope = self->fqlref->_scope->parent_scope;")]),
("else_inside",P,"bad",[(Q,"branch->else_scope->parent_scope = branch->scope->parent_scope;","branch->else_scope->parent_scope = branch->scope;")]),
("else_none",P,"bad",[(Q,"			self->fqlref->_scope = branch->else_scope;\n","")]),
("names",P,"bad",[(L,'istring_eq(type_str, "float") || istring_eq(type_str, "real")','istring_eq(type_str, "float")'),(L,'istring_eq(type_str, "smallint")','istring_eq(type_str, "smallint") || istring_eq(type_str, "real")')]),
("nchar",P,"bad",[(L,'istring_eq(type_str, "nvarchar")','istring_eq(type_str, "nchar")')]),
("limit0",P,"bad",[(L,"	if (limit <= 0) {","	if (limit < 0) {")]),
("limit_minus",P,"bad",[(L,"	var->limit = limit;","	var->limit = limit - 1;")]),
("back",P,"bad",[(L,"	variable* var = vec_at(fql->variables, fql->declare_idx);\n	var->limit","	variable* var = vec_back(fql->variables);\n	var->limit")]),
("bit_raw",P,"bad",[(FP,"		if (var->value.i) {\n			var->value.i = 1;\n		}\n","")]),
("bit_pos",P,"bad",[(FP,"		if (var->value.i) {\n","		if (var->value.i > 0) {\n")]),
("float_as_int",P,"bad",[(FP,"	case SQL_FLOAT:\n		expr_ret = try_(\n		        expression_get_float(&var->value.f,","	case SQL_FLOAT:\n		expr_ret = try_(\n		        expression_get_int(&var->value.i,")]),
("nolimit",P,"bad",[(V,"		sv->len = self->limit;\n","")]),
("limit_off",P,"bad",[(V,"	if (sv->len > self->limit) {","	if (sv->len > self->limit + 1) {")]),
("pad_varchar",P,"bad",[(V,"	self->value.s = self->_data;\n	if (self->type == SQL_CHAR) {","	self->value.s = self->_data;\n	if (self->type == SQL_VARCHAR) {")]),
("pad_less",P,"bad",[(V,"	while (self->_data->size < self->limit) {","	while (self->_data->size < self->limit - 1) {")]),
("conv_bit",P,"bad",[(V,"		self->value.i = (n != 0);\n","")]),
("conv_type_first",P,"bad",[(V,"	enum field_type fieldtype = variable_get_field_type(self->type);\n","	self->type = new_type;\n	enum field_type fieldtype = variable_get_field_type(self->type);\n")]),
("conv_unlimited",P,"bad",[(V,"		if (self->limit == INT_MAX) {","		if (self->limit >= 256) {")]),
("conv_ignore",P,"bad",[(V,"		try_(field_to_float(&n, &self->value, &fieldtype));","		field_to_float(&n, &self->value, &fieldtype);")]),
("conv_float",P,"bad",[(V,"	case SQL_BIT:\n	case SQL_INT:\n		return FIELD_INT;","	case SQL_INT:\n		return FIELD_INT;\n	case SQL_BIT:")]),
("null_stays",P,"bad",[(V,"	self->is_null = false;\n	if (sv->len","	if (sv->len")]),
("f2i_tag",P,"bad",[(F,"		*type = FIELD_INT;\n		field->i = (long)field->f;","		field->i = (long)field->f;")]),
("f2i_zero",P,"bad",[(F,"		if (str2long(&val, field->s->data)) {\n			return FQL_FAIL;\n		}\n","		str2long(&val, field->s->data);\n")]),
("f2s_fmt",P,"bad",[(F,'string_sprintf(dest, "%ld", field->i);','string_sprintf(dest, "%d", (int)field->i);')]),
("f2s_field",P,"bad",[(F,"	field->s = dest;\n","")]),
("f2sl_cut",P,"bad",[(F,"		if (dest->size > limit) {\n			string_resize(dest, limit);\n		}\n		break;\n	case FIELD_INT","		break;\n	case FIELD_INT")]),
("reset_null",P,"bad",[(V,"		variable_clear(self);\n		return FQL_GOOD;","		return FQL_GOOD;")]),
("reset_noconv",P,"bad",[(V,"	return variable_set_type(self, correct_type);","	variable_set_type(self, correct_type);\n	return FQL_GOOD;")]),
("use_ignore",P,"bad",[(Q,"	int idx = try_(scope_get_var_index(self->fqlref->_scope, varname));\n	return _add","	int idx = scope_get_var_index(self->fqlref->_scope, varname);\n	return _add")]),
("use_global",P,"bad",[(Q,"	int idx = try_(scope_get_var_index(self->fqlref->_scope, varname));\n\n	try_(query_init_op","	int idx = try_(scope_get_var_index(self->fqlref->global_scope, varname));\n\n	try_(query_init_op")]),
("ok_while",P,"ok",[(S,"	for (; it && idx == NULL; it = it->parent_scope) {\n		idx = hashmap_get(&it->variable_map, varname);\n	}\n","	while (it != NULL) {\n		idx = hashmap_get(&it->variable_map, varname);\n		if (idx != NULL) {\n			return *idx;\n		}\n		it = it->parent_scope;\n	}\n")]),
("ok_helper",P,"ok",[(S,"int scope_get_var_index(scope* self","static int* _own(scope* s, const char* name)\n{\n	return hashmap_get(&s->variable_map, name);\n}\n\nint scope_get_var_index(scope* self"),(S,"		idx = hashmap_get(&it->variable_map, varname);","		idx = _own(it, varname);")]),
("ok_decl",P,"ok",[(L,"	int new_var_idx = fql->variables->size;\n	hashmap_set(&fql->_scope->variable_map, varname, &new_var_idx);\n\n	variable* var = vec_add_one(fql->variables);\n	variable_construct(var);","	variable* var = vec_add_one(fql->variables);\n	variable_construct(var);\n	int new_var_idx = fql->variables->size - 1;\n	hashmap_set(&fql->_scope->variable_map, varname, &new_var_idx);")]),
("ok_decl2",P,"ok",[(L,"		if (var->can_be_redeclared) {\n			var->can_be_redeclared = false;\n			fql->declare_idx = *var_idx;\n			return *var_idx;\n		}\n		fprintf(stderr, \"variable `%s' already declared\\n\", varname);\n		return FQL_FAIL;\n","		if (!var->can_be_redeclared) {\n			fprintf(stderr, \"variable `%s' already declared\\n\", varname);\n			return FQL_FAIL;\n		}\n		var->can_be_redeclared = false;\n		fql->declare_idx = *var_idx;\n		return *var_idx;\n")]),
("ok_branch",P,"ok",[(B,"	if (fql->branch_state == BRANCH_EXPECT_ELSE) {\n		self->scope->parent_scope = fql->_scope->parent_scope;\n	} else {\n		fql->branch_state = BRANCH_EXPECT_EXPR;\n		self->scope->parent_scope = fql->_scope;\n	}\n","	struct scope* outer = fql->_scope;\n	if (fql->branch_state != BRANCH_EXPECT_ELSE) {\n		fql->branch_state = BRANCH_EXPECT_EXPR;\n	} else {\n		outer = outer->parent_scope;\n	}\n	self->scope->parent_scope = outer;\n")]),
("ok_bit",P,"ok",[(FP,"		if (var->value.i) {\n			var->value.i = 1;\n		}\n","		var->value.i = !!var->value.i;\n")]),
("ok_pad",P,"ok",[(V,"	while (self->_data->size < self->limit) {\n		string_push_back(self->_data, ' ');\n	}\n","	unsigned n = self->_data->size;\n	for (; n < self->limit; ++n) {\n		string_push_back(self->_data, ' ');\n	}\n")]),
("ok_sv",P,"ok",[(V,"	if (sv->len > self->limit) {\n		sv->len = self->limit;\n	}\n","	stringview cut = *sv;\n	if (cut.len > self->limit) {\n		cut.len = self->limit;\n	}\n	sv = &cut;\n")]),
("ok_conv",P,"ok",[(V,"	case SQL_BIT: {\n		long n = 0;\n		try_(field_to_int(&n, &self->value, &fieldtype));\n		self->value.i = (n != 0);\n		break;\n	}\n	case SQL_INT: {","	case SQL_BIT:\n	case SQL_INT: {"),(V,"		long n = 0;\n		try_(field_to_int(&n, &self->value, &fieldtype));\n		break;","		long n = 0;\n		try_(field_to_int(&n, &self->value, &fieldtype));\n		if (new_type == SQL_BIT && n != 0) {\n			self->value.i = 1;\n		}\n		break;")]),
("ok_field",P,"ok",[(F,"		long val = 0;\n		if (str2long(&val, field->s->data)) {\n			return FQL_FAIL;\n		}\n		field->i = val;\n","		long val = 0;\n		int bad = str2long(&val, field->s->data);\n		if (bad) {\n			return FQL_FAIL;\n		}\n		field->i = val;\n")]),
]
