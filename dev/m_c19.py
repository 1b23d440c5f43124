F="util/stringy.c"
U="util/util.c"
W="util/stringview.c"
P="C19"
CASES=[
("cat_noterm",P,"bad",[(F,"memcpy(end, src, len + 1);\n	return len;\n}\n\nsize_t string_strncat","memcpy(end, src, len);\n	return len;\n}\n\nsize_t string_strncat")]),
("cpy_noterm",P,"bad",[(F,"memcpy(dest->data, src, len + 1);","memcpy(dest->data, src, len);\n	if (len > 3) ((char*)dest->data)[len-1] = 0;")]),
("app_noterm",P,"bad",[(F,"memcpy(end, sv->data, sv->len);\n	_null_terminate_(dest);","memcpy(end, sv->data, sv->len);")]),
("app_idx",P,"bad",[(F,"size_t index = dest->size;\n	vec_resize(dest, dest->size + sv->len);","vec_resize(dest, dest->size + sv->len);\n	size_t index = dest->size - sv->len + (sv->len > 9);")]),
("push_noroom",P,"bad",[(F,"	char* back = vec_add_one(s);\n	*back = c;\n	back[1] = '\\0';","	vec_push_back(s, &c);")]),
("sprintf_len",P,"bad",[(F,"vec_resize(s, len);\n	vsnprintf(s->data, len + 1,","vec_resize(s, len);\n	vsnprintf(s->data, len,")]),
("sprintf_before",P,"bad",[(F,"	vec_resize(s, len);\n	vsnprintf(s->data, len + 1, fmt, args2);","	vsnprintf(s->data, len + 1, fmt, args2);\n	vec_resize(s, len);")]),
("copy_srcsize",P,"bad",[(F,"memcpy(dest->data, src->data, src->size);","memcpy(dest->data, src->data, src->_alloc);")]),
("copy_noterm",P,"bad",[(F,"memcpy(dest->data, src->data, src->size);\n	_null_terminate_(dest);","memcpy(dest->data, src->data, src->size);")]),
("resize_noterm",P,"bad",[(F,"	vec_resize(s, n);\n	_null_terminate_(s);","	_null_terminate_(s);\n	vec_resize(s, n);")]),
("clear_noterm",P,"bad",[(F,"	vec_clear(s);\n	_null_terminate_(s);","	vec_clear(s);")]),
("take_alloc",P,"bad",[(F,"._alloc = len + 1,","._alloc = len,")]),
("take_alloc2",P,"bad",[(F,"._alloc = len + 1,","._alloc = len + 2,")]),
("export_alias",P,"bad",[(F,"	char* data = s->data;\n	string_construct(s);\n	return data;","	char* data = s->data;\n	s->size = 0;\n	return data;")]),
("strncpy_order",P,"bad",[(F,"for (; i < limit && src[i] != '\\0'; ++i) {","for (; src[i] != '\\0' && i < limit; ++i) {")]),
("strncpy_le",P,"bad",[(F,"for (; i < limit && src[i] != '\\0'; ++i) {","for (; i <= limit && src[i] != '\\0'; ++i) {")]),
("strncpy_nofinal",P,"bad",[(F,"	string_resize(dest, i);\n	_null_terminate_(dest);\n	return i - 1;","	_null_terminate_(dest);\n	return i - 1;")]),
("strncpy_noroom",P,"bad",[(F,"	string_resize(dest, limit);\n	size_t i = 0;","	string_resize(dest, limit / 2);\n	size_t i = 0;")]),
("strncat_strlen",P,"bad",[(F,"size_t len = strnlen(src, n);","size_t len = strlen(src);")]),
("strncat_n",P,"bad",[(F,"	memcpy(end, src, len);\n	_null_terminate_(dest);\n\n	return dest->size - old_size;","	memcpy(end, src, n);\n	_null_terminate_(dest);\n\n	return dest->size - old_size;")]),
("repl_stale",P,"bad",[(F,"	return vec_at(s, pos_idx + newlen);\n}\n\n\nvoid string_find_replace_limited","	return pos + newlen;\n}\n\n\nvoid string_find_replace_limited")]),
("repl_bound",P,"bad",[(F,"memmem(begin, s->size - begin_idx, oldstr, oldlen)","memmem(begin, s->size, oldstr, oldlen)")]),
("repl_len",P,"bad",[(F,"	vec_erase(s, pos, oldlen);\n	vec_insert(s, pos, newstr, newlen);\n\n	return vec_at(s, pos_idx + newlen);\n}\n\n\nvoid string_find_replace_limited","	vec_erase(s, pos, newlen);\n	vec_insert(s, pos, newstr, newlen);\n\n	return vec_at(s, pos_idx + newlen);\n}\n\n\nvoid string_find_replace_limited")]),
("repl_ret",P,"bad",[(F,"	return vec_at(s, pos_idx + newlen);\n}\n\n\nvoid string_find_replace_limited","	return vec_at(s, pos_idx + oldlen);\n}\n\n\nvoid string_find_replace_limited")]),
("repl_empty",P,"bad",[(F,"	if (oldlen == 0) {\n		return vec_end(s);\n	}\n","")]),
("repl_loop",P,"bad",[(F,"string_find_replace_one_limited(s, oldstr, newstr, i, newlen);\n		i = next - (const char*)vec_begin(s);","string_find_replace_one_limited(s, oldstr, newstr, i, newlen);\n		i = next - (const char*)vec_begin(s) + 1;")]),
("repl_lim",P,"bad",[(F,"string_find_replace_one_limited(s, oldstr, newstr, i, newlen);\n		i = next","string_find_replace_one(s, oldstr, newstr, i);\n		i = next")]),
("charn_order",P,"bad",[(U,"for(; i < n && s[i] != '\\0'; ++i)","for(; s[i] != '\\0' && i < n; ++i)")]),
("view_set",P,"bad",[(W,"*sv = (stringview) {s, strlen(s)};","*sv = (stringview) {s, strlen(s) + 1};")]),
("view_alloc",P,"bad",[(W,"*sv = (stringview) {s->data, s->size};","*sv = (stringview) {s->data, s->_alloc};")]),
("cmp_long",P,"bad",[(W,"int len = (sv0->len > sv1->len) ? sv1->len : sv0->len;\n	int ret = num_compare_(sv0->len, sv1->len);\n	int maybe_ret = strncmp","int len = (sv0->len < sv1->len) ? sv1->len : sv0->len;\n	int ret = num_compare_(sv0->len, sv1->len);\n	int maybe_ret = strncmp")]),
("cmp_rtrim",P,"bad",[(W,"	for (; ret == 0 && i < short_sv->len; ++i) {\n		ret = s0[i] - s1[i];","	for (; ret == 0 && i < long_sv->len; ++i) {\n		ret = s0[i] - s1[i];")]),
("ok_strncpy",P,"ok",[(F,"	string_resize(dest, limit);\n	size_t i = 0;\n	for (; i < limit && src[i] != '\\0'; ++i) {\n		((char*)dest->data)[i] = src[i];\n	}\n	string_resize(dest, i);\n	_null_terminate_(dest);","	size_t i = strnlen(src, limit);\n	string_resize(dest, i);\n	memcpy(dest->data, src, i);")]),
("ok_strncpy2",P,"ok",[(F,"	size_t i = 0;\n	for (; i < limit && src[i] != '\\0'; ++i) {\n		((char*)dest->data)[i] = src[i];\n	}","	char* out = dest->data;\n	size_t i = 0;\n	while (i < limit) {\n		if (src[i] == '\\0') {\n			break;\n		}\n		out[i] = src[i];\n		i++;\n	}")]),
("ok_cat",P,"ok",[(F,"	size_t endidx = dest->size;\n	vec_resize(dest, dest->size + len);\n	void* end = vec_at(dest, endidx);\n	memcpy(end, src, len + 1);","	string_resize(dest, dest->size + len);\n	memcpy((char*)vec_end(dest) - len, src, len);")]),
("ok_push",P,"ok",[(F,"	char* back = vec_add_one(s);\n	*back = c;\n	back[1] = '\\0';","	vec_push_back(s, &c);\n	_null_terminate_(s);")]),
("ok_repl",P,"ok",[(F,"	/* unnecessary optimization */\n	if (newlen == oldlen) {\n		memcpy(pos, newstr, newlen);\n		return pos + newlen;\n	}\n\n	size_t pos_idx = vec_get_idx_(s, pos);","	size_t pos_idx = vec_get_idx_(s, pos);")]),
("ok_repl2",P,"ok",[(F,"		const char* next =\n		        string_find_replace_one_limited(s, oldstr, newstr, i, newlen);\n		i = next - (const char*)vec_begin(s);","		const char* next =\n		        string_find_replace_one_limited(s, oldstr, newstr, i, newlen);\n		const char* first = s->data;\n		i = (unsigned)(next - first);")]),
("ok_copy",P,"ok",[(F,"	vec_resize(dest, src->size);\n	memcpy(dest->data, src->data, src->size);\n	_null_terminate_(dest);","	vec_resize(dest, src->size);\n	memcpy(dest->data, src->data, src->size + 1);")]),
("ok_copy2",P,"ok",[(F,"	vec_resize(dest, src->size);\n	memcpy(dest->data, src->data, src->size);\n	_null_terminate_(dest);","	vec_clear(dest);\n	vec_append(dest, src->data, src->size);\n	_null_terminate_(dest);")]),
]
