S="lib/scalarfn.c"
P="C26"
LEFT="	if (n > sv.len) {\n		string_strncpy(ret->s, sv.data, sv.len);\n		return FQL_GOOD;\n	}\n\n	if (fn->char_as_byte) {\n		string_strncpy(ret->s, sv.data, n);"
LLOOP="	for (; char_count++ < n && idx < sv.len; idx += bytes) {\n		bytes = try_(_get_byte_count(sv.data[idx], sv.len - idx));\n		byte_count += bytes;\n	}\n\n	string_strncpy(ret->s, sv.data, byte_count);"
RLOOP="	for (; idx >= 0 && char_count < n; ++char_count) {\n		int bytes = try_(_get_rev_byte_count(&sv.data[idx], idx + 1));\n		byte_count += bytes;\n		idx -= bytes;\n	}"
SLOOP="	for (; char_count++ < start && idx < sv.len; idx += bytes) {\n		if (fn->char_as_byte) {"
SLOOP2="	for (char_count = 0; char_count++ < n && idx < sv.len; idx += bytes) {"
def one(name, exp, *edits): return (name, P, exp, [(S, a, b) for a, b in edits])
CASES=[
one("l_nolen","bad",(LLOOP,LLOOP.replace(" && idx < sv.len",""))),
one("l_le","bad",(LLOOP,LLOOP.replace("char_count++ < n","char_count++ <= n"))),
one("l_pre","bad",(LLOOP,LLOOP.replace("char_count++ < n","++char_count < n"))),
one("l_lim","bad",(LLOOP,LLOOP.replace("sv.len - idx)","sv.len)"))),
one("l_bytes","bad",(LLOOP,LLOOP.replace("byte_count += bytes","byte_count += 1"))),
one("l_charcount","bad",(LLOOP,LLOOP.replace("sv.data, byte_count","sv.data, n"))),
one("l_neg","bad",("	try_deref_(expression_get_int(&n, args[1], rg));\n\n	if (n < 0) {\n		fprintf(stderr, \"Invalid length value `%ld'\\n\", n);\n		return FQL_FAIL;\n	}\n\n"+LEFT,"	try_deref_(expression_get_int(&n, args[1], rg));\n\n"+LEFT)),
one("l_big","bad",(LEFT,LEFT.replace("sv.data, sv.len","sv.data, n"))),
one("l_half","bad",(LEFT,LEFT.replace("n > sv.len","n > sv.len / 2"))),
one("l_byteflag","bad",(LEFT,LEFT.replace("if (fn->char_as_byte)","if (!fn->char_as_byte)"))),
one("l_off","bad",(LLOOP,LLOOP.replace("sv.data, byte_count","sv.data + 1, byte_count"))),
one("r_gt0","bad",(RLOOP,RLOOP.replace("idx >= 0","idx > 0"))),
one("r_nolow","bad",(RLOOP,RLOOP.replace("idx >= 0 && ",""))),
one("r_lim","bad",(RLOOP,RLOOP.replace("idx + 1));","idx + 2));"))),
one("r_le","bad",(RLOOP,RLOOP.replace("char_count < n","char_count <= n"))),
one("r_one","bad",("&sv.data[idx + 1], byte_count","&sv.data[idx], byte_count")),
one("r_byte","bad",("int idx = sv.len - n;","int idx = sv.len - n - 1;")),
one("r_len","bad",("int idx = sv.len - n;\n		string_strncpy(ret->s, &sv.data[idx], n)","int idx = sv.len - n;\n		string_strncpy(ret->s, &sv.data[idx], sv.len)")),
one("s_nolen","bad",(SLOOP,SLOOP.replace(" && idx < sv.len",""))),
one("s_le","bad",(SLOOP,SLOOP.replace("++ < start","++ <= start"))),
one("s_byte","bad",("		if (fn->char_as_byte) {\n			bytes = 1;","		if (!fn->char_as_byte) {\n			bytes = 1;")),
one("s_noclamp","bad",("		if (n < 0) {\n			n = 0;\n		}\n","")),
one("s_clampone","bad",("		if (n < 0) {\n			n = 0;\n		}\n","		if (n < 1) {\n			n = 1;\n		}\n")),
one("s_dec","bad",("	--start;\n","")),
one("s_minus","bad",("		n += start;","		n -= start;")),
one("s_rest","bad",("	if (n > sv.len - idx) {","	if (n >= sv.len) {")),
one("s_rest2","bad",("&sv.data[idx], sv.len - idx","&sv.data[idx], sv.len")),
one("s_2le","bad",(SLOOP2,SLOOP2.replace("++ < n","++ <= n"))),
one("s_2cnt","bad",(SLOOP2,SLOOP2.replace("char_count = 0; ",";"))),
one("s_startidx","bad",("&sv.data[start_idx], byte_count","&sv.data[start], byte_count")),
one("s_neg","bad",("	try_deref_(expression_get_int(&n, args[2], rg));\n\n	if (n < 0) {","	try_deref_(expression_get_int(&n, args[2], rg));\n\n	if (n < -100) {")),
one("len_space","bad",("		++len;\n		if (!isspace(sv.data[idx])) {","		++len;\n		if (isspace(sv.data[idx])) {")),
one("len_byte","bad",("		bytes = 1;\n		if (!fn->char_as_byte) {","		bytes = 1;\n		if (fn->char_as_byte) {")),
one("len_before","bad",("		++len;\n		if (!isspace(sv.data[idx])) {\n			len_nospace = len;\n		}","		if (!isspace(sv.data[idx])) {\n			len_nospace = len;\n		}\n		++len;")),
one("len_le","bad",("	for (; idx < sv.len; idx += bytes) {\n		bytes = 1;\n		if (!fn","	for (; idx <= sv.len; idx += bytes) {\n		bytes = 1;\n		if (!fn")),
one("len_first","bad",("		if (!isspace(sv.data[idx])) {","		if (!isspace(sv.data[0])) {")),
one("c_neg","bad",("		if (len < 0) {\n			fprintf(stderr, \"Invalid length value `%ld'\\n\", len);\n			return FQL_FAIL;\n		}\n","")),
one("c_gt","ok",("} else if (sv.len >= len) {","} else if (len <= sv.len) {")),
one("c_over","bad",("} else if (sv.len >= len) {","} else if (sv.len + 1 >= len) {")),
one("bc_mask","bad",("(c & 0xE0) == 0xC0) {\n		n = 2","(c & 0xC0) == 0xC0) {\n		n = 2")),
one("bc_lim","bad",("	if (n > limit) {","	if (n > limit + 1) {")),
one("bc_lim2","bad",("	if (n > limit) {","	if (n >= limit) {")),
one("rev_order","bad",("-i < (int)limit && (s[i] & 0xC0) == 0x80; --i","(s[i] & 0xC0) == 0x80 && -i < (int)limit; --i")),
one("rev_lim","bad",("	if (-i >= (int)limit) {","	if (-i > (int)limit) {")),
one("rev_case","bad",("		valid = ((s[i] & 0xF0) == 0xE0);","		valid = ((s[i] & 0xF8) == 0xF0);")),
one("rev_ret","bad",("	return -i + 1;","	return -i;")),
one("rev_novalid","bad",("	if (!valid) {\n		fputs(\"invalid UTF-8 sequence\\n\", stderr);\n		return FQL_FAIL;\n	}\n","")),
one("rep_len","bad",("strncpy_(needle_cpy, needle.data, needle.len);","strncpy_(needle_cpy, needle.data, needle.len + 1);")),
one("rep_alloc","bad",("malloc_(needle.len + 1)","malloc_(needle.len)")),
one("rep_const","bad",("if (args[1]->expr == EXPR_CONST)","if (args[2]->expr == EXPR_CONST)")),
one("rep_hay","bad",("string_strncpy(ret->s, haystack.data, haystack.len);","string_strncpy(ret->s, haystack.data, needle.len);")),
one("rep_newlen","bad",("		                                   needle.data,\n		                                   replacement.data,\n		                                   replacement.len);","		                                   needle.data,\n		                                   replacement.data,\n		                                   needle.len);")),
one("ok_lwhile","ok",(LLOOP,"	while (char_count < n && idx < sv.len) {\n		bytes = try_(_get_byte_count(sv.data[idx], sv.len - idx));\n		idx += bytes;\n		byte_count += bytes;\n		++char_count;\n	}\n\n	string_strncpy(ret->s, sv.data, byte_count);")),
one("ok_lidx","ok",(LLOOP,LLOOP.replace("		byte_count += bytes;\n","").replace("sv.data, byte_count","sv.data, idx"))),
one("ok_ldown","ok",(LLOOP,"	for (long left = n; left > 0 && idx < sv.len; --left) {\n		bytes = try_(_get_byte_count(sv.data[idx], sv.len - idx));\n		byte_count += bytes;\n		idx += bytes;\n	}\n\n	string_strncpy(ret->s, sv.data, byte_count);")),
one("ok_lge","ok",(LEFT,LEFT.replace("n > sv.len","n >= sv.len"))),
one("ok_rend","ok",(RLOOP+"\n\n	string_strncpy(ret->s, &sv.data[idx + 1], byte_count);","	int end = sv.len;\n	for (; end > 0 && char_count < n; ++char_count) {\n		int bytes = try_(_get_rev_byte_count(&sv.data[end - 1], end));\n		end -= bytes;\n	}\n	(void)idx;\n	(void)byte_count;\n	string_strncpy(ret->s, sv.data + end, sv.len - end);")),
one("ok_rbytes","ok",(RLOOP+"\n\n	string_strncpy(ret->s, &sv.data[idx + 1], byte_count);",RLOOP+"\n\n	string_strncpy(ret->s, sv.data + (sv.len - byte_count), byte_count);")),
one("ok_sfirst","ok",("	--start;\n","	start = start - 1;\n")),
one("ok_sstart","ok",("	if (start < 0) {\n		n += start;\n		if (n < 0) {\n			n = 0;\n		}\n	}","	if (start < 0) {\n		n = n + start > 0 ? n + start : 0;\n	}")),
one("ok_scond","ok",("		if (fn->char_as_byte) {\n			bytes = 1;\n		} else {\n			bytes = try_(_get_byte_count(sv.data[idx], sv.len - idx));\n		}\n","		bytes = fn->char_as_byte ? 1 : try_(_get_byte_count(sv.data[idx], sv.len - idx));\n")),
one("ok_len","ok",("		++len;\n		if (!isspace(sv.data[idx])) {\n			len_nospace = len;\n		}","		if (isspace(sv.data[idx])) {\n			++len;\n			continue;\n		}\n		len_nospace = ++len;")),
one("ok_lenwhile","ok",("	for (; idx < sv.len; idx += bytes) {\n		bytes = 1;\n		if (!fn->char_as_byte) {\n			bytes = try_(_get_byte_count(sv.data[idx], sv.len - idx));\n		}\n		++len;\n		if (!isspace(sv.data[idx])) {\n			len_nospace = len;\n		}\n	}","	while (idx < sv.len) {\n		bool space = isspace(sv.data[idx]);\n		bytes = fn->char_as_byte ? 1 : try_(_get_byte_count(sv.data[idx], sv.len - idx));\n		idx += bytes;\n		++len;\n		if (!space) {\n			len_nospace = len;\n		}\n	}")),
one("ok_rev","ok",("	int i = 0;\n	for (; -i < (int)limit && (s[i] & 0xC0) == 0x80; --i)\n		;\n","	int i = 0;\n	while (-i < (int)limit && (s[i] & 0xC0) == 0x80) {\n		--i;\n	}\n")),
one("ok_rephelp","ok",("	char* needle_cpy = malloc_(needle.len + 1);\n	strncpy_(needle_cpy, needle.data, needle.len);","	char* needle_cpy = malloc_(needle.len + 1);\n	memcpy(needle_cpy, needle.data, needle.len);\n	needle_cpy[needle.len] = 0;")),
one("ok_helper","ok",("int fql_left(function* fn,","static int _chars(const char* s, unsigned len, long n, unsigned* out)\n{\n	unsigned idx = 0;\n	for (long i = 0; i < n && idx < len; ++i) {\n		idx += try_(_get_byte_count(s[idx], len - idx));\n	}\n	*out = idx;\n	return FQL_GOOD;\n}\n\nint fql_left(function* fn,"),("	unsigned idx = 0;\n	int bytes = 0;\n	unsigned char_count = 0;\n	unsigned byte_count = 0;\n"+LLOOP,"	unsigned byte_count = 0;\n	try_(_chars(sv.data, sv.len, n, &byte_count));\n	string_strncpy(ret->s, sv.data, byte_count);")),

]
U="util/stringy.c"
NB="	char* pos = strcasestr(begin, oldstr);"
NL="""		const char* next = string_find_replace_one_nocase_limited(s,
		                                                          oldstr,
		                                                          newstr,
		                                                          i,
		                                                          newlen);
		i = next - (const char*)vec_begin(s);
"""
TAIL="""	if (newlen == oldlen) {
		memcpy(pos, newstr, newlen);
		return pos + newlen;
	}

	vec_erase(s, pos, oldlen);
	vec_insert(s, pos, newstr, newlen);

	return vec_at(s, pos_idx + newlen);
}


#"""
def u(name, exp, *edits): return (name, P, exp, [(U, a, b) for a, b in edits])
def tail(a,b):
    src=open("/tmp/rw/util/stringy.c").read()
    i=src.index("const char* string_find_replace_one_nocase_limited(string* restrict s,\n                                                   const char* restrict oldstr,\n                                                   const char* restrict newstr,\n                                                   size_t begin_idx,\n                                                   unsigned newlen)")
    j=src.index("\n}\n",i)
    body=src[i:j]
    assert a in body
    return (body, body.replace(a,b))
CASES+=[
u("rp_from0","bad",tail("vec_at(s, begin_idx)","vec_at(s, 0)")),
u("rp_le","bad",tail("newlen == oldlen","newlen <= oldlen")),
u("rp_er","bad",tail("vec_erase(s, pos, oldlen)","vec_erase(s, pos, newlen)")),
u("rp_in","bad",tail("vec_insert(s, pos, newstr, newlen)","vec_insert(s, pos, newstr, strlen(newstr))")),
u("rp_stale","bad",tail("return vec_at(s, pos_idx + newlen);","return pos + newlen;")),
u("rp_after","bad",tail("return vec_at(s, pos_idx + newlen);","return vec_at(s, pos_idx);")),
u("rp_skip","bad",tail("return pos + newlen;","return pos + newlen + 1;")),
u("rp_empty","bad",tail("	if (oldlen == 0) {\n		return vec_end(s);\n	}\n","")),
u("rp_null","bad",tail("	if (pos == NULL) {\n		return vec_end(s);\n	}\n","")),
u("rp_begin","bad",tail("	if (pos == NULL) {\n		return vec_end(s);","	if (pos == NULL) {\n		return vec_begin(s);")),
u("rp_loop1","bad",("	while (i < s->size) {\n"+NL,"	if (i < s->size) {\n"+NL)),
u("rp_loopend","bad",("	while (i < s->size) {\n"+NL,"	while (i + newlen < s->size) {\n"+NL)),
u("rp_plus1","bad",(NL,NL.replace("vec_begin(s);","vec_begin(s) + 1;"))),
u("rp_start1","bad",("	unsigned i = 0;\n	while (i < s->size) {\n"+NL,"	unsigned i = newlen ? 0 : 1;\n	while (i < s->size) {\n"+NL)),
u("ok_rpfor","ok",("	unsigned i = 0;\n	while (i < s->size) {\n"+NL,"	for (unsigned i = 0; i < s->size;) {\n"+NL)),
u("ok_rpidx","ok",tail("return vec_at(s, pos_idx + newlen);","pos = vec_at(s, pos_idx);\n	return pos + newlen;")),
u("ok_rpneq","ok",tail("	if (newlen == oldlen) {\n		memcpy(pos, newstr, newlen);\n		return pos + newlen;\n	}\n\n	vec_erase(s, pos, oldlen);\n	vec_insert(s, pos, newstr, newlen);\n","	if (newlen != oldlen) {\n		vec_erase(s, pos, oldlen);\n		vec_insert(s, pos, newstr, newlen);\n	} else {\n		memcpy(pos, newstr, oldlen);\n	}\n")),
u("ok_rpat","ok",tail("	vec_erase(s, pos, oldlen);\n","	vec_erase(s, pos, oldlen);\n	pos = vec_at(s, pos_idx);\n")),
]
