M="lib/misc.h"; S="lib/scalarfn.c"; A="lib/aggregatefn.c"
P="C14"
import re
H=open("/repo/"+M).read()
ADD=H[H.index("#define overflow_safe_add_i"):H.index("#define overflow_safe_minus_i")]
SUB=H[H.index("#define overflow_safe_minus_i"):H.index("#define overflow_safe_multiply_i")]
MUL=H[H.index("#define overflow_safe_multiply_i"):H.index("#endif /* MISC_H */")]
def mac(n,body): return "#define overflow_safe_%s_i(n0_, n1_) ({ %s })\n\n"%(n,body)
F='fputs("arithmetic overflow detected\\n", stderr); return FQL_FAIL;'
OLDADD=mac("add","if (n0_ > 0 && n1_ > 0 && (unsigned long)n0_ + (unsigned long)n1_ > (unsigned long)LONG_MAX) { %s } else if (n0_ < 0 && n1_ < 0 && (unsigned long)-n0_ + (unsigned long)-n1_ > (unsigned long)LONG_MAX + 1) { %s } n0_ + n1_;"%(F,F))
CASES=[
("old_add",P,"bad",[(M,ADD,OLDADD)]),
("add_noguard",P,"bad",[(M,ADD,mac("add","n0_ + n1_;"))]),
("add_half",P,"bad",[(M,ADD,mac("add","if (n1_ > 0 && n0_ > LONG_MAX - n1_) { %s } n0_ + n1_;"%F))]),
("add_strict",P,"bad",[(M,ADD,mac("add","if (n1_ > 0 ? n0_ >= LONG_MAX - n1_ : n0_ < LONG_MIN - n1_) { %s } n0_ + n1_;"%F))]),
("sub_int",P,"bad",[(M,SUB,mac("minus","int result_ = 0; if (__builtin_sub_overflow(n0_, n1_, &result_)) { %s } (long)result_;"%F))]),
("sub_wrongguard",P,"bad",[(M,SUB,mac("minus","long result_ = 0; if (__builtin_add_overflow(n0_, n1_, &result_)) { %s } n0_ - n1_;"%F))]),
("mul_add",P,"bad",[(M,"__builtin_mul_overflow","__builtin_add_overflow")]),
("mul_ignored",P,"bad",[(M,MUL,mac("multiply","long result_ = 0; if (__builtin_mul_overflow(n0_, n1_, &result_)) { fputs(\"arithmetic overflow detected\\n\", stderr); } result_;"))]),
("div_min",P,"bad",[(S,"if (n0 == LONG_MIN && n1 == -1) {","if (n0 == LONG_MAX && n1 == -1) {")]),
("div_over",P,"bad",[(S,"if (n0 == LONG_MIN && n1 == -1) {","if (n1 == -1) {")]),
("div_swap",P,"bad",[(S,"ret->i = n0 / n1;","ret->i = n1 / n0;")]),
("mod_zero",P,"bad",[(S,"	if (n1 == 0) {\n		fputs(\"division by zero\\n\", stderr);\n		return FQL_FAIL;\n	}\n\n	/* the","	/* the")]),
("mod_neg",P,"bad",[(S,"(n1 == -1) ? 0 : n0 % n1","n0 % n1")]),
("mod_abs",P,"bad",[(S,"(n1 == -1) ? 0 : n0 % n1","(n1 < 0) ? 0 : n0 % n1")]),
("neg_off",P,"bad",[(S,"if (n0 == LONG_MIN) {","if (n0 == LONG_MIN + 1) {")]),
("neg_abs",P,"bad",[(S,"ret->i = -n0;","ret->i = (n0 < 0) ? -n0 : n0;")]),
("minus_swap",P,"bad",[(S,"ret->i = overflow_safe_minus_i(n0, n1);","ret->i = overflow_safe_minus_i(n1, n0);")]),
("plus_same",P,"bad",[(S,"	try_deref_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = overflow_safe_add_i","	try_deref_(expression_get_int(&n1, args[0], rg));\n\n	ret->i = overflow_safe_add_i")]),
("sum_plain",P,"bad",[(A,"	result->data.i = overflow_safe_add_i(result->data.i, num);","	result->data.i += num;")]),
("avg_plain",P,"bad",[(A,"	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);","	result->auxdata.i += num;")]),
("ok_guard",P,"ok",[(M,ADD,mac("add","if (n1_ > 0 ? n0_ > LONG_MAX - n1_ : n0_ < LONG_MIN - n1_) { %s } n0_ + n1_;"%F))]),
("ok_guard_sub",P,"ok",[(M,SUB,mac("minus","if ((n1_ < 0 && n0_ > LONG_MAX + n1_) || (n1_ > 0 && n0_ < LONG_MIN + n1_)) { %s } n0_ - n1_;"%F))]),
("ok_div",P,"ok",[(S,"	if (n0 == LONG_MIN && n1 == -1) {\n		fputs(\"arithmetic overflow detected\\n\", stderr);\n		return FQL_FAIL;\n	}","	if (n1 == -1) {\n		if (n0 == LONG_MIN) {\n			fputs(\"arithmetic overflow detected\\n\", stderr);\n			return FQL_FAIL;\n		}\n		ret->i = -n0;\n		return FQL_GOOD;\n	}")]),
("ok_neg",P,"ok",[(S,"	ret->i = -n0;","	long zero = 0;\n	ret->i = zero - n0;")]),
("ok_helper",P,"ok",[(S,"int fql_op_plus_i(","static int get2_(expression** args, long* a, long* b, node* rg)\n{\n	try_deref_(expression_get_int(a, args[0], rg));\n	return expression_get_int(b, args[1], rg);\n}\n\nint fql_op_plus_i("),(S,"	try_deref_(expression_get_int(&n0, args[0], rg));\n	try_deref_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = overflow_safe_add_i","	try_deref_(get2_(args, &n0, &n1, rg));\n\n	ret->i = overflow_safe_add_i")]),
("ok_mod",P,"ok",[(S,"(n1 == -1) ? 0 : n0 % n1","(n1 == 1 || n1 == -1) ? 0 : n0 % n1")]),
("ok_sum",P,"ok",[(A,"	result->data.i = overflow_safe_add_i(result->data.i, num);","	long total = overflow_safe_add_i(result->data.i, num);\n	result->data.i = total;")]),
]
