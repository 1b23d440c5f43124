import os
CSV=open("/verif/stubs/csv.h").read()
SHL='''#!/bin/bash
# run in the source tree after the build: exit 0 when the behaviour is right
# (libcsv is not installed: its declarations come with this folder, nothing of it is linked)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
r=$PWD
cd "$t"
ls "$r"/lib/*.c "$r"/util/*.c "$d"/demo.c | xargs -P 8 -n 6 gcc -c -w -g -D_GNU_SOURCE -I"$d" -I"$r/lib" -I"$r/lib/include" -I"$r/util" -I"$r" || exit 4
gcc *.o -o demo -Wl,--unresolved-symbols=ignore-all -lpcre2-8 -lpthread -lm || exit 4
mkdir work && cd work && timeout 100 ../demo
'''
PRE='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "fql.h"
#include "misc.h"
#include "logic.h"
#include "expression.h"
#include "field.h"
#include "query.h"
#include "process.h"
#include "function.h"
#include "variable.h"
#include "switchcase.h"
#include "fqlselect.h"
#include "table.h"
#include "schema.h"
#include "reader.h"
#include "util/util.h"
static int bad;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
static expression* mk(enum expr_type t) { expression* e = malloc(sizeof(*e)); return expression_construct(e, t, NULL, ""); }
static expression* mkint(long v) { expression* e = mk(EXPR_CONST); e->field_type = FIELD_INT; e->field.i = v; return e; }
static expression* mkflt(double v) { expression* e = mk(EXPR_CONST); e->field_type = FIELD_FLOAT; e->field.f = v; return e; }
static expression* mkstr(const char* s) { expression* e = mk(EXPR_CONST); e->field_type = FIELD_STRING; string_strcpy(&e->buf, s); e->field.s = &e->buf; return e; }
static expression* mknull(void) { return mk(EXPR_NULL); }
static logic* mklogic(enum comparison c, expression* a, expression* b) { logic* l = logic_construct(malloc(sizeof(*l))); l->comp_type = c; logic_add_expression(l, a); if (b) logic_add_expression(l, b); if (logic_assign_process(l, NULL) == FQL_FAIL) return NULL; return l; }
static int cmp(enum comparison c, expression* a, expression* b) { logic* l = mklogic(c, a, b); return l->logic__(l, NULL); }
'''
OB = """#include "order.h"
struct ent { size_t idx, offset; unsigned len; };
static order* mkorder(expression* a, expression* b) { order* o = order_construct(malloc(sizeof(*o))); order_add_expression(o, a); if (b) order_add_expression(o, b); fclose(fopen("in", "w")); CHECK(order_init_io(o, "in", NULL) == FQL_GOOD); return o; }
static void row(order* o, size_t n) { record r; memset(&r, 0, sizeof(r)); r.offset = n; node* rg = NULL; node_push(&rg, &r); CHECK(order_add_record(o, rg) == FQL_GOOD); node_free(&rg); }
static size_t at(order* o, int k) { return ((struct ent*)o->entries.data)[k].offset; }
"""
SELP = """#include "fqlplan.h"
#include "util/fifo.h"
enum proc_return fql_select(process*);
static int nsel; static int count(fqlselect* s, node* rg) { ++nsel; return 1; }
static process* mksel(fqlselect* s, int rows) { static struct fqlhandle* h; plan* pl = calloc(1, sizeof(*pl)); process* p = process_construct(malloc(sizeof(*p)), "SELECT", pl);
 p->proc_data = s; s->select__ = count; p->fifo_in[0] = fifo_construct(malloc(sizeof(fifo)), sizeof(node*), 100); p->fifo_out[0] = fifo_construct(malloc(sizeof(fifo)), sizeof(node*), 100);
 fifo_set_open(p->fifo_in[0], true); fifo_set_open(p->fifo_out[0], true);
 for (int i = 0; i < rows; ++i) { record* r = calloc(1, sizeof(*r)); node* rg = NULL; node_push(&rg, r); fifo_add(p->fifo_in[0], &rg); } return p; }
"""
PRC = """#include "fqlplan.h"
#include "util/fifo.h"
#include <pthread.h>
static struct { char pad[4096]; } hbuf;
static fifo* pipe_(void) { fifo* f = fifo_construct(malloc(sizeof(fifo)), sizeof(node*), 16); fifo_set_open(f, true); return f; }
static process* mkproc(plan* pl) { pl->fql_ref = (void*)&hbuf; process* p = process_construct(malloc(sizeof(*p)), "P", pl); p->fifo_in[0] = pipe_(); p->root_fifo = 0; return p; }
"""
FQ = '''#include "fqlhandle.h"
#include "scope.h"
#include "fqlset.h"
enum proc_return fql_set(process*);
'''
FZ = FQ+r'''
#include "schema.h"
#include <sys/stat.h>
static char dir[] = "/tmp/fqldemoXXXXXX";
static void mkf(const char* n) { char b[300]; snprintf(b, sizeof b, "%s/%s", dir, n); FILE* f = fopen(b, "w"); fputs("a\n1\n", f); fclose(f); }
static void rmf(const char* n) { char b[300]; snprintf(b, sizeof b, "%s/%s", dir, n); remove(b); }
static int find(const char* n, int strict) { string d, s; char b[300]; snprintf(b, sizeof b, "%s/%s", dir, n);
	string_construct(&d); string_construct(&s); string_strcpy(&s, b);
	return schema_fuzzy_resolve_file(&d, &s, strict); }
'''

INTO = FQ + '''
#include "operation.h"
#include "fqlselect.h"
#include <sys/stat.h>
int query_preflight(query*, bool); int query_prepare(query*);
static char ddir[] = "/tmp/fqldemoXXXXXX", tgt[300];
static query* mkinto(int over) { mkdtemp(ddir); snprintf(tgt, sizeof tgt, "%s/out.txt", ddir); FILE* f = fopen(tgt, "w"); fputs("precious\\n", f); fclose(f);
	fqlhandle* h = fql_new(); h->props.overwrite = over; query* q = query_construct(malloc(sizeof(query)), h, 0);
	q->op = fqlselect_construct(malloc(sizeof(fqlselect))); q->into_table_name = strdup(tgt); return q; }
static void done(void) { char b[32] = ""; FILE* f = fopen(tgt, "r"); if (f) { fgets(b, sizeof b, f); fclose(f); } CHECK(strcmp(b, "precious\\n") == 0); remove(tgt); remove(ddir); }
'''

FXW = '''#include "writer.h"
#include <sys/stat.h>
#include <unistd.h>
static char fdir[] = "/tmp/fqldemoXXXXXX";
'''
CXX=r"""#!/bin/bash
# run in the source tree after the build: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
inc="-I. -Ilib/antlr -Ilib/antlr/gen -Ilib -Ilib/include -Iutil -I/usr/include/antlr4-runtime"
cp "$d/demo.c" "$t/demo.cpp"
for f in "$t/demo.cpp" @SRC@; do g++ -std=c++17 -w -c $inc "$f" -o "$t/$(basename "$f").o" & done
wait
g++ "$t"/*.o -o "$t/demo" -Wl,--unresolved-symbols=ignore-all -lantlr4-runtime || exit 4
cd "$t" && timeout 60 ./demo
"""
def asan(**k):
    k=lib(**k)
    k["sh"]=SHL.replace("-c -w -g","-c -w -g -fsanitize=address").replace("gcc *.o","export ASAN_OPTIONS=detect_leaks=0\ngcc -fsanitize=address *.o")
    return k
def cxx(src,**k):
    k["sh"]=CXX.replace("@SRC@",src); k["files"]={}
    return k
FN='''#include "function.h"
static function* mkfn(void) { function* f = malloc(sizeof(*f)); memset(f, 0, sizeof(*f)); f->args = new_t_(vec, expression*); return f; }
static void fnarg(function* f, expression* e) { vec_push_back(f->args, &e); }
typedef int (*fnptr)(function*, union field*, node*);
int fql_op_unary_minus_i(function*, union field*, node*); int fql_op_minus_i(function*, union field*, node*);
static int un(fnptr p, long a, long* r) { function* f = mkfn(); fnarg(f, mkint(a)); union field u; memset(&u, 0, sizeof(u)); int x = p(f, &u, NULL); *r = u.i; return x; }
static int bi(fnptr p, long a, long b, long* r) { function* f = mkfn(); fnarg(f, mkint(a)); fnarg(f, mkint(b)); union field u; memset(&u, 0, sizeof(u)); int x = p(f, &u, NULL); *r = u.i; return x; }
'''
C16='''static logicgroup* pred(long a, long b) { logicgroup* g = logicgroup_construct(malloc(sizeof(*g)), LG_PREDICATE); logic* l = mklogic(COMP_EQ, mkint(a), mkint(b)); g->condition = l; return g; }
static logicgroup* mk2(enum logicgroup_type t, logicgroup* a, logicgroup* b) { logicgroup* g = logicgroup_construct(malloc(sizeof(*g)), t); g->items[0] = a; g->items[1] = b; return g; }
static switchcase* mkcase(void) { return switchcase_construct(malloc(sizeof(switchcase))); }
static logicgroup* when(switchcase* s, long a, long b, long v) { logicgroup* g = pred(a, b); switchcase_add_logicgroup(s, g); switchcase_add_value(s, mkint(v)); return g; }
'''
def lib(**k):
    k["demo"]=PRE+k["demo"]; k["files"]=dict(k.get("files",{}),**{"csv.h":CSV}); k["sh"]=SHL
    return k
SEEDS=[
lib(id="c15-le-float-strict",property="C15",needs="a <= comparison of equal floating values",breaks="<= on floating operands runs the implementation of <",
 edits=[("lib/logic.c","&fql_logic_le_f","&fql_logic_lt_f")],
 demo='''int main(){ CHECK(cmp(COMP_LE, mkflt(1.5), mkflt(1.5)) == 1); CHECK(cmp(COMP_LE, mkflt(1.5), mkint(1)) == 0); CHECK(cmp(COMP_LT, mkflt(1.5), mkflt(1.5)) == 0); return bad; }'''),
lib(id="c15-list-type-last",property="C15",needs="an IN list whose first element is floating and whose last is an integer, with an integer operand",breaks="the type of an IN comparison follows the last element only, so 1 IN (1.5, 2) compares truncated integers",
 edits=[("lib/inlist.c","type = field_determine_type(type, (*it)->field_type);","type = field_determine_type(left_side->field_type, (*it)->field_type);")],
 demo='''int main(){ logic* l = logic_construct(malloc(sizeof(*l))); l->comp_type = COMP_IN; l->expr[0] = mkint(1); l->in_data = inlist_construct(malloc(sizeof(inlist)));
 logic_add_expression(l, mkflt(1.5)); logic_add_expression(l, mkint(2)); CHECK(logic_assign_process(l, NULL) == FQL_GOOD); CHECK(l->logic__(l, NULL) == 0);
 l->expr[0] = mkint(2); CHECK(logic_assign_process(l, NULL) == FQL_GOOD); CHECK(l->logic__(l, NULL) == 1); return bad; }'''),
lib(id="c15-tail-sign",property="C15",needs="a <, > or ORDER BY comparison of two texts one of which is the other plus more than blanks",breaks="when one text continues the other, the shorter one compares as greater",
 edits=[("util/stringview.c","""	for (; ret == 0 && i < short_sv->len; ++i) {
		ret = tolower (s0[i]) - tolower (s1[i]);
	}

	/* All remaining bytes must be white space to stay truthy */
	const unsigned char *long_str = (unsigned char*) long_sv->data;

	for (; ret == 0 && i < long_sv->len; ++i) {
		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;""","""	for (; ret == 0 && i < short_sv->len; ++i) {
		ret = tolower (s0[i]) - tolower (s1[i]);
	}

	/* All remaining bytes must be white space to stay truthy */
	const unsigned char *long_str = (unsigned char*) long_sv->data;

	for (; ret == 0 && i < long_sv->len; ++i) {
		ret = (isspace(long_str[i])) ? 0 : long_sv->len - short_sv->len;""")],
 demo='''int main(){ CHECK(cmp(COMP_LT, mkstr("ab"), mkstr("abc")) == 1); CHECK(cmp(COMP_GT, mkstr("abc"), mkstr("AB")) == 1); CHECK(cmp(COMP_EQ, mkstr("ab"), mkstr("AB  ")) == 1); CHECK(cmp(COMP_LT, mkstr("b"), mkstr("abc")) == 0); return bad; }'''),
lib(id="c14-neg-guard-off",property="C14",needs="unary minus applied to the smallest 64-bit integer",breaks="-(-9223372036854775808) wraps around to itself",
 edits=[("lib/scalarfn.c","	if (n0 == LONG_MIN) {\n		fputs","	if (n0 == LONG_MIN + 1) {\n		fputs")],
 demo=FN+'''int main(){ long r = 0; CHECK(un(fql_op_unary_minus_i, LONG_MIN, &r) == FQL_FAIL); CHECK(un(fql_op_unary_minus_i, LONG_MIN + 1, &r) == FQL_GOOD && r == LONG_MAX); CHECK(un(fql_op_unary_minus_i, -7, &r) == FQL_GOOD && r == 7); return bad; }'''),
lib(id="c14-minus-as-plus",property="C14",needs="a subtraction whose right side is negative and whose sum overflows or not, e.g. 5 - LONG_MIN",breaks="subtraction adds the negated right side, whose negation wraps for the smallest integer",
 edits=[("lib/scalarfn.c","	ret->i = overflow_safe_minus_i(n0, n1);","	n1 = (long)(0UL - (unsigned long)n1);\n	ret->i = overflow_safe_add_i(n0, n1);")],
 demo=FN+'''int main(){ long r = 0; CHECK(bi(fql_op_minus_i, -1, LONG_MIN, &r) == FQL_GOOD && r == LONG_MAX); CHECK(bi(fql_op_minus_i, 5, LONG_MIN, &r) == FQL_FAIL); CHECK(bi(fql_op_minus_i, 5, 7, &r) == FQL_GOOD && r == -2); return bad; }'''),
lib(id="c14-avg-total-wraps",property="C14",needs="AVG over integers whose running total leaves the 64-bit range",breaks="the running total of AVG wraps around instead of failing the query",
 edits=[("lib/aggregatefn.c","	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);","	result->auxdata.i = (long)((unsigned long)result->auxdata.i + (unsigned long)num);")],
 demo='''#include "group.h"
#include "aggregate.h"
int fql_avg_i(aggregate* agg, group* group, struct aggresult* result, node* rg);
int main(){ aggregate a; memset(&a, 0, sizeof(a)); a.args = new_t_(vec, expression*); struct aggresult r; memset(&r, 0, sizeof(r)); expression* e = mkint(LONG_MAX); vec_push_back(a.args, &e);
 CHECK(fql_avg_i(&a, NULL, &r, NULL) == FQL_GOOD && r.data.i == LONG_MAX); ++r.qty; CHECK(fql_avg_i(&a, NULL, &r, NULL) == FQL_FAIL); return bad; }'''),
lib(id="c06-const-conversion",property="C06",needs="text that is not a number used where an integer is wanted",breaks="a constant that cannot be converted is used as zero instead of failing the query",
 edits=[("lib/expression.c","	case EXPR_CONST:\n		try_(field_to_int(ret, &self->field, &self->field_type));","	case EXPR_CONST:\n		field_to_int(ret, &self->field, &self->field_type);")],
 demo='int main(){ long v = 7; CHECK(expression_get_int(&v, mkstr("12x"), NULL) == FQL_FAIL); CHECK(expression_get_int(&v, mkstr("12"), NULL) == FQL_GOOD && v == 12); return bad; }'),
lib(id="c06-left-of-and",property="C06",needs="a conjunction whose first part fails while its second part can be evaluated",breaks="the failure of the first part counts as true",
 edits=[("lib/logic.c","	ret = try_(logicgroup_eval(self->items[0], rg, skip));","	ret = logicgroup_eval(self->items[0], rg, skip);")],
 demo="""static logicgroup* pred(logic* l) { logicgroup* g = malloc(sizeof(*g)); logicgroup_construct(g, LG_PREDICATE); g->condition = l; return g; }
int main(){ logicgroup g; logicgroup_construct(&g, LG_AND); g.items[0] = pred(mklogic(COMP_EQ, mkint(1), mkstr("1x"))); g.items[1] = pred(mklogic(COMP_EQ, mkint(2), mkint(2)));
 CHECK(logicgroup_eval(&g, NULL, NULL) == FQL_FAIL); g.items[0] = pred(mklogic(COMP_EQ, mkint(1), mkint(1))); CHECK(logicgroup_eval(&g, NULL, NULL) == 1); return bad; }"""),
lib(id="c06-literal-too-big",property="C06",needs="an integer literal outside the 64-bit range in a statement",breaks="the literal silently becomes the largest integer",
 edits=[("lib/query.c","		fail_if_(str2long(&expr->field.i, s));","		str2long(&expr->field.i, s);")],
 demo="""#include "fqlhandle.h"
int main(){ fqlhandle* h = fql_new(); query* q = query_new(h, 0); q->mode = MODE_SELECTLIST; q->op = fqlselect_construct(malloc(sizeof(fqlselect))); CHECK(query_add_constant(q, "99999999999999999999", 20) == FQL_FAIL); return bad; }"""),

lib(id="c16-else-without-else",property="C16",needs="a CASE without ELSE none of whose tests is true",breaks="the last WHEN's value is given instead of NULL",
 edits=[("lib/switchcase.c","if (self->values.size > self->tests.size) {","if (self->values.size >= self->tests.size) {")],
 demo=C16+"""int main(){ switchcase* s = mkcase(); when(s, 2, 1, 10); when(s, 3, 1, 20); long v = 7; CHECK(switchcase_eval_to_int(s, &v, NULL) == FQL_NULL);
 expression* e = mkint(30); switchcase_add_value(s, e); v = 7; CHECK(switchcase_eval_to_int(s, &v, NULL) == FQL_GOOD && v == 30);
 s = mkcase(); when(s, 2, 1, 10); when(s, 1, 1, 20); v = 7; CHECK(switchcase_eval_to_int(s, &v, NULL) == FQL_GOOD && v == 20); return bad; }"""),
lib(id="c16-case-test-fails",property="C16",needs="a CASE whose first test fails to evaluate and whose second is true",breaks="the failure is ignored and the second branch is taken",
 edits=[("lib/switchcase.c","		case FQL_FAIL:\n			return FQL_FAIL;\n		default:;","		case FQL_FAIL:\n		default:;")],
 demo=C16+"""static int fails(logic* l, node* n) { (void)l; (void)n; return FQL_FAIL; }
int main(){ switchcase* s = mkcase(); when(s, 1, 1, 10)->condition->logic__ = fails; when(s, 1, 1, 20); long v = 7; CHECK(switchcase_eval_to_int(s, &v, NULL) == FQL_FAIL); return bad; }"""),
lib(id="c16-or-needs-one",property="C16",needs="a join condition a OR b whose second part is the equality considered for a hash join",breaks="a part of an OR counts as one that must hold, so the hash join drops rows that match only the other part",
 edits=[("lib/logic.c","(self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {\n		return ret;","(self->type == LG_AND && !ret) || (self->type == LG_OR && !ret)) {\n		return ret;")],
 demo=C16+"""int main(){ logicgroup* o = mk2(LG_OR, pred(1, 1), pred(1, 2)); CHECK(logic_can_be_false(o, o->items[0]->condition)); CHECK(logic_can_be_false(o, o->items[1]->condition));
 logicgroup* a = mk2(LG_AND, pred(1, 1), pred(1, 2)); CHECK(!logic_can_be_false(a, a->items[0]->condition)); CHECK(!logic_can_be_false(a, a->items[1]->condition)); return bad; }"""),
lib(id="c16-and-or-decide",property="C16",needs="an AND whose first part is true and whose second is false, and an OR whose first part is false and second true",breaks="the first part decides when it must not",
 edits=[("lib/logic.c","	ret = try_(logicgroup_eval(self->items[1], rg, skip));","	ret = (ret) ? ret : try_(logicgroup_eval(self->items[1], rg, skip));")],
 demo=C16+"""int main(){ CHECK(logicgroup_eval(mk2(LG_AND, pred(1, 1), pred(1, 2)), NULL, NULL) == 0); CHECK(logicgroup_eval(mk2(LG_AND, pred(1, 1), pred(2, 2)), NULL, NULL) == 1); CHECK(logicgroup_eval(mk2(LG_OR, pred(1, 3), pred(2, 2)), NULL, NULL) == 1); return bad; }"""),

lib(id="c13-bit-or-null",property="C13",needs="a bitwise OR whose right operand is NULL",breaks="the missing operand counts as zero",
 edits=[("lib/scalarfn.c","	try_deref_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = n0 | n1;","	try_(expression_get_int(&n1, args[1], rg));\n\n	ret->i = n0 | n1;")],
 demo=FN+"""int fql_op_bit_or(function*, union field*, node*);
int main(){ long r = 0; CHECK(bi(fql_op_bit_or, 5, 2, &r) == FQL_GOOD && r == 7); function* f = mkfn(); fnarg(f, mkint(5)); fnarg(f, mknull()); union field u; memset(&u, 0, sizeof(u)); CHECK(fql_op_bit_or(f, &u, NULL) == FQL_NULL);
 f = mkfn(); fnarg(f, mknull()); fnarg(f, mkint(5)); CHECK(fql_op_bit_or(f, &u, NULL) == FQL_NULL); return bad; }"""),
lib(id="c13-isnull-empty",property="C13",needs="ISNULL of an empty, but present, text",breaks="the empty text counts as NULL and is replaced",
 edits=[("lib/scalarfn.c","	if (try_(expression_get_stringview(&sv, *expr, rg)) == FQL_GOOD) {","	if (try_(expression_get_stringview(&sv, *expr, rg)) == FQL_GOOD && sv.len) {")],
 demo=FN+"""int fql_isnull_s(function*, union field*, node*);
int main(){ function* f = mkfn(); fnarg(f, mkstr("")); fnarg(f, mkstr("x")); union field u; u.s = new_(string); CHECK(fql_isnull_s(f, &u, NULL) == FQL_GOOD && u.s->size == 0);
 f = mkfn(); fnarg(f, mknull()); fnarg(f, mkstr("x")); CHECK(fql_isnull_s(f, &u, NULL) == FQL_GOOD && u.s->size == 1); return bad; }"""),
lib(id="c13-field-lacks",property="C13",needs="a numeric column read from a row with exactly as many fields as the column's position",breaks="a field beyond the end of the row is read",
 edits=[("lib/expression.c","""		if (rec == NULL || rec->fields.size <= src_expr->index) {
			string_clear(&self->buf);
			*ret = 0;
			return FQL_NULL;
		}
		stringview* sv = vec_at(&rec->fields, src_expr->index);
		string_copy_from_stringview(&self->buf, sv);
		fail_if_(str2long(ret""","""		if (rec == NULL || rec->fields.size < src_expr->index) {
			string_clear(&self->buf);
			*ret = 0;
			return FQL_NULL;
		}
		stringview* sv = vec_at(&rec->fields, src_expr->index);
		string_copy_from_stringview(&self->buf, sv);
		fail_if_(str2long(ret""")],
 demo="""int main(){ record rec; memset(&rec, 0, sizeof(rec)); vec_construct_(&rec.fields, stringview); stringview a = {"7", 1}, b = {"8", 1}; vec_push_back(&rec.fields, &a); vec_push_back(&rec.fields, &b); vec_pop_back(&rec.fields);
 node* rg = NULL; node_push(&rg, &rec); expression* src = expression_construct(malloc(sizeof(*src)), EXPR_COLUMN_NAME, "a", ""); src->index = 1; src->src_idx = 0; expression* e = expression_construct(malloc(sizeof(*e)), EXPR_COLUMN_NAME, "b", ""); e->data_source = src; e->subquery_src_idx = -1; long n = 3;
 CHECK(expression_get_int(&n, e, rg) == FQL_NULL); src->index = 0; CHECK(expression_get_int(&n, e, rg) == FQL_GOOD && n == 7); return bad; }"""),
lib(id="c24-int-difference",property="C24",needs="two integer sort keys further apart than an int can hold",breaks="the difference of the keys is cut off and the rows are sorted the wrong way round",
 edits=[("lib/order.c","""			long* num1 = flex_at(&orderby->order_data, idx1);
			ret = num_compare_(*num0, *num1);""","""			long* num1 = flex_at(&orderby->order_data, idx1);
			ret = *num0 - *num1;""")],
 demo=OB+"""int main(){ expression* a = mkint(0); order* o = mkorder(a, NULL); a->field.i = 3000000000; row(o, 1); a->field.i = 0; row(o, 2); a->field.i = -3000000000; row(o, 3);
 CHECK(order_sort(o) == FQL_GOOD); CHECK(at(o, 0) == 3 && at(o, 1) == 2 && at(o, 2) == 1); return bad; }"""),
lib(id="c24-second-key-stuck",property="C24",needs="two sort columns, and rows that are equal in the first",breaks="the second row's first key is compared again instead of its second",
 edits=[("lib/order.c","		++idx0;\n		++idx1;\n","		++idx0;\n")],
 demo=OB+"""int main(){ expression *a = mkint(0), *b = mkint(0); b->descending = true; order* o = mkorder(a, b); a->field.i = 0; b->field.i = 1; row(o, 1); b->field.i = 3; row(o, 2); b->field.i = 9; row(o, 3); b->field.i = 7; row(o, 4);
 CHECK(order_sort(o) == FQL_GOOD); CHECK(at(o, 0) == 3 && at(o, 1) == 4 && at(o, 2) == 2 && at(o, 3) == 1); return bad; }"""),
lib(id="c24-descending-once",property="C24",needs="a descending column that comes after another one",breaks="only the first column's direction counts",
 edits=[("lib/order.c","		if ((*it)->descending)\n","		if ((*it)->descending && it == vec_begin(&orderby->expressions))\n")],
 demo=OB+"""int main(){ expression *a = mkint(0), *b = mkflt(0); b->descending = true; order* o = mkorder(a, b); a->field.i = 5; b->field.f = 1.5; row(o, 1); b->field.f = 3; row(o, 2); b->field.f = 9; row(o, 3);
 CHECK(order_sort(o) == FQL_GOOD); CHECK(at(o, 0) == 3 && at(o, 1) == 2 && at(o, 2) == 1); return bad; }"""),
lib(id="c28-union-limit",property="C28",needs="a union whose parts have different TOP clauses",breaks="a later part of the union is limited by the first part's TOP",
 edits=[("lib/fqlprocesses.c","		    || select->rows_affected >= current_select->top_count) {\n","		    || select->rows_affected >= select->top_count) {\n")],
 demo=SELP+"""int main(){ fqlselect *a = fqlselect_construct(malloc(sizeof(*a))), *b = fqlselect_construct(malloc(sizeof(*b))); a->current_select = b; b->top_count = 2; process* p = mksel(a, 7);
 CHECK(fql_select(p) != PROC_RETURN_FAIL); CHECK(nsel == 2 && a->rows_affected == 2 && p->rows_affected == 2); return bad; }"""),
lib(id="c28-scalar-not-counted",property="C28",needs="a SELECT whose list is constant",breaks="its row is selected but not counted",
 edits=[("lib/fqlprocesses.c","		++proc->rows_affected;\n		++select->rows_affected;\n\n		if (out) {","		if (!current_select->is_const)\n			++proc->rows_affected;\n		++select->rows_affected;\n\n		if (out) {")],
 demo=SELP+"""int main(){ fqlselect *a = fqlselect_construct(malloc(sizeof(*a))); a->is_const = true; process* p = mksel(a, 1);
 CHECK(fql_select(p) != PROC_RETURN_FAIL); CHECK(nsel == 1 && a->rows_affected == 1 && p->rows_affected == 1); return bad; }"""),
lib(id="c28-sorted-one-more",property="C28",needs="TOP together with ORDER BY and more rows than TOP",breaks="one row too many is put out",
 edits=[("lib/order.c","proc->rows_affected < self->top_count;","proc->rows_affected <= self->top_count;")],
 demo=OB+"""int _order_select(order*, process*);
int main(){ expression* a = mkint(0); order* o = mkorder(a, NULL); FILE* f = fopen("in", "w"); fputs("abcd", f); fclose(f); process* p = calloc(1, sizeof(*p)); o->out_file = fopen("out", "w");
 for (int i = 3; i >= 0; --i) { a->field.i = i; record r; memset(&r, 0, sizeof(r)); r.offset = i; r.select_len = 1; node* rg = NULL; node_push(&rg, &r); order_add_record(o, rg); node_free(&rg); }
 o->top_count = 2; CHECK(order_sort(o) == FQL_GOOD); CHECK(_order_select(o, p) == 0); fflush(o->out_file); CHECK(p->rows_affected == 2);
 char buf[9] = ""; f = fopen("out", "r"); size_t n = fread(buf, 1, 8, f); CHECK(n == 2 && memcmp(buf, "ab", 2) == 0); return bad; }"""),
lib(id="c05-woken-early",property="C05",needs="a stage that another one waits for, and the waiting thread looking at it right after the wake-up",breaks="the waiting stage is woken before the finished one is marked, goes back to sleep and is never woken again",
 edits=[("lib/process.c","	self->is_enabled = false;\n	fifo_set_open(self->fifo_in[0], false);\n","	fifo_set_open(self->fifo_in[0], false);\n"),
 ("lib/process.c","		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);\n	}\n","		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);\n	}\n	self->is_enabled = false;\n")],
 demo=PRC+"""static process* watched; static int seen = -1; int pthread_cond_signal(pthread_cond_t* c) { if (watched) seen = watched->is_enabled; return 0; }
int main(){ plan* pl = calloc(1, sizeof(*pl)); process *a = mkproc(pl), *b = mkproc(pl); process_add_to_wait_list(a, b); watched = b; process_disable(b); CHECK(seen == 0); CHECK(!b->is_enabled); return bad; }"""),
lib(id="c05-waiting-left-behind",property="C05",needs="a stage that waits for another one which finishes in the first pass",breaks="the pass counts as the last one and the waiting stage never runs",
 edits=[("lib/process.c","				++run_count;\n				continue;","				continue;")],
 demo=PRC+"""static int ran; static enum proc_return fin(process* p) { ++ran; return PROC_RETURN_COMPLETE; }
int main(){ plan* pl = calloc(1, sizeof(*pl)); process *a = mkproc(pl), *b = mkproc(pl); a->wait_for_in0 = b->wait_for_in0 = false; a->action__ = b->action__ = fin; process_add_to_wait_list(a, b);
 vec v; vec_construct_(&v, process*); vec_push_back(&v, &a); vec_push_back(&v, &b); pl->execution_vector = &v; CHECK(process_exec_plan(pl) == 0); CHECK(ran == 2); CHECK(!a->is_enabled && !b->is_enabled); return bad; }"""),
lib(id="c05-killed-pipe-reopened",property="C05",needs="a plan with a stage whose second input is unused, run twice",breaks="the unused input is open in the second run",
 edits=[("lib/process.c","""	if (self->killed_pipe != PROCESS_NO_PIPE_INDEX) {
		self->fifo_in[self->killed_pipe]->is_open = false;
	}

	if (!self->in0""","""	if (!self->in0"""),("lib/process.c","""	self->rows_affected = 0;
	fifo_reset(self->fifo_in[0]);""","""	if (self->killed_pipe != PROCESS_NO_PIPE_INDEX) {
		self->fifo_in[self->killed_pipe]->is_open = false;
	}
	self->rows_affected = 0;
	fifo_reset(self->fifo_in[0]);""")],
 demo=PRC+"""int main(){ plan* pl = calloc(1, sizeof(*pl)); process *a = mkproc(pl); a->fifo_in[1] = pipe_(); a->fifo_in[1]->is_open = false; a->killed_pipe = 1; a->is_enabled = false; a->rows_affected = 9;
 process_enable(a); CHECK(a->is_enabled && a->rows_affected == 0); CHECK(a->fifo_in[0]->is_open); CHECK(!a->fifo_in[1]->is_open); return bad; }"""),
lib(id="c27-outer-hit-wins",property="C27",needs="a variable of the same name in an inner and an outer scope, used in the inner one",breaks="the name means the outermost variable",
 edits=[("lib/scope.c","	for (; it && idx == NULL; it = it->parent_scope) {\n		idx = hashmap_get(&it->variable_map, varname);\n	}","	for (; it; it = it->parent_scope) {\n		int* found = hashmap_get(&it->variable_map, varname);\n		if (found != NULL) {\n			idx = found;\n		}\n	}")],
 demo=FQ+"""int main(){ fqlhandle* f = fql_new(); int a = libfql_declare_variable(f, "@x"), b = libfql_declare_variable(f, "@y"); scope* in = scope_construct(malloc(sizeof(scope))); in->parent_scope = f->_scope; f->_scope = in;
 CHECK(scope_get_var_index(in, "@x") == a); int c = libfql_declare_variable(f, "@x"); CHECK(c != a && c != b && c >= 0); CHECK(scope_get_var_index(in, "@x") == c); CHECK(scope_get_var_index(in, "@Y") == b); CHECK(scope_get_var_index(in->parent_scope, "@x") == a); CHECK(scope_get_var_index(in, "@z") == FQL_FAIL); return bad; }"""),
lib(id="c27-else-sees-if",property="C27",needs="IF with a block that declares a variable, used again in the ELSE part",breaks="the variable of the IF part is visible in the ELSE part",
 edits=[("lib/query.c","branch->else_scope->parent_scope = branch->scope->parent_scope;","branch->else_scope->parent_scope = branch->scope;")],
 demo=FQ+"""int main(){ fqlhandle* f = fql_new(); query *q = query_new(f, 0), *q2 = query_new(f, 0); int g = libfql_declare_variable(f, "@g"); CHECK(query_init_op(q, NULL, FQL_IF) == FQL_GOOD); CHECK(libfql_declare_variable(f, "@x") >= 0);
 CHECK(scope_get_var_index(f->_scope, "@g") == g); node* st = NULL; node_push(&st, q); node_push(&st, q2); f->branch_state = 2; CHECK(query_init_op(q2, st, FQL_SET) == FQL_GOOD); CHECK(scope_get_var_index(f->_scope, "@g") == g); CHECK(scope_get_var_index(f->_scope, "@x") == FQL_FAIL); return bad; }"""),
lib(id="c27-bit-negative",property="C27",needs="a negative number assigned to a BIT variable",breaks="the BIT variable holds the negative number instead of 1",
 edits=[("lib/fqlprocesses.c","		if (var->value.i) {\n","		if (var->value.i > 1) {\n")],
 demo=FQ+"""int main(){ fqlhandle* f = fql_new(); int a = libfql_declare_variable(f, "@x"); CHECK(libfql_set_variable_type(f, "bit") == FQL_GOOD); variable* v = vec_at(f->variables, a); process p; memset(&p, 0, sizeof(p)); p.fql_ref = f; fqlset s; memset(&s, 0, sizeof(s)); s.variable_idx = a; p.proc_data = &s;
 long in[] = {0, 1, 2, 77, -1, -5}; for (int i = 0; i < 6; ++i) { s.init_expr = mkint(in[i]); CHECK(fql_set(&p) == 0); CHECK(v->value.i == (in[i] != 0)); CHECK(!v->is_null); } return bad; }"""),

lib(id="c21-std-refusal", property="C21", needs="a quoting standard set, then a name that is no standard", breaks="the refused name resets the output quoting to the default",
    edits=[("lib/libfql.c", """		        std);
		return FQL_FAIL;
	}
	return FQL_GOOD;
}

void fql_set_in_delim""", """		        std);
		fql->props.out_std = QUOTE_RFC4180;
		return FQL_FAIL;
	}
	return FQL_GOOD;
}

void fql_set_in_delim""")],
    demo=FQ+"""
int main(void) {
	struct fqlhandle* h = fql_new();
	CHECK(fql_set_out_std(h, "all") == FQL_GOOD);
	CHECK(fql_set_out_std(h, "bogus") == FQL_FAIL);
	CHECK(h->props.out_std == QUOTE_ALL);
	CHECK(fql_set_out_std(h, "none") == FQL_GOOD);
	CHECK(h->props.out_std == QUOTE_NONE);
	return bad;
}
"""),
lib(id="c21-crlf-off", property="C21", needs="a record terminator of two characters set before CRLF output is turned off", breaks="turning CRLF output off leaves the second character of the old record terminator in place",
    edits=[("lib/libfql.c", """		fql->props.rec_terminator[0] = '\\n';
		fql->props.rec_terminator[1] = '\\0';
	}""", """		fql->props.rec_terminator[0] = '\\n';
	}""")],
    demo=FQ+"""
int main(void) {
	struct fqlhandle* h = fql_new();
	fql_set_crlf_output(h, 0);
	CHECK(strcmp(h->props.rec_terminator, "\\n") == 0);
	fql_set_crlf_output(h, 1);
	CHECK(strcmp(h->props.rec_terminator, "\\r\\n") == 0);
	fql_set_crlf_output(h, 0);
	CHECK(strcmp(h->props.rec_terminator, "\\n") == 0);
	return bad;
}
"""),
lib(id="c21-factor-one", property="C21", needs="a pipe factor of 0 or 1", breaks="a pipe factor just below the minimum is not raised to it",
    edits=[("lib/libfql.c", "	if (applied_pipe_factor < PIPE_FACTOR_MIN) {", "	if (applied_pipe_factor < 0) {")],
    demo=FQ+"""
int main(void) {
	struct fqlhandle* h = fql_new();
	fql_set_pipe_factor(h, -4);
	CHECK(h->props.pipe_factor == 2);
	fql_set_pipe_factor(h, 1);
	CHECK(h->props.pipe_factor == 2);
	fql_set_pipe_factor(h, 100);
	CHECK(h->props.pipe_factor == 100);
	return bad;
}
"""),
lib(id="c25-noext-first", property="C25", needs="two files that differ only in their extension, named without it", breaks="the first of two files that match without extension is taken instead of reporting the name as ambiguous",
    edits=[("lib/schema.c", """		if (string_eq(file_noext.data, base)) {
			++matches;
			string_sprintf(dest, "%s/%s", dir, node->data);
""", """		if (string_eq(file_noext.data, base)) {
			++matches;
			string_sprintf(dest, "%s/%s", dir, node->data);
			break;
""")],
    demo=FZ+"""
int main(void) {
	mkdtemp(dir);
	mkf("foo.csv"); mkf("foo.txt"); mkf("bar.csv");
	CHECK(find("foo", 0) == FUZZY_AMBIGUOUS);
	CHECK(find("bar", 0) == FUZZY_SUCCESS);
	CHECK(find("foo.txt", 0) == FUZZY_SUCCESS);
	rmf("foo.csv"); rmf("foo.txt"); rmf("bar.csv"); rmdir(dir);
	return bad;
}
"""),
lib(id="c25-case-pair", property="C25", needs="exactly two files whose names differ only in case, named in a third spelling", breaks="two files that match ignoring case are not reported as ambiguous",
    edits=[("lib/schema.c", """			string_sprintf(dest, "%s/%s", dir, node->data);
		}
	}

	if (matches) {
		ret = (matches > 1) ? FUZZY_AMBIGUOUS : FUZZY_SUCCESS;
		goto fuzzy_file_match_return;
	}

	/* match file without extension */
""", """			string_sprintf(dest, "%s/%s", dir, node->data);
		}
	}

	if (matches) {
		ret = (matches > 2) ? FUZZY_AMBIGUOUS : FUZZY_SUCCESS;
		goto fuzzy_file_match_return;
	}

	/* match file without extension */
""")],
    demo=FZ+"""
int main(void) {
	mkdtemp(dir);
	mkf("foo"); mkf("FOO"); mkf("bar");
	CHECK(find("Foo", 0) == FUZZY_AMBIGUOUS);
	CHECK(find("BAR", 0) == FUZZY_SUCCESS);
	CHECK(find("FOO", 0) == FUZZY_SUCCESS);
	rmf("foo"); rmf("FOO"); rmf("bar"); rmdir(dir);
	return bad;
}
"""),
lib(id="c25-strict-one", property="C25", needs="strict mode with a file that only matches without its extension", breaks="strict mode takes a file whose name does not match exactly",
    edits=[("lib/schema.c", """	if (strictness) {
		goto fuzzy_file_match_return;
	}
""", """	if (strictness > 1) {
		goto fuzzy_file_match_return;
	}
""")],
    demo=FZ+"""
int main(void) {
	mkdtemp(dir);
	mkf("foo.csv");
	CHECK(find("foo", 1) == FUZZY_NOTFOUND);
	CHECK(find("foo", 0) == FUZZY_SUCCESS);
	CHECK(find("foo.csv", 1) == FUZZY_SUCCESS);
	rmf("foo.csv"); rmdir(dir);
	return bad;
}
"""),

lib(id="c09-isnull-float",property="C09",needs="ISNULL over a floating point column whose value is not whole",breaks="ISNULL of a float runs the integer implementation",
 edits=[("lib/function.c","			self->call__ = &fql_isnull_f;","			self->call__ = &fql_isnull_i;")],
 demo=r"""int main(void) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), SCALAR_ISNULL, &t, 0);
 expression* a = mkflt(2.75); expression* b = mkflt(1.5); vec_push_back(f->args, &a); vec_push_back(f->args, &b);
 CHECK(function_validate(f, mk(EXPR_FUNCTION)) == FQL_GOOD); union field r; r.f = 0; CHECK(f->call__(f, &r, NULL) == FQL_GOOD); CHECK(r.f == 2.75); return bad; }"""),
lib(id="c09-cast-length",property="C09",needs="CAST(x AS VARCHAR(n)) with a value longer than n",breaks="the length given to VARCHAR is ignored",
 edits=[("lib/query.c","		if (cast_expr->field.fn->args->size == 2) {\n			cast_expr->field.fn->call__ = &fql_left;","		if (cast_expr->field.fn->args->size > 2) {\n			cast_expr->field.fn->call__ = &fql_left;")],
 demo=r"""int main(void) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), SCALAR_CAST, &t, 0);
 expression* a = mkstr("abcdef"); expression* b = mkint(3); vec_push_back(f->args, &a); vec_push_back(f->args, &b);
 query* q = calloc(1, sizeof(*q)); expression* c = expression_construct(malloc(sizeof(*c)), EXPR_FUNCTION, f, ""); node_push(&q->function_stack, c);
 CHECK(query_apply_data_type(q, "varchar") == FQL_GOOD); string buf; string_construct(&buf); union field r; r.s = &buf;
 CHECK(f->call__(f, &r, NULL) == FQL_GOOD); CHECK(strcmp(buf.data, "abc") == 0); return bad; }"""),
lib(id="c09-not-parity",property="C09",needs="a predicate behind two NOTs",breaks="NOT NOT negates the predicate",
 edits=[("lib/query.c","	if (negation % 2) {","	if (negation) {")],
 demo=r"""int main(void) { for (unsigned n = 0; n < 5; ++n) { query* q = calloc(1, sizeof(*q)); logicgroup* lg = logicgroup_construct(malloc(sizeof(*lg)), LG_PREDICATE);
 node_push(&q->logic_stack, lg); query_enter_predicate(q, n, false); int neg = 0; for (node* x = q->logic_stack; x; x = x->next) neg += ((logicgroup*)x->data)->negation;
 CHECK(neg == (int)(n & 1)); } return bad; }"""),
lib(id="c09-bitand",property="C09",needs="a ^ b with both operands non-zero and overlapping bits",breaks="exclusive or keeps the bits both operands have",
 edits=[("lib/scalarfn.c","	ret->i = n0 ^ n1;","	ret->i = n0 | n1;")],
 demo=r"""int main(void) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), SCALAR_OP_BIT_XOR, &t, 0);
 expression* a = mkint(6); expression* b = mkint(3); vec_push_back(f->args, &a); vec_push_back(f->args, &b); enum field_type ty = FIELD_INT;
 CHECK(function_op_resolve(f, &ty) == FQL_GOOD); union field r; r.i = 0; CHECK(f->call__(f, &r, NULL) == FQL_GOOD); CHECK(r.i == 5); return bad; }"""),
lib(id='c26-substring-past',property="C26",needs='SUBSTRING starting just behind the end of the text',breaks='gives the last character instead of nothing',
 edits=[("lib/scalarfn.c",'\tfor (; char_count++ < start && idx < sv.len; idx += bytes) {','\tfor (; char_count++ < start && idx + 1 < sv.len; idx += bytes) {')],
 demo='static function* fn(enum scalar_function s, int bytes, expression* a, expression* b, expression* c) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), s, &t, bytes);\n vec_push_back(f->args, &a); if (b) vec_push_back(f->args, &b); if (c) vec_push_back(f->args, &c); return f; }\nstatic const char* text(function* f) { static string buf; string_construct(&buf); union field r; r.s = &buf; if (f->call__(f, &r, NULL) != FQL_GOOD) return "FAIL"; return buf.data; }\nint main(void) { CHECK(!strcmp(text(fn(SCALAR_SUBSTRING, 0, mkstr("abc"), mkint(2), mkint(9))), "bc")); CHECK(!strcmp(text(fn(SCALAR_SUBSTRING, 0, mkstr("abc"), mkint(4), mkint(1))), "")); return bad; }'),
lib(id='c26-right-whole',property="C26",needs='RIGHT in multi-byte mode asked for as many bytes as the text has',breaks='the first character is left out',
 edits=[("lib/scalarfn.c",'\tfor (; idx >= 0 && char_count < n; ++char_count) {','\tfor (; idx > 0 && char_count < n; ++char_count) {')],
 demo='static function* fn(enum scalar_function s, int bytes, expression* a, expression* b, expression* c) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), s, &t, bytes);\n vec_push_back(f->args, &a); if (b) vec_push_back(f->args, &b); if (c) vec_push_back(f->args, &c); return f; }\nstatic const char* text(function* f) { static string buf; string_construct(&buf); union field r; r.s = &buf; if (f->call__(f, &r, NULL) != FQL_GOOD) return "FAIL"; return buf.data; }\nint main(void) { CHECK(!strcmp(text(fn(SCALAR_RIGHT, 0, mkstr("abc"), mkint(2), NULL)), "bc")); CHECK(!strcmp(text(fn(SCALAR_RIGHT, 0, mkstr("abc"), mkint(3), NULL)), "abc")); return bad; }'),
lib(id='c26-cut-sequence',property="C26",needs='a text that ends inside a multi-byte character',breaks='the sequence is taken for whole and the byte after the text is read',
 edits=[("lib/scalarfn.c",'\tif (n > limit) {','\tif (n > limit + 1) {')],
 demo='static function* fn(enum scalar_function s, int bytes, expression* a, expression* b, expression* c) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), s, &t, bytes);\n vec_push_back(f->args, &a); if (b) vec_push_back(f->args, &b); if (c) vec_push_back(f->args, &c); return f; }\nstatic const char* text(function* f) { static string buf; string_construct(&buf); union field r; r.s = &buf; if (f->call__(f, &r, NULL) != FQL_GOOD) return "FAIL"; return buf.data; }\nint main(void) { CHECK(!strcmp(text(fn(SCALAR_LEFT, 0, mkstr("a\\xc3\\xa9"), mkint(2), NULL)), "a\\xc3\\xa9")); CHECK(!strcmp(text(fn(SCALAR_LEFT, 0, mkstr("a\\xc3"), mkint(2), NULL)), "FAIL")); return bad; }'),
lib(id='c26-len-blank',property="C26",needs='LEN of a text with a multi-byte character before trailing blanks',breaks='bytes are counted up to the last that is no blank',
 edits=[("lib/scalarfn.c",'\t\t\tlen_nospace = len;','\t\t\tlen_nospace = idx + 1;')],
 demo='static function* fn(enum scalar_function s, int bytes, expression* a, expression* b, expression* c) { enum field_type t = FIELD_UNDEFINED; function* f = function_construct(malloc(sizeof(*f)), s, &t, bytes);\n vec_push_back(f->args, &a); if (b) vec_push_back(f->args, &b); if (c) vec_push_back(f->args, &c); return f; }\nstatic const char* text(function* f) { static string buf; string_construct(&buf); union field r; r.s = &buf; if (f->call__(f, &r, NULL) != FQL_GOOD) return "FAIL"; return buf.data; }\nint main(void) { function* f = fn(SCALAR_LEN, 0, mkstr("\\xc3\\xa9z  "), NULL, NULL); union field r; CHECK(f->call__(f, &r, NULL) == FQL_GOOD); CHECK(r.i == 2); f = fn(SCALAR_LEN, 0, mkstr("ab c  "), NULL, NULL); CHECK(f->call__(f, &r, NULL) == FQL_GOOD); CHECK(r.i == 4); return bad; }'),

lib(id="c12-empty-result-reruns", property="C12", needs="SELECT INTO run a second time (a loop, or a re-executed plan) after a first run without rows",
  breaks="a finished statement whose first run gave no rows counts as never run, so its second run replaces the existing target without --overwrite",
  edits=[("lib/query.c", "	bool has_executed = (self->plan == NULL || self->plan->is_complete);", "	bool has_executed = (self->plan == NULL || (self->plan->is_complete && self->plan->rows_affected));")],
  demo=INTO+r"""
int main(void) { query* q = mkinto(0); plan pl; memset(&pl, 0, sizeof pl); pl.is_complete = true; vec* v = new_t_(vec, int);
	struct dgraph g; memset(&g, 0, sizeof g); (void)v; q->plan = &pl;
	g.nodes = new_t_(vec, void*); pl.processes = &g;
	CHECK(query_prepare(q) == FQL_FAIL); done(); return bad; }
"""),
lib(id="c12-sorted-target", property="C12", needs="SELECT INTO with ORDER BY, run again with the target in place",
  breaks="a sorted SELECT INTO skips the look-up when it is run again and replaces the file",
  edits=[("lib/operation.c", "	if (!query->union_id && query->into_table_name) {\n", "	if (!query->union_id && query->into_table_name) {\n		has_executed = has_executed && query->orderby == NULL;\n")],
  demo=INTO+r"""
#include "order.h"
int main(void) { query* q = mkinto(0); q->orderby = order_construct(malloc(sizeof(order)));
	CHECK(op_reset(q, true) == FQL_FAIL); done(); return bad; }
"""),
lib(id="c12-block-flag", property="C12", needs="SELECT INTO re-executed inside a union member's preflight: the statement itself has run, a constant subquery is present",
  breaks="the knowledge that the statement has run is lost when it has constant subqueries",
  edits=[("lib/query.c", "	query** it = vec_begin(self->subquery_const_vec);\n	for (; it != vec_end(self->subquery_const_vec); ++it) {\n		try_(query_preflight(*it, has_executed));\n	}\n", "	query** it = vec_begin(self->subquery_const_vec);\n	for (; it != vec_end(self->subquery_const_vec); ++it) {\n		try_(query_preflight(*it, has_executed));\n		has_executed = false;\n	}\n")],
  demo=INTO+r"""
int main(void) { query* q = mkinto(0); query* sub = query_construct(malloc(sizeof(query)), q->fqlref, 1);
	enum fql_operation none = FQL_NONE; sub->op = &none; vec_push_back(q->subquery_const_vec, &sub);
	CHECK(query_preflight(q, true) == FQL_FAIL); done(); return bad; }
"""),

lib(id="c10-temp-elsewhere", property="C10", needs="a fixed-width result whose destination is not in the current directory",
  breaks="the temporary is made in the current directory: another file system cannot be renamed from, and the result is lost or copied in pieces",
  edits=[("lib/fixedwrite.c", "	string_strcpy(&self->tempname, targetdir);\n", "	string_strcpy(&self->tempname, string_empty(&self->filename) ? targetdir : \".\");\n")],
  demo=FXW+r"""
int main(void) { char cwd[300], sub[320]; mkdtemp(fdir); snprintf(sub, sizeof sub, "%s/sub", fdir); mkdir(sub, 0700); CHECK(chdir(sub) == 0); (void)cwd;
	char dst[320]; snprintf(dst, sizeof dst, "%s/out", fdir);
	fixedwriter w; fixedwriter_construct(&w); CHECK(fixedwriter_open(&w, dst) == FQL_GOOD);
	CHECK(strncmp(string_c_str(&w.tempname), fdir, strlen(fdir)) == 0);
	remove(string_c_str(&w.tempname)); chdir("/"); rmdir(sub); rmdir(fdir); return bad; }
"""),
lib(id="c10-close-quiet", property="C10", needs="the rename over the destination fails (here: it became a directory)",
  breaks="the writer reports success although the destination was not replaced, so the statement seems done and the rows are lost",
  edits=[("lib/writer.c", "		try_(fixedwriter_close(self->writer_data));\n		break;", "		fixedwriter_close(self->writer_data);\n		break;")],
  demo=FXW+r"""
#include "writer.h"
#include "fql.h"
int main(void) { mkdtemp(fdir); char dst[320]; snprintf(dst, sizeof dst, "%s/out", fdir);
	fixedwriter f; fixedwriter_construct(&f); writer w; memset(&w, 0, sizeof w); string_construct(&w.file_name); w.type = IO_FIXED; w.writer_data = &f;
	CHECK(writer_open(&w, dst) == FQL_GOOD); mkdir(dst, 0700);
	CHECK(writer_close(&w) == FQL_FAIL);
	remove(string_c_str(&f.tempname)); rmdir(dst); rmdir(fdir); return bad; }
"""),
lib(id="c10-rename-forgiven", property="C10", needs="the rename fails but changing the mode of the destination works",
  breaks="a failed rename is taken for a success: the old destination stays, the temporary is forgotten",
  edits=[("lib/fixedwrite.c", "	if (rename(tmp, file)) {\n		perror(tmp);\n		return FQL_FAIL;\n	}\n", "	if (rename(tmp, file) && errno != EISDIR) {\n		perror(tmp);\n		return FQL_FAIL;\n	}\n"), ("lib/fixedwrite.c", "#include <sys/stat.h>\n", "#include <sys/stat.h>\n#include <errno.h>\n")],
  demo=FXW+r"""
int main(void) { mkdtemp(fdir); char dst[320]; snprintf(dst, sizeof dst, "%s/out", fdir);
	fixedwriter w; fixedwriter_construct(&w); CHECK(fixedwriter_open(&w, dst) == FQL_GOOD); mkdir(dst, 0700);
	CHECK(fixedwriter_close(&w) == FQL_FAIL);
	remove(string_c_str(&w.tempname)); rmdir(dst); rmdir(fdir); return bad; }
"""),

lib(id="c22-inner-scope-reset", property="C22", needs="a batch that fails inside a block, then another batch on the same handle",
  breaks="the reset clears the scope the failed batch stood in instead of the global one: its global variables' names stay and point at dropped variables",
  edits=[("lib/libfql.c", "	scope_reset(fql->global_scope);\n", "	scope_reset(fql->_scope);\n")],
  demo=FQ+r"""
#include "variable.h"
#include "fql.h"
int main(void) { fqlhandle* h = fql_new(); int zero = 0; hashmap_nset(&h->global_scope->variable_map, "@x", &zero, 2);
	scope* in = scope_construct(malloc(sizeof(scope))); in->parent_scope = h->global_scope; h->_scope = in;
	CHECK(scope_get_var_index(h->_scope, "@x") == 0); fql_reset(h); CHECK(scope_get_var_index(h->_scope, "@x") == FQL_FAIL); return bad; }
"""),
lib(id="c22-finished-not-reset", property="C22", needs="plans run to their end with fql_exec_plans, then another batch planned on the same handle",
  breaks="a batch run to its end by fql_exec_plans is left in the handle with its queries and variables",
  edits=[("lib/libfql.c", "	if (ret == FQL_FAIL || fql->query_idx >= fql->query_vec->size) {\n		fql_reset(fql);\n	}\n\n	return ret;\n}\n\nint fql_exec_all_plans", "	if (ret == FQL_FAIL || fql->query_idx > fql->query_vec->size) {\n		fql_reset(fql);\n	}\n\n	return ret;\n}\n\nint fql_exec_all_plans")],
  demo=FQ+r"""
#include "variable.h"
#include "fql.h"
int main(void) { fqlhandle* h = fql_new(); int zero = 0; hashmap_nset(&h->global_scope->variable_map, "@x", &zero, 2);
	CHECK(fql_exec_plans(h, 1) != FQL_FAIL); CHECK(scope_get_var_index(h->_scope, "@x") == FQL_FAIL); return bad; }
"""),
lib(id="c22-stale-schemas", property="C22", needs="a batch whose planning fails after a target was planned, then another batch on the same handle",
  breaks="a batch that fails before its first statement has run leaves its planned targets' schemas behind, and the next batch reads the file by the dead schema",
  edits=[("lib/libfql.c", "	vec_clear(fql->query_vec);\n	fql->query_idx = 0;\n\n	fqlsig_tmp_removeall();\n\n	hashmap_clear(fql->schema_map);\n", "	vec_clear(fql->query_vec);\n\n	fqlsig_tmp_removeall();\n\n	if (fql->query_idx > 0) {\n		hashmap_clear(fql->schema_map);\n	}\n	fql->query_idx = 0;\n")],
  demo=FQ+r"""
#include "fql.h"
int main(void) { fqlhandle* h = fql_new(); void* s = h; hashmap_nset(h->schema_map, "/x/new.txt", &s, 10);
	CHECK(hashmap_nget(h->schema_map, "/x/new.txt", 10) != NULL); fql_reset(h); CHECK(hashmap_nget(h->schema_map, "/x/new.txt", 10) == NULL); return bad; }
"""),

lib(id="C23-delim-size",property="C23",needs="an input delimiter of 33 characters or more",breaks="one byte is written past the input delimiter, clearing the output delimiter behind it",
 edits=[("lib/libfql.c","	strncpy_(fql->props.in_delim, delim, DELIM_LEN_MAX);","	strncpy_(fql->props.in_delim, delim, sizeof(fql->props.in_delim));")],
 demo=FQ+r"""
int main(void) { int bad = 0; fqlhandle* f = calloc(1, sizeof(*f)); char d[60]; memset(d, 'x', 50); d[50] = 0;
	strcpy(f->props.out_delim, "Y"); fql_set_in_delim(f, d);
	if (f->props.out_delim[0] != 'Y') bad = 1;
	return bad; }
"""),
lib(id="C23-schema-delim-size",property="C23",needs="a delimiter of 33 characters or more for one table",breaks="one byte is written past the table's delimiter, clearing its record terminator",
 edits=[("lib/schema.c","	strncpy_(self->delimiter, delim, DELIM_LEN_MAX);","	strncpy_(self->delimiter, delim, sizeof(self->delimiter));")],
 demo=FQ+r"""
#include "schema.h"
int main(void) { int bad = 0; schema* f = calloc(1, sizeof(*f)); char d[60]; memset(d, 'x', 50); d[50] = 0;
	strcpy(f->rec_terminator, "Y"); schema_set_delim(f, d);
	if (f->rec_terminator[0] != 'Y') bad = 1;
	return bad; }
"""),
asan(id="C23-int-text",property="C23",needs="a plan shown with an integer constant of twelve or more digits",breaks="the number's text overruns a local buffer",
 edits=[("lib/expression.c","			char buf[21];","			char buf[12];")],
 demo=r"""
#include "expression.h"
int main(void) { int bad = 0; string s; string_construct(&s);
	expression* e = mkint(-1234567890123456789L); expression_cat_description(e, &s);
	if (strcmp(string_c_str(&s), "-1234567890123456789")) bad = 1;
	return bad; }
"""),

cxx("lib/antlr/treewalker.cpp",id="C08-walk-after-failure",property="C08",needs="a failure reported while leaving a nested construct",breaks="the constructs around it are still translated after the failure",
 edits=[("lib/antlr/treewalker.cpp","		} while (_walking && currentNode != nullptr);","		} while (currentNode != nullptr);")],
 demo=r"""
#include "treewalker.h"
#include "antlr4-runtime.h"
using namespace antlr4;
struct Ctx : ParserRuleContext { size_t getRuleIndex() const override { return 0; } };
struct L : tree::ParseTreeListener { TreeWalker* w; ParserRuleContext* stop; bool on = true; int late = 0, seen = 0;
	void visitTerminal(tree::TerminalNode*) override { late += !on; }
	void visitErrorNode(tree::ErrorNode*) override { late += !on; }
	void enterEveryRule(ParserRuleContext*) override { ++seen; late += !on; }
	void exitEveryRule(ParserRuleContext* c) override { ++seen; late += !on; if (c == stop) { on = false; w->set_walking(false); } } };
int main() { int bad = 0; Ctx root, a, b, c, d; root.children = {&a, &d}; a.children = {&b, &c};
	a.parent = d.parent = &root; b.parent = c.parent = &a;
	TreeWalker w; L l; l.w = &w; l.stop = nullptr; w.set_walking(true); w.walk(&l, &root); if (l.seen != 10) bad = 2;
	L m; m.w = &w; m.stop = &c; w.set_walking(true); w.walk(&m, &root); if (m.late) bad = 1;
	return bad; }
"""),
cxx("lib/antlr/errorlistener.cpp",id="C08-error-without-token",property="C08",needs="a syntax error the parser reports without an offending token",breaks="the error is printed but not recorded, and the statement runs",
 edits=[("lib/antlr/errorlistener.cpp","	_error = true;\n	if (offendingSymbol)\n		std::cerr << \"Lexer","	_error = offendingSymbol != nullptr;\n	if (offendingSymbol)\n		std::cerr << \"Lexer")],
 demo=r"""
#include "errorlistener.h"
int main() { LexerErrorListener l(nullptr); ParserErrorListener p(nullptr); int bad = 0;
	if (l.getError() || p.getError()) bad = 1;
	l.syntaxError(nullptr, nullptr, 1, 1, "", nullptr); p.syntaxError(nullptr, nullptr, 1, 1, "", nullptr);
	if (!l.getError() || !p.getError()) bad = 1;
	return bad; }
"""),
cxx("lib/antlr/listenerinterface.cpp lib/antlr/treewalker.cpp",id="C08-refused-but-walked",property="C08",needs="an unsupported construct with supported ones after it",breaks="the batch fails but the rest of it is still translated",
 edits=[("lib/antlr/listenerinterface.cpp","	} else {\n		std::cerr << \"\\nTerminating: Though not recommended, warnings can be overridden.\\n\";\n		_set_failure();","	} else {\n		std::cerr << \"\\nTerminating: Though not recommended, warnings can be overridden.\\n\";\n		_return_code = FQL_FAIL;")],
 demo=r"""
#include "listenerinterface.h"
#include "fql.h"
#include <unistd.h>
struct Ctx : antlr4::ParserRuleContext { size_t getRuleIndex() const override { return 0; } };
struct W : TreeWalker { int go(antlr4::tree::ParseTreeListener*) { return 0; } };
struct Probe : antlr4::tree::ParseTreeListener { int n = 0;
	void visitTerminal(antlr4::tree::TerminalNode*) override { } void visitErrorNode(antlr4::tree::ErrorNode*) override { }
	void enterEveryRule(antlr4::ParserRuleContext*) override { ++n; } void exitEveryRule(antlr4::ParserRuleContext*) override { } };
static int walks(TreeWalker& w) { Probe p; Ctx c; w.walk(&p, &c); return p.n; }
int main() { int bad = 0; antlr4::CommonToken t(1, "X"); Ctx c; c.start = &t; std::vector<std::string> rules = {"r"};
	for (int over = 0; over < 2; ++over) {
		fqlhandle* f = (fqlhandle*)calloc(1, sizeof(*f)); f->props.override_warnings = over;
		TreeWalker* w = new TreeWalker; w->set_walking(true); if (!walks(*w)) return 5;
		ListenerInterface* l = new ListenerInterface(f, w, rules);
		l->enterMerge_statement((TSqlParser::Merge_statementContext*)&c);
		if (over && (l->get_return_code() != 0 || !walks(*w))) bad = 2;
		if (!over && (l->get_return_code() == 0 || walks(*w))) bad = 1;
	}
	_exit(bad); }
"""),

lib(id="C11-clear-stops",property="C11",needs="a registered file that is already gone, registered before others",breaks="clearing the register stops at the first file it cannot remove and the later temporary files stay",
 edits=[("lib/fqlsig.c","		char* tmp = node_dequeue(&_tmp_file_head);\n		fqlsig_tmp_remove_file(tmp);\n		free_(tmp);","		char* tmp = node_dequeue(&_tmp_file_head);\n		int gone = remove(tmp);\n		if (gone) {\n			perror(tmp);\n		}\n		free_(tmp);\n		if (gone) {\n			break;\n		}")],
 demo=FXW+r"""
#include "fqlsig.h"
int main(void) { int bad = 0; mkdtemp(fdir); char a[320], b[320]; snprintf(a, sizeof a, "%s/a", fdir); snprintf(b, sizeof b, "%s/b", fdir);
	fclose(fopen(b, "w")); fqlsig_tmp_push(a); fqlsig_tmp_push(b);
	fqlsig_tmp_removeall(); if (access(b, F_OK) == 0) bad = 1;
	remove(b); rmdir(fdir); return bad; }
"""),
lib(id="C11-hangup",property="C11",needs="the terminal hangs up while a query runs",breaks="the process dies without removing its temporary files",
 edits=[("lib/fqlsig.c","	sigaction(SIGHUP, &act, NULL);","	sigaction(SIGPIPE, &act, NULL);")],
 demo=FXW+r"""
#include "fqlsig.h"
#include <signal.h>
#include <sys/wait.h>
int main(void) { int bad = 0; mkdtemp(fdir); char a[320]; snprintf(a, sizeof a, "%s/a", fdir);
	int sig[] = {SIGINT, SIGQUIT, SIGTERM, SIGHUP};
	for (int i = 0; i < 4; ++i) {
		fclose(fopen(a, "w"));
		pid_t c = fork();
		if (!c) { signal(SIGHUP, SIG_DFL); fqlsig_init_sig(); fqlsig_tmp_push(a); raise(sig[i]); _exit(0); }
		int st; waitpid(c, &st, 0); if (access(a, F_OK) == 0) bad = 1;
	}
	remove(a); rmdir(fdir); return bad; }
"""),
lib(id="C11-forgotten-early",property="C11",needs="the rename over the destination fails",breaks="the temporary file was forgotten before and stays behind for good",
 edits=[("lib/fixedwrite.c","	if (rename(tmp, file)) {\n		perror(tmp);\n","	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n	if (rename(tmp, file)) {\n		perror(tmp);\n"),
  ("lib/fixedwrite.c","		perror(file);\n		return FQL_FAIL;\n	}\n	fqlsig_tmp_remove_node(self->tempnode);\n	self->tempnode = NULL;\n","		perror(file);\n		return FQL_FAIL;\n	}\n")],
 demo=FXW+r"""
#include "fqlsig.h"
int main(void) { int bad = 0; mkdtemp(fdir); char dst[320], tmp[400]; snprintf(dst, sizeof dst, "%s/out", fdir);
	fixedwriter f; fixedwriter_construct(&f); if (fixedwriter_open(&f, dst) != FQL_GOOD) return 5;
	snprintf(tmp, sizeof tmp, "%s", string_c_str(&f.tempname)); mkdir(dst, 0700);
	if (fixedwriter_close(&f) != FQL_FAIL) bad = 2;
	fqlsig_tmp_removeall(); if (access(tmp, F_OK) == 0) bad = 1;
	remove(tmp); rmdir(dst); rmdir(fdir); return bad; }
"""),

lib(id="C30-delete-top",property="C30",needs="DELETE with a row limit",breaks="the row limit of DELETE is ignored and every matching row is deleted",
 edits=[("lib/operation.c","		delete->top_count = top_count;\n","		(void)delete;\n")],
 demo=r"""
#include "operation.h"
#include "fqldelete.h"
#include "fqlupdate.h"
#include "fqlselect.h"
int main(void) { int bad = 0; fqldelete d; fqldelete_construct(&d); fqlupdate u; fqlupdate_construct(&u); fqlselect s; fqlselect_construct(&s);
	op_set_top_count((enum fql_operation*)&d, 3); op_set_top_count((enum fql_operation*)&u, 4); op_set_top_count((enum fql_operation*)&s, 5);
	CHECK(d.top_count == 3); CHECK(u.top_count == 4); CHECK(s.top_count == 5); return bad; }
"""),
lib(id="C30-alias-after-name",property="C30",needs="UPDATE or DELETE whose target is both the file name of one source and the alias of a later one",breaks="a match by file name counts as final, so the table with that alias is not the one changed",
 edits=[("lib/operation.c","string_c_str(&check_table->name))) {\n		*table_idx = check_table->idx;","string_c_str(&check_table->name))) {\n		*has_matched_alias = true;\n		*table_idx = check_table->idx;")],
 demo=r"""
#include "operation.h"
#include "fqldelete.h"
#include "table.h"
#include "schema.h"
int main(void) { int bad = 0; fqldelete d; fqldelete_construct(&d); expression* e = expression_construct(malloc(sizeof(*e)), EXPR_ASTERISK, "", "");
	if (vec_empty(d.schema->expressions)) vec_push_back(d.schema->expressions, &e);
	op_set_table_name((enum fql_operation*)&d, "a");
	table t; memset(&t, 0, sizeof t); string_construct(&t.name); string_construct(&t.alias);
	string_strcpy(&t.name, "a"); string_strcpy(&t.alias, "x"); t.idx = 0; op_match_table_alias((enum fql_operation*)&d, &t);
	CHECK(d.table_idx == 0);
	string_strcpy(&t.name, "b"); string_strcpy(&t.alias, "A"); t.idx = 1; op_match_table_alias((enum fql_operation*)&d, &t);
	CHECK(d.table_idx == 1);
	string_strcpy(&t.name, "a"); string_strcpy(&t.alias, "y"); t.idx = 2; op_match_table_alias((enum fql_operation*)&d, &t);
	CHECK(d.table_idx == 1); return bad; }
"""),
lib(id="C30-update-rownum",property="C30",needs="UPDATE with an expression that uses the row number",breaks="the expression is bound to nothing",
 edits=[("lib/operation.c","		expr->rownum_ref = &update->rownum;\n","		(void)update;\n")],
 demo=r"""
#include "operation.h"
#include "fqlupdate.h"
#include "fqlselect.h"
int main(void) { int bad = 0; fqlupdate u; fqlupdate_construct(&u); fqlselect s; fqlselect_construct(&s); expression* e = mkint(1);
	op_assign_rownum_ref((enum fql_operation*)&u, e); CHECK(e->rownum_ref == &u.rownum);
	op_assign_rownum_ref((enum fql_operation*)&s, e); CHECK(e->rownum_ref == &s.rownum); return bad; }
"""),
]
