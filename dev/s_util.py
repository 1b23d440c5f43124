HDR='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include "util.h"
#include "fifo.h"
#include "hashmap.h"
#include "stringview.h"
'''
SEEDS=[
dict(id="c01-nget-short-block", property="C01", needs="a bulk get that finds fewer records than one block", breaks="the early return leaves the read lock held, so the next reader blocks for ever",
 edits=[("util/fifo.c","	transfer_count -= transfer_count % block_size;\n","	if (transfer_count < block_size) {\n		return available;\n	}\n	transfer_count -= transfer_count % block_size;\n")],
 demo=HDR+'''
int main(void)
{
	fifo f; fifo_construct(&f, sizeof(int), 16);
	vec out; vec_construct(&out, sizeof(int));
	int v = 7; fifo_add(&f, &v);
	int left = fifo_nget(&f, &out, 2, 8);
	if (left != 1 || out.size != 0) return 2;
	if (pthread_mutex_trylock(&f.tail_mutex)) { puts("read lock still held"); return 1; }
	pthread_mutex_unlock(&f.tail_mutex);
	v = 8; fifo_add(&f, &v);
	left = fifo_nget(&f, &out, 2, 8);
	return !(left == 0 && out.size == 2 && ((int*)out.data)[0] == 7 && ((int*)out.data)[1] == 8);
}
'''),
dict(id="c02-signal-outside-wrap", property="C02", needs="a producer whose bulk add ends exactly at the end of the ring while a consumer sleeps", breaks="the consumer is not woken when the transfer ends at the wrap point",
 edits=[("util/fifo.c","	self->head = new_head;\n\n	pthread_cond_signal(&self->cond_add);\n	_fifo_signal_shared(self);\n	pthread_mutex_unlock(&self->head_mutex);\n\n	if (transfer_count == src->size) {\n		vec_clear(src);\n	} else {\n		vec_erase(src, vec_begin(src), transfer_count);\n	}\n}\n","	self->head = new_head;\n\n	if (self->head != 0) {\n		pthread_cond_signal(&self->cond_add);\n	}\n	_fifo_signal_shared(self);\n	pthread_mutex_unlock(&self->head_mutex);\n\n	if (transfer_count == src->size) {\n		vec_clear(src);\n	} else {\n		vec_erase(src, vec_begin(src), transfer_count);\n	}\n}\n")],
 demo=HDR+'''
static fifo f; static volatile int woke;
static void* consumer(void* a) { fifo_wait_for_add(&f); woke = 1; return NULL; }
int main(void)
{
	alarm(30);
	fifo_construct(&f, sizeof(int), 4);
	f.head = f.tail = 2;
	pthread_t t; pthread_create(&t, NULL, consumer, NULL);
	usleep(300000);
	vec src; vec_construct(&src, sizeof(int));
	int a = 1, b = 2; vec_push_back(&src, &a); vec_push_back(&src, &b);
	fifo_nadd(&f, &src);
	int i; for (i = 0; i < 40 && !woke; ++i) usleep(50000);
	if (!woke) { puts("consumer never woken"); _exit(1); }
	return 0;
}
'''),
dict(id="c02-close-one-side", property="C02", needs="a consumer waiting on two pipes while the first one is closed and a third party never adds", breaks="closing the first of two pipes no longer wakes the consumer sleeping on the second",
 edits=[("util/fifo.c","	if (self->shared_mutex_fifo != NULL) {\n		pthread_mutex_lock(&self->shared_mutex_fifo->head_mutex);\n","	if (is_open && self->shared_mutex_fifo != NULL) {\n		pthread_mutex_lock(&self->shared_mutex_fifo->head_mutex);\n")],
 demo=HDR+'''
static fifo f0, f1; static volatile int woke;
static void* consumer(void* a) { fifo_wait_for_add_either(&f0, &f1); woke = 1; return NULL; }
int main(void)
{
	alarm(30);
	fifo_construct(&f0, sizeof(int), 4); fifo_construct(&f1, sizeof(int), 4);
	pthread_t t; pthread_create(&t, NULL, consumer, NULL);
	usleep(300000);
	fifo_set_open(&f0, 0);
	int i; for (i = 0; i < 40 && !woke; ++i) usleep(50000);
	if (!woke) { puts("consumer never woken by the closed pipe"); _exit(1); }
	return 0;
}
'''),
dict(id="c03-advance-both", property="C03", needs="one thread draining a pipe while another closes it, with the producer bypassing the buffer", breaks="fifo_advance takes head then tail, fifo_set_open tail then head: the two block each other",
 edits=[("util/fifo.c","	pthread_mutex_lock(&self->head_mutex);\n	_idx_adv_(self->head);\n	pthread_cond_signal(&self->cond_add);\n	pthread_mutex_unlock(&self->head_mutex);\n}\n\n\nvoid* fifo_begin","	pthread_mutex_lock(&self->head_mutex);\n	_idx_adv_(self->head);\n	pthread_cond_signal(&self->cond_add);\n	fifo_update(self);\n	pthread_mutex_unlock(&self->head_mutex);\n}\n\n\nvoid* fifo_begin")],
 demo=HDR+'''
static fifo f; static volatile int stop; static volatile long n0, n1;
static void* a(void* x) { while (!stop) { fifo_advance(&f); ++n0; } return NULL; }
static void* b(void* x) { while (!stop) { fifo_set_open(&f, 1); ++n1; } return NULL; }
int main(void)
{
	fifo_construct(&f, sizeof(int), 64);
	pthread_t t, u; pthread_create(&t, NULL, a, NULL); pthread_create(&u, NULL, b, NULL);
	int i; long l0 = -1, l1 = -1, same = 0;
	for (i = 0; i < 40; ++i) {
		usleep(100000);
		if (n0 == l0 && n1 == l1) { if (++same == 10) { puts("deadlock"); _exit(1); } } else same = 0;
		l0 = n0; l1 = n1;
	}
	_exit(0);
}
'''),
dict(id="c04-reserve-ignored", property="C04", needs="two producers on one pipe, the ring filled up to the reserved slots", breaks="the reserved slot per producer is not kept, the write position catches up with the read position and a full pipe looks empty",
 edits=[("util/fifo.c","	return self->buf->size - avail - self->input_count;","	return self->buf->size - avail - (self->input_count > 1 ? 1 : self->input_count);")],
 demo=HDR+'''
int main(void)
{
	fifo f; fifo_construct(&f, sizeof(int), 8);
	f.input_count = 3;
	vec src; vec_construct(&src, sizeof(int));
	int i; for (i = 0; i < 20; ++i) vec_push_back(&src, &i);
	fifo_nadd(&f, &src);
	if (fifo_available(&f) != 5 || src.size != 15) { printf("took %u\\n", fifo_available(&f)); return 1; }
	return 0;
}
'''),
dict(id="c04-wrap-second-copy", property="C04", needs="a bulk get that wraps around the end of the ring with more records stored than asked for", breaks="the second part of a wrapped transfer takes records up to the write position instead of those asked for",
 edits=[("util/fifo.c","		vec_append(buffer, vec_begin(self->buf), new_tail);","		vec_append(buffer, vec_begin(self->buf), (max < available) ? self->head : new_tail);")],
 demo=HDR+'''
int main(void)
{
	fifo f; fifo_construct(&f, sizeof(int), 8);
	int i; for (i = 0; i < 6; ++i) fifo_add(&f, &i);
	for (i = 0; i < 6; ++i) fifo_get(&f);
	for (i = 10; i < 17; ++i) fifo_add(&f, &i);
	vec out; vec_construct(&out, sizeof(int));
	int left = fifo_nget(&f, &out, 1, 4);
	if (out.size != 4 || left != 3) { printf("%zu records, %d left\\n", out.size, left); return 1; }
	left = fifo_nget(&f, &out, 1, 100);
	if (out.size != 7) { printf("%zu records\\n", out.size); return 1; }
	for (i = 0; i < 7; ++i) if (((int*)out.data)[i] != 10 + i) return 1;
	return 0;
}
'''),
dict(id="c18-shrink-no-spare", property="C18", needs="shrink to fit, then append exactly one element or extend from the shrunk array", breaks="shrinking drops the spare element, so the next operation that relies on it (erase, extend) works beyond the allocation",
 flags="-fsanitize=address",
 edits=[("util/vec.c","	realloc_(self->data, (self->size + 1) * self->_elem_size);\n	self->_alloc = self->size + 1;","	realloc_(self->data, self->size * self->_elem_size);\n	self->_alloc = self->size;")],
 demo=HDR+'''
int main(void)
{
	vec a, b; vec_construct(&a, 64); vec_construct(&b, 64);
	char e[64]; int i;
	for (i = 0; i < 5; ++i) { memset(e, i, sizeof(e)); vec_push_back(&a, e); }
	vec_shrink_to_fit(&a);
	vec_extend(&b, &a);              /* copies the spare element as well */
	if (b.size != 5) return 1;
	for (i = 0; i < 5; ++i) if (((char*)vec_at(&b, i))[63] != i) return 1;
	vec_destroy(&a); vec_destroy(&b);
	return 0;
}
'''),
dict(id="c18-add-front-late-count", property="C18", needs="adding to the front when the array is about to grow", breaks="the bytes to move are counted after growing from the new capacity, so the move runs past the allocation",
 flags="-fsanitize=address",
 edits=[("util/vec.c","	size_t move_bytes = self->_elem_size * (self->_alloc - 1);\n	vec_add_one(self);\n","	vec_add_one(self);\n	size_t move_bytes = self->_elem_size * (self->size + (self->_alloc - self->size));\n")],
 demo=HDR+'''
int main(void)
{
	vec a; vec_construct(&a, 16);
	int i;
	for (i = 0; i < 40; ++i) memset(vec_add_one_front(&a), i, 16);
	for (i = 0; i < 40; ++i) if (*(char*)vec_at(&a, i) != 39 - i) return 1;
	vec_destroy(&a);
	return 0;
}
'''),
dict(id="c18-erase-stale-size", property="C18", needs="erasing more than one element that is not at the end of the array", breaks="the elements behind the erased range are counted after the size has shrunk, so the last ones are not moved down",
 edits=[("util/vec.c","	size_t bytes = (const char*)vec_at(self, self->_alloc - 1) - (const char*)back;\n	self->size -= vec_iter_size_(self, begin, back);\n","	self->size -= vec_iter_size_(self, begin, back);\n	size_t bytes = (const char*)vec_end(self) - (const char*)begin;\n	bytes -= bytes < (size_t)((const char*)back - (const char*)begin) ? 0 : (const char*)back - (const char*)begin;\n")],
 demo=HDR+'''
int main(void)
{
	vec a; vec_construct(&a, sizeof(int));
	int i;
	for (i = 0; i < 10; ++i) vec_push_back(&a, &i);
	vec_erase_at(&a, 1, 4);
	int want[] = { 0, 5, 6, 7, 8, 9 };
	if (a.size != 6) return 1;
	for (i = 0; i < 6; ++i) if (*(int*)vec_at(&a, i) != want[i]) { printf("%d: %d\\n", i, *(int*)vec_at(&a, i)); return 1; }
	vec_destroy(&a);
	return 0;
}
'''),
dict(id="c17-rehash-old-mask", property="C17", needs="enough entries for the table to grow and a stored hash with a bit the old mask hides", breaks="entries are re-inserted by the old table's mask, so lookups in the grown table miss them",
 edits=[("util/hashmap.c","		size_t idx = (size_t)(src_entries[i].hash & (self->_limit - 1));","		size_t idx = (size_t)(src_entries[i].hash & (old_limit - 1));")],
 demo=HDR+'''
int main(void)
{
	set s; set_construct(&s, 8, HASHMAP_PROP_DEFAULT);
	char k[32]; int i; int bad = 0;
	for (i = 0; i < 500; ++i) { sprintf(k, "key%d", i * 7919); set_nadd(&s, k, strlen(k)); }
	for (i = 0; i < 500; ++i) { sprintf(k, "key%d", i * 7919); if (!set_nhas(&s, k, strlen(k))) ++bad; }
	if (bad) printf("%d keys lost\\n", bad);
	return bad != 0;
}
'''),
dict(id="c19-strncat-strlen", property="C19", needs="a bounded append from a source without terminator inside the bound", breaks="the source is measured to its terminator before the bound is applied, so it is read behind the bound",
 flags="-fsanitize=address",
 edits=[("util/stringy.c","	size_t len = strnlen(src, n);\n","	size_t len = strlen(src);\n	if (len > n) {\n		len = n;\n	}\n")],
 demo=HDR+'''
int main(void)
{
	string s; string_construct(&s); string_strcpy(&s, "ab");
	char* raw = malloc(4); memcpy(raw, "cdef", 4);        /* not terminated */
	size_t n = string_strncat(&s, raw, 4);
	if (n != 4 || strcmp(s.data, "abcdef")) return 1;
	n = string_strncat(&s, "xy", 10);
	if (n != 2 || strcmp(s.data, "abcdefxy")) return 1;
	free(raw); string_destroy(&s);
	return 0;
}
'''),
dict(id="c19-replace-stale-position", property="C19", needs="replacing by a longer text so that the string's buffer has to move, several occurrences", breaks="the position behind the replacement is computed from the buffer as it was before it moved, so replacing all occurrences goes on at a wrong place",
 edits=[("util/stringy.c","	return vec_at(s, pos_idx + newlen);\n}\n\n\nvoid string_find_replace_limited","	return pos + newlen;\n}\n\n\nvoid string_find_replace_limited")],
 demo=HDR+'''
int main(void)
{
	string s; string_construct(&s); string_strcpy(&s, "aXbXcXdXe");
	char big[200]; memset(big, 'z', 199); big[199] = 0;
	string_find_replace(&s, "X", big);
	char want[2000]; sprintf(want, "a%sb%sc%sd%se", big, big, big, big);
	const char* next = 0;
	string t; string_construct(&t); string_strcpy(&t, "aX");
	void* block[8]; int i;
	for (i = 0; i < 8; ++i) block[i] = malloc(24);      /* the buffer cannot grow in place */
	next = string_find_replace_one(&t, "X", big, 0);
	if (next != (char*)t.data + t.size) { puts("position"); return 1; }
	if (s.size != strlen(want) || strcmp(s.data, want)) { printf("%zu\\n", s.size); return 1; }
	string_destroy(&s);
	return 0;
}
'''),
dict(id="c19-rtrim-other-length", property="C19", needs="a trailing-blank comparison whose first text is longer than the second and equal to it as far as the second goes", breaks="the comparison runs over the first text's length instead of the shorter one's, so it reads behind the second text",
 flags="-fsanitize=address",
 edits=[("util/stringview.c","	for (; ret == 0 && i < short_sv->len; ++i) {\n		ret = s0[i] - s1[i];","	for (; ret == 0 && i < sv0->len; ++i) {\n		if (i == sv1->len) {\n			break;\n		}\n		if (i + 1 == sv1->len && s1[i] == ' ' && s1[i + 1] == 0) {\n			break;\n		}\n		ret = s0[i] - s1[i];")],
 demo=HDR+'''
int main(void)
{
	char* a = malloc(4), *b = malloc(2);
	memcpy(a, "x   ", 4); memcpy(b, "x ", 2);
	stringview v = { a, 4 }, w = { b, 2 };
	if (stringview_compare_rtrim(&v, &w) != 0) return 1;
	if (stringview_compare_rtrim(&w, &v) != 0) return 1;
	free(a); free(b);
	return 0;
}
'''),

dict(id="c29-both-edges", property="C29", needs="a graph node both of whose edges lead to the node removed", breaks="the second edge keeps pointing at the released node",
 edits=[("util/dgraph.c","			(*it)->out[0] = NULL;\n		}\n		if ((*it)->out[1] == *node) {","			(*it)->out[0] = NULL;\n		} else if ((*it)->out[1] == *node) {")],
 demo=HDR+"""
#include "dgraph.h"
int main(void)
{
	dgraph* g = new_(dgraph);
	int a = 1, b = 2;
	dnode* n = dgraph_add_data(g, &a);
	dnode* m = dgraph_add_data(g, &b);
	n->out[0] = m; n->out[1] = m;
	dnode** nodes = vec_begin(g->nodes);
	if (dgraph_remove(g, &nodes[1]) != &b) return 2;
	if (n->out[0] || n->out[1]) { puts("edge to removed node left"); return 1; }
	return 0;
}
"""),
dict(id="c29-free-from-middle", property="C29", needs="a list released through a reference to an inner element", breaks="elements before the one referred to are never released",
 edits=[("util/node.c","	*head = node_top(*head);\n	while (*head) {\n		void* data = node_pop(head);","	while (*head) {\n		void* data = node_pop(head);")],
 demo=HDR+"""
#include "node.h"
int main(void)
{
	node* l = NULL;
	node_enqueue(&l, malloc(8));
	node_enqueue(&l, malloc(8));
	node* mid = l->next;
	l = NULL;
	node_free_data(&mid);   /* a leak is reported at exit */
	return mid != NULL;
}
""", flags="-fsanitize=address"),
dict(id="c29-export-order", property="C29", needs="an inner element taken out of a list and the list then walked backwards", breaks="the successor of an element taken out keeps no link to its predecessor",
 edits=[("util/node.c","	if (export->next)\n		export->next->prev = export->prev;\n	if (export->prev)\n		export->prev->next = export->next;\n\n	export->next = NULL;\n	export->prev = NULL;","	node* prev = export->prev;\n	export->prev = NULL;\n	if (export->next)\n		export->next->prev = export->prev;\n	if (prev)\n		prev->next = export->next;\n\n	export->next = NULL;")],
 demo=HDR+"""
#include "node.h"
int main(void)
{
	node* l = NULL; int v[3];
	int i; for (i = 0; i < 3; ++i) node_enqueue(&l, &v[i]);
	if (node_remove(&l, l->next) != &v[1]) return 2;
	node* b = node_back(l);
	if (node_count(l) != 2 || b->data != &v[2]) return 3;
	if (node_front(b) != l) { puts("first element not reachable from the last"); return 1; }
	return 0;
}
"""),
]
