From dd626e6787f5ec3c7a94f1c447215c31f845d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 01/59] fix: take both pipe locks in one order in
 fifo_wait_for_add_either

A consumer woken spuriously while holding f1's head lock went on to lock
f0's, while a producer holding f0's was locking f1's to signal it.
---
 util/fifo.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..7312cbf 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -372,21 +372,20 @@ void fifo_wait_for_add(fifo* restrict self)
 
 void fifo_wait_for_add_either(fifo* restrict f0, fifo* restrict f1)
 {
-	//pthread_mutex_lock(&f0->head_mutex);
+	/* f0 before f1: the order in which _fifo_signal_shared locks them */
+	pthread_mutex_lock(&f0->head_mutex);
 	pthread_mutex_lock(&f1->head_mutex);
-	while (f1->is_open && fifo_is_empty(f1)) {
-		pthread_mutex_lock(&f0->head_mutex);
-		if (!f0->is_open || !fifo_is_empty(f0)) {
-			pthread_mutex_unlock(&f0->head_mutex);
-			break;
-		}
+	while (f0->is_open && fifo_is_empty(f0) && f1->is_open && fifo_is_empty(f1)) {
 		f0->shared_mutex_fifo = f1;
 		pthread_mutex_unlock(&f0->head_mutex);
 		pthread_cond_wait(&f1->cond_add, &f1->head_mutex);
+		pthread_mutex_unlock(&f1->head_mutex);
+		pthread_mutex_lock(&f0->head_mutex);
+		pthread_mutex_lock(&f1->head_mutex);
 		f0->shared_mutex_fifo = NULL;
 	}
 	pthread_mutex_unlock(&f1->head_mutex);
-	//pthread_mutex_unlock(&f0->head_mutex);
+	pthread_mutex_unlock(&f0->head_mutex);
 }
 
 void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
-- 
2.43.0


From f96766614385e6677f3aa69348cead2e62dd6015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 02/59] fix: bulk pipe transfers of zero records copied the
 whole ring

With fewer records available than one block (or an empty source buffer) the
position does not move, which was taken for a wrapped transfer.
---
 util/fifo.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 7312cbf..b912409 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -158,7 +158,7 @@ int fifo_nget(fifo* restrict self,
 	transfer_count -= transfer_count % block_size;
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
-	if (new_tail == 0 || new_tail > self->tail) {
+	if (new_tail == 0 || new_tail >= self->tail) {
 		//vec_append(buffer, vec_at(self->buf, self->tail), new_tail - self->tail);
 		vec_append(buffer, vec_at(self->buf, self->tail), transfer_count);
 	} else {
@@ -251,7 +251,7 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
 	unsigned new_head = (self->head + transfer_count) % self->buf->size;
 
-	if (new_head == 0 || new_head > self->head) {
+	if (new_head == 0 || new_head >= self->head) {
 		vec_set_at(self->buf, self->head, vec_begin(src), transfer_count);
 	} else {
 		unsigned transfer1 = self->buf->size - self->head;
@@ -290,7 +290,7 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
 	unsigned new_head = (self->head + transfer_count) % self->buf->size;
 
-	if (new_head == 0 || new_head > self->head) {
+	if (new_head == 0 || new_head >= self->head) {
 		vec_set_at(self->buf, self->head, vec_begin(src), transfer_count);
 	} else {
 		unsigned transfer1 = self->buf->size - self->head;
-- 
2.43.0


From a34c6c2b337ea47d1f777af48836e305ac78be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 03/59] fix: keys of only blanks kept their length under
 HASHMAP_PROP_RTRIM

---
 util/hashmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..cb7875b 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
-- 
2.43.0


From 658cd2e2777acd7067e079992d25abe3242f9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 04/59] fix: vec_insert_one used a position from before the
 array moved

---
 util/vec.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 7e16479..88f7a08 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -174,9 +174,10 @@ void vec_insert_iter(vec* restrict self, void* pos, const void* begin, const voi
 
 void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 {
+	size_t idx = vec_get_idx_(self, pos);
 	vec_add_one(self);
-	size_t move_bytes =
-	        self->_elem_size * ((self->_alloc - 1) - vec_get_idx_(self, pos));
+	size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);
+	pos = vec_at(self, idx);
 
 	memmove((char*)pos + self->_elem_size, pos, move_bytes);
 	memcpy(pos, data, self->_elem_size);
-- 
2.43.0


From 8b0fc8dd187484ad42db1befb1c34cf56eb80294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 05/59] fix: vec_set_iter copied one byte of its last element

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 88f7a08..778c7e3 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -131,9 +131,9 @@ void* vec_add_one_front(vec* restrict self)
 	return vec_begin(self);
 }
 
-void vec_set_iter(vec* restrict _unused, void* pos, const void* begin, const void* back)
+void vec_set_iter(vec* restrict self, void* pos, const void* begin, const void* back)
 {
-	memcpy(pos, begin, (char*)back - (char*)begin + 1);
+	memcpy(pos, begin, (char*)back - (char*)begin + self->_elem_size);
 }
 
 void vec_set_one(vec* restrict self, void* pos, const void* restrict src)
-- 
2.43.0


From 5e6d64cf92aef3f26e2cf3222a5a4f33acf86fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 06/59] fix: vec_resize_and_zero left stale contents when no
 reallocation was needed

---
 util/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 778c7e3..6539524 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -82,9 +82,8 @@ void vec_resize(vec* restrict self, size_t size)
 void vec_resize_and_zero(vec* restrict self, size_t size)
 {
 	size_t org_size = self->size;
-	size_t org_alloc = self->_alloc;
 	vec_resize(self, size);
-	if (org_alloc == self->_alloc) {
+	if (size <= org_size) {
 		return;
 	}
 	void* new_shit = vec_at(self, org_size);
-- 
2.43.0


From 4f01b0ebbc3a0424d949f84bef84870fde5320bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 07/59] fix: inserting or erasing no elements by index moved
 the array by a wrapped count

---
 util/vec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/vec.c b/util/vec.c
index 6539524..3979563 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -184,6 +184,9 @@ void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 
 void vec_insert_at(vec* restrict self, size_t idx, const void* begin, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* pos = vec_at(self, idx);
 	const void* back = (const char*)begin + ((len - 1) * self->_elem_size);
 	vec_insert_iter(self, pos, begin, back);
@@ -212,6 +215,9 @@ void vec_erase_one(vec* restrict self, void* elem)
 
 void vec_erase_at(vec* restrict self, size_t index, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* begin = vec_at(self, index);
 	const void* back = vec_at(self, index + len - 1);
 	vec_erase_iter(self, begin, back);
-- 
2.43.0


From f8dddcbc89459ae4729c166de5a1a55ca7f12616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 08/59] fix: bounded string reads looked at the byte behind the
 bound

---
 util/stringy.c | 2 +-
 util/util.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..11a0ed7 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,7 +141,7 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
diff --git a/util/util.c b/util/util.c
index 5a35710..0d14a55 100644
--- a/util/util.c
+++ b/util/util.c
@@ -53,7 +53,7 @@ int charncount(const char* restrict s, char c, unsigned n)
 {
 	int count = 0;
 	unsigned i = 0;
-	for(; s[i] != '\0' && i < n; ++i)
+	for(; i < n && s[i] != '\0'; ++i)
 		if (s[i] == c)
 			++count;
 
-- 
2.43.0


From da487a0b97b86520f7fbd2024515b065acea5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 09/59] fix: replacing an empty text in a string never ended

---
 util/stringy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/stringy.c b/util/stringy.c
index 11a0ed7..c81a2c6 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -210,6 +210,9 @@ const char* string_find_replace_one_limited(string* restrict s,
                                             unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 	char* pos = memmem(begin, s->size - begin_idx, oldstr, oldlen);
 
@@ -274,6 +277,9 @@ const char* string_find_replace_one_nocase_limited(string* restrict s,
                                                    unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 
 	/* We will assume oldstr is null terminated.
-- 
2.43.0


From 7200c6cc940ff3aab98b8376199895d90965f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 10/59] fix: comparing texts stopped at an embedded NUL byte

---
 util/stringview.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/util/stringview.c b/util/stringview.c
index fb39016..08763cb 100644
--- a/util/stringview.c
+++ b/util/stringview.c
@@ -26,20 +26,25 @@ void stringview_set_string(stringview* restrict sv, string* restrict s)
 int stringview_compare_nocase(const stringview* restrict sv0,
                               const stringview* restrict sv1)
 {
-	int len = (sv0->len > sv1->len) ? sv1->len : sv0->len;
-	int ret = num_compare_(sv0->len, sv1->len);
-	int maybe_ret = strncasecmp(sv0->data, sv1->data, len);
-	if (maybe_ret) {
-		return maybe_ret;
+	unsigned len = (sv0->len > sv1->len) ? sv1->len : sv0->len;
+	const unsigned char* s0 = (unsigned char*)sv0->data;
+	const unsigned char* s1 = (unsigned char*)sv1->data;
+	int ret = 0;
+	unsigned i = 0;
+	for (; ret == 0 && i < len; ++i) {
+		ret = tolower(s0[i]) - tolower(s1[i]);
 	}
-	return ret;
+	if (ret) {
+		return ret;
+	}
+	return num_compare_(sv0->len, sv1->len);
 }
 
 int stringview_compare(const stringview* restrict sv0, const stringview* restrict sv1)
 {
-	int len = (sv0->len > sv1->len) ? sv1->len : sv0->len;
+	unsigned len = (sv0->len > sv1->len) ? sv1->len : sv0->len;
 	int ret = num_compare_(sv0->len, sv1->len);
-	int maybe_ret = strncmp(sv0->data, sv1->data, len);
+	int maybe_ret = (len) ? memcmp(sv0->data, sv1->data, len) : 0;
 	if (maybe_ret) {
 		return maybe_ret;
 	}
-- 
2.43.0


From a6e895536e34c3491df2e5fc2498b5697335290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 11/59] fix: a NULL in an IN list ended the search for a match

---
 lib/fqllogic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6090b63..0b33ff6 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -184,8 +184,8 @@ int fql_logic_in_i(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		long n1 = 0;
-		try_logic_deref_(expression_get_int(&n1, *it, rg));
-		if (n0 == n1) {
+		int ret = try_(expression_get_int(&n1, *it, rg));
+		if (ret != FQL_NULL && n0 == n1) {
 			return true;
 		}
 	}
@@ -202,8 +202,8 @@ int fql_logic_in_f(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		double n1 = 0;
-		try_logic_deref_(expression_get_float(&n1, *it, rg));
-		if (n1 == n0) {
+		int ret = try_(expression_get_float(&n1, *it, rg));
+		if (ret != FQL_NULL && n1 == n0) {
 			return true;
 		}
 	}
@@ -220,8 +220,8 @@ int fql_logic_in_s(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		stringview sv1;
-		try_logic_deref_(expression_get_stringview(&sv1, *it, rg));
-		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
+		int ret = try_(expression_get_stringview(&sv1, *it, rg));
+		if (ret != FQL_NULL && !stringview_compare_nocase_rtrim(&sv0, &sv1)) {
 			return true;
 		}
 	}
-- 
2.43.0


From 865f9846cb2c989dc79f15df190672defe4ad8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 12/59] fix: LIKE matched against a pattern that failed to
 compile

---
 lib/fqllogic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 0b33ff6..d07d047 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -258,7 +258,7 @@ int fql_logic_like(logic* self, node* rg)
 	if (self->expr[1]->expr != EXPR_CONST) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
-		like_to_regex(self->like_data, sv1);
+		try_(like_to_regex(self->like_data, sv1));
 	}
 	int match_ret = pcre2_match(self->like_data->regex,
 	                            (PCRE2_SPTR)sv0.data,
-- 
2.43.0


From 8429dac7a0bb276277ac20263ce38d6706b0acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 13/59] fix: LIKE with a varying pattern leaked and reused the
 previous row's pattern

---
 lib/like.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/like.c b/lib/like.c
index 3d16bd0..b570f2c 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -113,6 +113,18 @@ int like_to_regex(like* self, const stringview sql_like)
 {
 	//fprintf(stderr, "LIKE: %.*s\n", sql_like.len, sql_like.data);
 
+	/* a new pattern replaces the previous one */
+	if (self->regex != NULL) {
+		pcre2_match_data_free(self->match);
+		pcre2_code_free(self->regex);
+		self->regex = NULL;
+	}
+	string* it = vec_begin(&self->ranges);
+	for (; it != vec_end(&self->ranges); ++it) {
+		string_destroy(it);
+	}
+	vec_clear(&self->ranges);
+
 	string* likebuf = &self->like_buffer;
 	string_copy_from_stringview(likebuf, &sql_like);
 	string_find_replace(likebuf, "\\", "\\\\");
-- 
2.43.0


From fa8c34d5b147d1148fb5cfb45c29921f686b3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:02 +0000
Subject: [PATCH 14/59] fix: adding two and subtracting the smallest integer
 overflowed silently

---
 lib/misc.h | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index 60d8c4e..a1bf07f 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -37,34 +37,22 @@
 
 #define overflow_safe_add_i(n0_, n1_)                                    \
 	({                                                               \
-		if (n0_ > 0 && n1_ > 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)n1_           \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ < 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)-n1_  \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long result_ = 0;                                        \
+		if (__builtin_add_overflow(n0_, n1_, &result_)) {        \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ + n1_;                                               \
+		result_;                                                 \
 	})
 
 #define overflow_safe_minus_i(n0_, n1_)                                  \
 	({                                                               \
-		if (n0_ > 0 && n1_ < 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)-n1_          \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ > 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)n1_   \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long result_ = 0;                                        \
+		if (__builtin_sub_overflow(n0_, n1_, &result_)) {        \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ - n1_;                                               \
+		result_;                                                 \
 	})
 
 #define overflow_safe_multiply_i(n0_, n1_)                               \
-- 
2.43.0


From c7704f8f7333fd07a61b8ddc77104a3e46329932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:02 +0000
Subject: [PATCH 15/59] fix: multiplying the smallest integer relied on
 undefined signed overflow

---
 lib/misc.h | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index a1bf07f..67466a7 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -57,29 +57,12 @@
 
 #define overflow_safe_multiply_i(n0_, n1_)                               \
 	({                                                               \
-		unsigned long u0_ = 0;                                   \
-		unsigned long u1_ = 0;                                   \
-		bool neg_ = false;                                       \
-		if (n0_ < 0) {                                           \
-			u0_ = n0_ * -1;                                  \
-			neg_ = true;                                     \
-		} else {                                                 \
-			u0_ = n0_;                                       \
-		}                                                        \
-		if (n1_ < 0) {                                           \
-			u1_ = n1_ * -1;                                  \
-			neg_ = !neg_;                                    \
-		} else {                                                 \
-			u1_ = n1_;                                       \
-		}                                                        \
-		unsigned long result_ = u0_ * u1_;                       \
-		if (u0_ != 0                                             \
-		    && (result_ / u0_ != u1_                             \
-		        || result_ > (unsigned long)LONG_MAX + neg_)) {  \
+		long result_ = 0;                                        \
+		if (__builtin_mul_overflow(n0_, n1_, &result_)) {        \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		(neg_) ? -1 * result_ : result_;                         \
+		result_;                                                 \
 	})
 
 #endif /* MISC_H */
-- 
2.43.0


From 2f27e438d4f2f3876fce585f338bd564170898cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:02 +0000
Subject: [PATCH 16/59] fix: integer division and remainder trapped on zero and
 on LONG_MIN by -1

---
 lib/scalarfn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..a3c0ea4 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -485,6 +485,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -516,7 +521,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* the remainder of LONG_MIN and -1 traps as its quotient overflows */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 9678fa8cd5f396cbeba7a982510947c33dc109dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:15 +0000
Subject: [PATCH 17/59] fix: failing to rewind or pre-read an input was ignored

---
 lib/fqlplan.c      |  5 +++--
 lib/fqlprocesses.c |  8 ++++++--
 lib/reader.c       |  2 +-
 lib/schema.c       | 11 ++++++++---
 lib/subquery.c     |  2 +-
 lib/table.c        | 33 +++++++++++++++++++++------------
 lib/table.h        |  2 +-
 7 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..72e2568 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -377,9 +377,10 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			join_proc->has_second_input = true;
 
 			if (table_iter->is_stdin) {
-				reader_start_file_backed_input(table_iter->reader);
+				try_(reader_start_file_backed_input(
+				        table_iter->reader));
 			}
-			table_hash_join_init(table_iter);
+			try_(table_hash_join_init(table_iter));
 
 			process* read_proc = NULL;
 			dnode* read_node = NULL;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..b695424 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -337,7 +337,9 @@ enum proc_return fql_cartesian_join(process* proc)
 			break;
 		}
 		default: { /* eof */
-			reader->reset__(reader);
+			if (reader->reset__(reader) == FQL_FAIL) {
+				return PROC_RETURN_FAIL;
+			}
 			fifo_consume(in_left);
 			fqlprocess_recycle(proc, iter_left);
 			iter_left = fifo_peek(in_left);
@@ -453,7 +455,9 @@ enum proc_return fql_hash_join(process* proc)
 		if (fifo_is_empty(in_right)) {
 			if (!in_right->is_open) {
 				hj->state = SIDE_LEFT;
-				table->reader->reset__(table->reader);
+				if (table->reader->reset__(table->reader) == FQL_FAIL) {
+					return PROC_RETURN_FAIL;
+				}
 				return PROC_RETURN_RUNNING;
 			}
 			return PROC_RETURN_WAIT_ON_IN1;
diff --git a/lib/reader.c b/lib/reader.c
index 82372e9..744cdf5 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -106,7 +106,7 @@ int reader_reopen(reader* self)
 		return FQL_FAIL;
 	}
 
-	self->reset__(self);
+	try_(self->reset__(self));
 
 	return FQL_GOOD;
 }
diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..89884b6 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -558,11 +558,16 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 	rg.data = rec;
 
 	table->reader->max_idx = INT_MAX;
-	table->reader->get_record__(table->reader, &rg);
+	int ret = table->reader->get_record__(table->reader, &rg);
 	table->reader->max_idx = 0;
 
-	if (!table->is_stdin) {
-		table->reader->reset__(table->reader);
+	if (ret != FQL_FAIL && !table->is_stdin) {
+		ret = table->reader->reset__(table->reader);
+	}
+
+	if (ret == FQL_FAIL) {
+		delete_(record, rec);
+		return FQL_FAIL;
 	}
 
 	/* if we've made it this far, we want to try
diff --git a/lib/subquery.c b/lib/subquery.c
index cfa7347..1b30282 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -146,7 +146,7 @@ int subquery_reset_from_join(reader* reader)
 
 int subquery_start_file_backed_input(reader* reader)
 {
-	reader_start_file_backed_input(reader);
+	try_(reader_start_file_backed_input(reader));
 	reader->subquery_writer = csv_writer_new();
 	csv_writer_set_delim(reader->subquery_writer, "|");
 	reader->reset__ = &subquery_reset_from_join;
diff --git a/lib/table.c b/lib/table.c
index d16a2c7..c98a266 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -149,9 +149,8 @@ void hashjoin_reset(struct hashjoin* join)
 /* The sole purpose of this function is to derive a good
  * starting size for the hashmap that will avoid resizing.
  */
-size_t _guess_row_count(table* self)
+int _guess_row_count(table* self, size_t* guess)
 {
-	size_t guess = 0;
 	size_t total_length = 0;
 
 	reader* reader = self->reader;
@@ -163,8 +162,10 @@ size_t _guess_row_count(table* self)
 	rg.data = new_(record, 0);
 
 	int i = 0;
+	int ret = FQL_GOOD;
 	for (; i < 10; ++i) {
-		if (reader->get_record__(reader, &rg) != FQL_GOOD) {
+		ret = reader->get_record__(reader, &rg);
+		if (ret != FQL_GOOD) {
 			break;
 		}
 		/* ignore header */
@@ -174,31 +175,37 @@ size_t _guess_row_count(table* self)
 		}
 	}
 
-	if (i == 0) {
-		return HASH_JOIN_MIN_SIZE;
-	}
-
 	delete_(record, rg.data);
 
 	reader->max_idx = max_expr_store;
 
+	if (ret == FQL_FAIL) {
+		return FQL_FAIL;
+	}
+
+	if (i == 0) {
+		*guess = HASH_JOIN_MIN_SIZE;
+		return FQL_GOOD;
+	}
+
 	double avg_len = total_length / (double)i - 1;
 	if (avg_len < 1)
 		avg_len = 1;
 
 	size_t file_size = reader_get_file_size(reader);
-	reader->reset__(reader);
+	try_(reader->reset__(reader));
 
-	guess = file_size / avg_len;
+	*guess = file_size / avg_len;
+	*guess = (*guess < HASH_JOIN_MIN_SIZE) ? HASH_JOIN_MIN_SIZE : *guess + 1;
 
-	return (guess < HASH_JOIN_MIN_SIZE) ? HASH_JOIN_MIN_SIZE : guess + 1;
+	return FQL_GOOD;
 }
 
-void table_hash_join_init(table* self)
+int table_hash_join_init(table* self)
 {
 	size_t guessed_row_count = HASH_JOIN_MIN_SIZE;
 	if (!self->is_stdin && self->subquery == NULL) {
-		guessed_row_count = _guess_row_count(self);
+		try_(_guess_row_count(self, &guessed_row_count));
 	}
 
 	struct hashjoin* join = self->join_data;
@@ -214,4 +221,6 @@ void table_hash_join_init(table* self)
 		                         guessed_row_count * 2,
 		                         HASHMAP_PROP_DEFAULT);
 	}
+
+	return FQL_GOOD;
 }
diff --git a/lib/table.h b/lib/table.h
index 9d6a437..f765422 100644
--- a/lib/table.h
+++ b/lib/table.h
@@ -60,6 +60,6 @@ typedef struct hashjoin hashjoin;
 struct hashjoin* hashjoin_construct(struct hashjoin*);
 void hashjoin_destroy(struct hashjoin*);
 void hashjoin_reset(struct hashjoin*);
-void table_hash_join_init(struct table*);
+int table_hash_join_init(struct table*);
 
 #endif /* TABLE_H */
-- 
2.43.0


From ddef6fe013f0a88ebacb44445ea0d6b0f8b3987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 18/59] fix: failing to write the header row was ignored

---
 lib/fqldelete.c |  8 +++++---
 lib/fqldelete.h |  2 +-
 lib/fqlselect.c | 19 ++++++++++++-------
 lib/fqlselect.h |  2 +-
 lib/fqlupdate.c |  8 +++++---
 lib/fqlupdate.h |  2 +-
 lib/operation.c |  9 +++------
 7 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 912d5a8..5eeb150 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -104,10 +104,10 @@ int fqldelete_apply_process(query* query, plan* plan)
 	return FQL_GOOD;
 }
 
-void fqldelete_preop(fqldelete* self, query* query)
+int fqldelete_preop(fqldelete* self, query* query)
 {
 	if (!self->schema->is_default) {
-		return;
+		return FQL_GOOD;
 	}
 
 	vec header;
@@ -130,13 +130,15 @@ void fqldelete_preop(fqldelete* self, query* query)
 		vec_push_back(&header, &field_expr);
 	}
 
-	self->writer->write_record__(self->writer, &header, NULL, NULL);
+	int ret = self->writer->write_record__(self->writer, &header, NULL, NULL);
 
 	it = vec_begin(&header);
 	for (; it != vec_end(&header); ++it) {
 		delete_(expression, *it);
 	}
 	vec_destroy(&header);
+
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
 }
 
 int _delete_writer(fqldelete* self, node* rg)
diff --git a/lib/fqldelete.h b/lib/fqldelete.h
index 24b7a6a..7b07d12 100644
--- a/lib/fqldelete.h
+++ b/lib/fqldelete.h
@@ -31,7 +31,7 @@ void fqldelete_destroy(struct fqldelete*);
 int fqldelete_reset(struct fqldelete*);
 
 int fqldelete_apply_process(struct query*, struct fqlplan*);
-void fqldelete_preop(struct fqldelete*, struct query*);
+int fqldelete_preop(struct fqldelete*, struct query*);
 
 
 #endif  /* FQLDELETE_H */
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..c6bcd24 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -352,14 +352,14 @@ void _preop_build_header(fqlselect* self, query* query)
 }
 
 
-void fqlselect_preop(fqlselect* self, query* query)
+int fqlselect_preop(fqlselect* self, query* query)
 {
 	self->_union_node = self->union_selects;
 
 	if (self->schema->write_io_type != IO_LIBCSV
 	    || (!self->schema->is_default && !query->fqlref->props.add_header)
 	    || (self->schema->is_default && !query->fqlref->props.print_header)) {
-		return;
+		return FQL_GOOD;
 	}
 
 	if (self->header_as_exprs == NULL) {
@@ -368,13 +368,18 @@ void fqlselect_preop(fqlselect* self, query* query)
 
 	writer* writer = self->writer;
 	if (query->orderby != NULL) {
-		writer->write_record__(writer,
-		                       self->header_as_exprs,
-		                       NULL,
-		                       query->orderby->out_file);
+		try_(writer->write_record__(writer,
+		                            self->header_as_exprs,
+		                            NULL,
+		                            query->orderby->out_file));
 	} else {
-		writer->write_record__(writer, self->header_as_exprs, NULL, NULL);
+		try_(writer->write_record__(writer,
+		                            self->header_as_exprs,
+		                            NULL,
+		                            NULL));
 	}
+
+	return FQL_GOOD;
 }
 
 int _select_record(fqlselect* self, node* rg)
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..0c0f347 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -48,6 +48,6 @@ int fqlselect_resolve_final_types(struct fqlselect*);
 void fqlselect_verify_must_run(struct fqlselect*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
-void fqlselect_preop(struct fqlselect*, struct query*);
+int fqlselect_preop(struct fqlselect*, struct query*);
 
 #endif /* SELECT_H */
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 86551c2..4caa22a 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -147,10 +147,10 @@ int fqlupdate_apply_process(query* query, plan* plan)
 	return FQL_GOOD;
 }
 
-void fqlupdate_preop(fqlupdate* self, query* query)
+int fqlupdate_preop(fqlupdate* self, query* query)
 {
 	if (!self->schema->is_default) {
-		return;
+		return FQL_GOOD;
 	}
 
 	vec header;
@@ -169,13 +169,15 @@ void fqlupdate_preop(fqlupdate* self, query* query)
 		vec_push_back(&header, &field_expr);
 	}
 
-	self->writer->write_record__(self->writer, &header, NULL, NULL);
+	int ret = self->writer->write_record__(self->writer, &header, NULL, NULL);
 
 	it = vec_begin(&header);
 	for (; it != vec_end(&header); ++it) {
 		delete_(expression, *it);
 	}
 	vec_destroy(&header);
+
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
 }
 
 /* At this point, the update expressions represent the output
diff --git a/lib/fqlupdate.h b/lib/fqlupdate.h
index 82c5cf6..6d250e5 100644
--- a/lib/fqlupdate.h
+++ b/lib/fqlupdate.h
@@ -39,7 +39,7 @@ int fqlupdate_reset(struct fqlupdate*);
 int fqlupdate_add_expression(struct fqlupdate*, const struct expression*);
 int fqlupdate_resolve_additional(struct fqlupdate*, struct query*);
 int fqlupdate_apply_process(struct query*, struct fqlplan*);
-void fqlupdate_preop(struct fqlupdate*, struct query*);
+int fqlupdate_preop(struct fqlupdate*, struct query*);
 
 /* operation.c? */
 int fqlupdate_resolve_final_types(struct fqlupdate*);
diff --git a/lib/operation.c b/lib/operation.c
index 818651e..50783b8 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -222,14 +222,11 @@ int op_preop(query* query)
 		fqlbranch_preop(query->op, query);
 		break;
 	case FQL_SELECT:
-		fqlselect_preop(query->op, query);
-		break;
+		return fqlselect_preop(query->op, query);
 	case FQL_DELETE:
-		fqldelete_preop(query->op, query);
-		break;
+		return fqldelete_preop(query->op, query);
 	case FQL_UPDATE:
-		fqlupdate_preop(query->op, query);
-		break;
+		return fqlupdate_preop(query->op, query);
 	case FQL_NONE:;
 	}
 
-- 
2.43.0


From 81274e45d18f94e3ff089379f407f9b203958e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:10 +0000
Subject: [PATCH 19/59] fix: an expression that cannot be planned or resolved
 was carried on with

---
 lib/fqlplan.c  | 82 +++++++++++++++++++++++++++++---------------------
 lib/function.c |  4 +--
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 72e2568..0a178f3 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -90,7 +90,7 @@ void plan_destroy(void* generic_plan)
 	delete_(vec, self->_root_data);
 }
 
-void _check_all_for_special_expression(plan* self, process* proc, vec* expressions);
+int _check_all_for_special_expression(plan* self, process* proc, vec* expressions);
 int _build(query*, fqlhandle*, dnode* entry, bool is_union);
 void _print_plan(plan*);
 void _activate_procs(plan*, fqlhandle*);
@@ -137,10 +137,10 @@ void plan_pipeline_root_preempt(plan* self)
 	}
 }
 
-void _check_for_special_expression(plan* self, process* proc, expression* expr)
+int _check_for_special_expression(plan* self, process* proc, expression* expr)
 {
 	if (expr == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 
 	switch (expr->expr) {
@@ -150,30 +150,37 @@ void _check_for_special_expression(plan* self, process* proc, expression* expr)
 	case EXPR_SWITCH_CASE: {
 		logicgroup** it = vec_begin(&expr->field.sc->tests);
 		for (; it != vec_end(&expr->field.sc->tests); ++it) {
-			plan_logic_to_process(self, proc, *it);
+			try_(plan_logic_to_process(self, proc, *it));
 		}
-		_check_all_for_special_expression(self, proc, &expr->field.sc->values);
-
-		break;
+		return _check_all_for_special_expression(self,
+		                                         proc,
+		                                         &expr->field.sc->values);
 	}
 	case EXPR_AGGREGATE:
-		_check_all_for_special_expression(self, proc, expr->field.agg->args);
-		break;
+		return _check_all_for_special_expression(self,
+		                                         proc,
+		                                         expr->field.agg->args);
 	case EXPR_FUNCTION:
-		_check_all_for_special_expression(self, proc, expr->field.fn->args);
-		break;
+		return _check_all_for_special_expression(self,
+		                                         proc,
+		                                         expr->field.fn->args);
 	default:;
 	}
+
+	return FQL_GOOD;
 }
-void _check_all_for_special_expression(plan* self, process* proc, vec* expressions)
+
+int _check_all_for_special_expression(plan* self, process* proc, vec* expressions)
 {
 	if (expressions == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
-		_check_for_special_expression(self, proc, *it);
+		try_(_check_for_special_expression(self, proc, *it));
 	}
+
+	return FQL_GOOD;
 }
 
 int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
@@ -228,12 +235,12 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 			if (lg->condition->in_data && lg->condition->in_data->subquery) {
 				try_(_subquery_inlist(self, logic_proc, lg));
 			}
-			_check_for_special_expression(self,
-			                              logic_proc,
-			                              lg->condition->expr[0]);
-			_check_for_special_expression(self,
-			                              logic_proc,
-			                              lg->condition->expr[1]);
+			try_(_check_for_special_expression(self,
+			                                   logic_proc,
+			                                   lg->condition->expr[0]));
+			try_(_check_for_special_expression(self,
+			                                   logic_proc,
+			                                   lg->condition->expr[1]));
 			try_(logic_assign_process(lg->condition, logic_proc));
 		}
 		break;
@@ -471,7 +478,7 @@ int _where(plan* self, query* query)
 /* NOTE: If there is a grouping, the grouping becomes the
  *       one and only source. hence source_count = 1...
  */
-void _group(plan* self, query* query)
+int _group(plan* self, query* query)
 {
 	if (query->groupby != NULL && self->loose_groups) {
 		delete_if_exists_(distinct, query->distinct);
@@ -480,9 +487,6 @@ void _group(plan* self, query* query)
 	}
 	if (query->groupby != NULL) {
 		process* group_proc = new_(process, "GROUP BY ", self);
-		_check_all_for_special_expression(self,
-		                                  group_proc,
-		                                  &query->groupby->expressions);
 		self->source_count = 1;
 		group_proc->out_src_count = 1;
 		process* true_proc = self->op_true->data;
@@ -498,6 +502,9 @@ void _group(plan* self, query* query)
 		group_node->is_root = true;
 		self->current->out[0] = group_node;
 		self->current = group_node;
+		try_(_check_all_for_special_expression(self,
+		                                       group_proc,
+		                                       &query->groupby->expressions));
 	}
 
 	if (query->distinct) {
@@ -509,6 +516,8 @@ void _group(plan* self, query* query)
 		self->current->out[0] = group_node;
 		self->current = group_node;
 	}
+
+	return FQL_GOOD;
 }
 
 int _having(plan* self, query* query)
@@ -543,15 +552,15 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 
 	try_(op_apply_process(query, self, (is_union || entry != NULL)));
 
-	_check_all_for_special_expression(self,
-	                                  self->op_true->data,
-	                                  op_get_expressions(query->op));
+	try_(_check_all_for_special_expression(self,
+	                                       self->op_true->data,
+	                                       op_get_expressions(query->op)));
 
 	vec* op_add_exprs = op_get_additional_exprs(query->op);
 	if (op_add_exprs != NULL) {
-		_check_all_for_special_expression(self,
-		                                  self->op_true->data,
-		                                  op_add_exprs);
+		try_(_check_all_for_special_expression(self,
+		                                       self->op_true->data,
+		                                       op_add_exprs));
 	}
 
 	if (entry == NULL) {
@@ -586,13 +595,12 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	return FQL_GOOD;
 }
 
-void _order(plan* self, query* query)
+int _order(plan* self, query* query)
 {
 	if (query->orderby == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 	process* order_proc = new_(process, "ORDER BY ", self);
-	_check_all_for_special_expression(self, order_proc, &query->orderby->expressions);
 	order_proc->action__ = &fql_orderby;
 	order_proc->proc_data = query->orderby;
 	order_cat_description(query->orderby, order_proc);
@@ -600,6 +608,10 @@ void _order(plan* self, query* query)
 	self->current->out[0] = order_node;
 	self->current = order_node;
 	self->op_true = order_node;
+
+	return _check_all_for_special_expression(self,
+	                                         order_proc,
+	                                         &query->orderby->expressions);
 }
 
 /* In an effort to make building of the process graph easier
@@ -807,7 +819,7 @@ int _build(query* aquery, fqlhandle* fql, dnode* entry, bool is_union)
 	/* aquery */
 	try_(_from(self, aquery, fql));
 	try_(_where(self, aquery));
-	_group(self, aquery);
+	try_(_group(self, aquery));
 	try_(_having(self, aquery));
 	try_(_operation(self, aquery, fql, entry, is_union));
 
@@ -817,7 +829,7 @@ int _build(query* aquery, fqlhandle* fql, dnode* entry, bool is_union)
 	_clear_passive(self);
 	dgraph_get_roots(self->processes);
 	try_(_union(self, aquery, fql));
-	_order(self, aquery);
+	try_(_order(self, aquery));
 
 	_clear_passive(self);
 	dgraph_get_roots(self->processes);
diff --git a/lib/function.c b/lib/function.c
index f06a734..73979c7 100644
--- a/lib/function.c
+++ b/lib/function.c
@@ -210,10 +210,10 @@ int function_op_resolve(function* self, enum field_type* type)
 	}
 
 	if (expr0->expr == EXPR_AGGREGATE) {
-		aggregate_resolve(expr0->field.agg, expr0);
+		try_(aggregate_resolve(expr0->field.agg, expr0));
 	}
 	if (expr1->expr == EXPR_AGGREGATE) {
-		aggregate_resolve(expr1->field.agg, expr1);
+		try_(aggregate_resolve(expr1->field.agg, expr1));
 	}
 
 	*type = field_determine_type(expr0->field_type, expr1->field_type);
-- 
2.43.0


From d2b7f3fe91d92d1575bf515b2efee2296fa68385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 20/59] fix: an ambiguous SET column was reported and then used

---
 lib/fqlupdate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 4caa22a..748482d 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -212,6 +212,7 @@ int fqlupdate_resolve_additional(fqlupdate* self, query* query)
 			fprintf(stderr,
 			        "ambiguous column name `%s'\n",
 			        string_c_str(&(*update_col)->name));
+			return FQL_FAIL;
 		}
 
 		expression** match_schema_expr = vec_begin(matches);
-- 
2.43.0


From fdcbeea593199ac343f7183214e4d8d14249d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 21/59] fix: failures while building, resetting or stepping a
 query were ignored

---
 lib/antlr/listenerinterface.cpp | 12 +++++++++---
 lib/fqlprocesses.c              |  4 +++-
 lib/libfql.c                    |  5 ++++-
 lib/query.c                     | 17 ++++++++---------
 lib/query.h                     |  4 ++--
 lib/variable.c                  |  6 +++---
 lib/variable.h                  |  2 +-
 7 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 18cc1d3..215ae7b 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -673,7 +673,9 @@ void ListenerInterface::enterDelete_statement(TSqlParser::Delete_statementContex
 
 void ListenerInterface::exitDelete_statement(TSqlParser::Delete_statementContext * ctx)
 {
-	query_exit_non_select_op(_query);
+	if (query_exit_non_select_op(_query)) {
+		_set_failure();
+	}
 }
 
 void ListenerInterface::enterDelete_statement_from(TSqlParser::Delete_statement_fromContext * ctx)
@@ -700,7 +702,9 @@ void ListenerInterface::enterUpdate_statement(TSqlParser::Update_statementContex
 void ListenerInterface::exitUpdate_statement(TSqlParser::Update_statementContext * ctx)
 {
 	_tok_type = TOK_UNDEFINED;
-	query_exit_non_select_op(_query);
+	if (query_exit_non_select_op(_query)) {
+		_set_failure();
+	}
 }
 
 void ListenerInterface::enterUpdate_elem(TSqlParser::Update_elemContext * ctx) { }
@@ -860,7 +864,9 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 
 	/* subquery as constant */
 	if (_query->in_bracket_expression) {
-		query_add_subquery_const(_query, _subquery);
+		if (query_add_subquery_const(_query, _subquery)) {
+			_set_failure();
+		}
 	}
 }
 
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index b695424..25524c2 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -171,7 +171,9 @@ enum proc_return fql_set(process* proc)
 	variable* var = vec_at(proc->fql_ref->variables, declstmt->variable_idx);
 
 	if (declstmt->init_expr == NULL) {
-		variable_reset(var);
+		if (variable_reset(var) == FQL_FAIL) {
+			return PROC_RETURN_FAIL;
+		}
 		return PROC_RETURN_COMPLETE;
 	}
 
diff --git a/lib/libfql.c b/lib/libfql.c
index 1a10fa8..9207f09 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -648,7 +648,10 @@ int fql_step(fqlhandle* fql, struct fql_field** fields)
 	int ret = 0;
 	if (!plan->has_stepped) {
 		if (vec_empty(fql->api_vec)) {
-			_api_connect(fql);
+			ret = _api_connect(fql);
+			if (ret == FQL_FAIL) {
+				goto _step_fail_break;
+			}
 		}
 		plan->has_stepped = true;
 
diff --git a/lib/query.c b/lib/query.c
index f8e515b..2af15e1 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -127,7 +127,7 @@ int query_preflight(query* self, bool has_executed)
 		int* var_idx = vec_at(self->variable_expr_indicies, i);
 		expression** var_expr = vec_at(self->variable_expressions, i);
 		variable* var = vec_at(self->fqlref->variables, *var_idx);
-		expression_set_variable(*var_expr, var);
+		try_(expression_set_variable(*var_expr, var));
 	}
 
 	for (i = 0; i < self->variable_table_indicies->size; ++i) {
@@ -160,7 +160,7 @@ int query_preflight(query* self, bool has_executed)
 	/* need to reset all readers */
 	table* table_iter = vec_begin(self->sources);
 	for (; table_iter != vec_end(self->sources); ++table_iter) {
-		table_reset(table_iter, has_executed);
+		try_(table_reset(table_iter, has_executed));
 	}
 
 	try_(group_reset(self->distinct));
@@ -436,7 +436,7 @@ int query_add_asterisk(query* self, const char* table_id)
 	return FQL_GOOD;
 }
 
-void query_add_subquery_const(query* self, query* subquery)
+int query_add_subquery_const(query* self, query* subquery)
 {
 	expression* subquery_expression = new_(expression, EXPR_SUBQUERY, subquery, "");
 	fqlselect* subselect = subquery->op;
@@ -445,7 +445,7 @@ void query_add_subquery_const(query* self, query* subquery)
 		order_set_const_dest(subquery->orderby, subquery_expression);
 	}
 	vec_push_back(self->subquery_const_vec, &subquery);
-	_distribute_expression(self, subquery_expression);
+	return _distribute_expression(self, subquery_expression);
 }
 
 int query_apply_data_type(query* self, const char* type_str)
@@ -870,10 +870,10 @@ int query_set_op_table(query* self, const char* op_table_name)
 	return FQL_GOOD;
 }
 
-void query_exit_non_select_op(query* self)
+int query_exit_non_select_op(query* self)
 {
 	if (!vec_empty(self->sources)) {
-		return;
+		return FQL_GOOD;
 	}
 
 	const char* op_table_name = op_get_table_name(self->op);
@@ -881,9 +881,8 @@ void query_exit_non_select_op(query* self)
 
 	node* fake_source_stack = NULL;
 	node_push(&fake_source_stack, table_name_dup);
-	query_add_source(self, &fake_source_stack, table_name_dup, false);
-
 	/* query_add_source will free the stack and its data */
+	return query_add_source(self, &fake_source_stack, table_name_dup, false);
 }
 
 /** in statement **/
@@ -954,7 +953,7 @@ int query_enter_switch_section(query* self)
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-	_add_logic_expression(self, static_expr_copy);
+	try_(_add_logic_expression(self, static_expr_copy));
 	query_set_logic_comparison(self, "=");
 	return FQL_GOOD;
 }
diff --git a/lib/query.h b/lib/query.h
index 282b590..de6b524 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -220,7 +220,7 @@ int query_add_constant(struct query*, const char*, int);
 int query_add_null_expression(struct query*);
 int query_add_expression(struct query*, char*, const char* table);
 int query_add_asterisk(struct query*, const char* table);
-void query_add_subquery_const(struct query*, struct query*);
+int query_add_subquery_const(struct query*, struct query*);
 int query_apply_data_type(struct query*, const char*);
 
 /* function building */
@@ -256,7 +256,7 @@ int query_exit_union(struct query*, struct query*);
 int query_init_op(struct query*, struct node*, enum fql_operation);
 int query_set_top_count(struct query*, const char*);
 int query_set_op_table(struct query*, const char*);
-void query_exit_non_select_op(struct query*);
+int query_exit_non_select_op(struct query*);
 int query_set_into_table(struct query*, const char*);
 int query_set_into_table_var(struct query*, const char*);
 
diff --git a/lib/variable.c b/lib/variable.c
index ffd3bd6..faa1c3b 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -53,11 +53,11 @@ void variable_clear(variable* self)
 	}
 }
 
-void variable_reset(variable* self)
+int variable_reset(variable* self)
 {
 	if (self->_import_value == NULL) {
 		variable_clear(self);
-		return;
+		return FQL_GOOD;
 	}
 
 	string_copy(self->_data, self->_import_value);
@@ -65,7 +65,7 @@ void variable_reset(variable* self)
 
 	enum sql_type correct_type = self->type;
 	self->type = SQL_VARCHAR;
-	variable_set_type(self, correct_type);
+	return variable_set_type(self, correct_type);
 }
 
 enum field_type variable_get_field_type(enum sql_type sqltype)
diff --git a/lib/variable.h b/lib/variable.h
index c8f91be..51612ca 100644
--- a/lib/variable.h
+++ b/lib/variable.h
@@ -19,7 +19,7 @@ struct variable* variable_construct(struct variable*);
 void variable_destroy(struct variable*);
 
 void variable_clear(struct variable*);
-void variable_reset(struct variable*);
+int variable_reset(struct variable*);
 int variable_set_type(struct variable*, enum sql_type);
 void variable_set_string(struct variable*, const string*);
 void variable_set_stringview(struct variable*, stringview*);
-- 
2.43.0


From 99055d850fde43ff0c22001ddd36ecf426a7bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:46 +0000
Subject: [PATCH 22/59] fix: failing to back a subquery input with a file was
 ignored

---
 lib/fqlplan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 0a178f3..09782d6 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -408,7 +408,8 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				read_node->is_root = true;
 				read_proc->root_fifo = 0;
 			} else { /* SUBQUERY */
-				subquery_start_file_backed_input(table_iter->reader);
+				try_(subquery_start_file_backed_input(
+				        table_iter->reader));
 				read_proc =
 				        new_(process, "subquery file-backed read", self);
 				read_node = dgraph_add_data(self->processes, read_proc);
-- 
2.43.0


From eca342150bd1957291897046ace6c6252264edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 23/59] fix: sorting went on without a temporary file when none
 could be made

---
 lib/operation.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/operation.c b/lib/operation.c
index 50783b8..002f1d0 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -382,9 +382,15 @@ int op_reset(query* query, bool has_executed)
 	if (!query->union_id && query->orderby != NULL) {
 		char* out_name = writer_take_filename(op_writer);
 		const char* in_name = writer_export_temp(op_writer);
-		try_(order_init_io(query->orderby, in_name, out_name));
+		int ret = FQL_FAIL;
+		if (in_name != NULL) {
+			ret = order_init_io(query->orderby, in_name, out_name);
+		}
 		free_(in_name);
 		free_(out_name);
+		if (ret == FQL_FAIL) {
+			return FQL_FAIL;
+		}
 	}
 
 	return FQL_GOOD;
-- 
2.43.0


From 1308d4507028904f07d42d9ea82a3b19e2942de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 24/59] fix: sorting fixed-width output released the writer's
 temporary name twice

---
 lib/fixedwrite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3ae26b6..54058e4 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -135,7 +135,8 @@ const char* _get_filename(fixedwriter* self)
 	if (string_empty(filename)) {
 		return NULL;
 	}
-	return string_c_str(filename);
+	/* the caller frees this */
+	return string_export(filename);
 }
 
 const char* fixedwriter_export_temp(fixedwriter* self)
-- 
2.43.0


From 31bc54e76c7fbc4c70c731b94364cc1d29558e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:05 +0000
Subject: [PATCH 25/59] fix: failures while translating TOP, operators, CASE
 and NULL were ignored

---
 lib/antlr/listenerinterface.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 215ae7b..58051fd 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -239,7 +239,9 @@ void ListenerInterface::exitAsterisk(TSqlParser::AsteriskContext * ctx) { }
 void ListenerInterface::enterColumn_elem(TSqlParser::Column_elemContext * ctx)
 {
 	if (ctx->NULL_()) {
-		query_add_null_expression(_query);
+		if (query_add_null_expression(_query)) {
+			_set_failure();
+		}
 	}
 }
 void ListenerInterface::exitColumn_elem(TSqlParser::Column_elemContext * ctx)
@@ -735,7 +737,9 @@ void ListenerInterface::enterExpression(TSqlParser::ExpressionContext * ctx)
 		return;
 	}
 
-	query_enter_operator(_query, op);
+	if (query_enter_operator(_query, op)) {
+		_set_failure();
+	}
 }
 
 void ListenerInterface::exitExpression(TSqlParser::ExpressionContext * ctx)
@@ -762,7 +766,9 @@ void ListenerInterface::enterPrimitive_expression(TSqlParser::Primitive_expressi
 		return;
 	}
 	if (ctx->NULL_()) {
-		query_add_null_expression(_query);
+		if (query_add_null_expression(_query)) {
+			_set_failure();
+		}
 	}
 }
 void ListenerInterface::exitPrimitive_expression(TSqlParser::Primitive_expressionContext * ctx) { }
@@ -1001,14 +1007,18 @@ void ListenerInterface::exitTop_clause(TSqlParser::Top_clauseContext * ctx)
 void ListenerInterface::enterTop_count(TSqlParser::Top_countContext * ctx)
 {
 	if (ctx->DECIMAL()) {
-		query_set_top_count(_query, ctx->getText().c_str());
+		if (query_set_top_count(_query, ctx->getText().c_str())) {
+			_set_failure();
+		}
 	}
 }
 void ListenerInterface::exitTop_count(TSqlParser::Top_countContext * ctx) { }
 
 void ListenerInterface::enterCase_expression(TSqlParser::Case_expressionContext* ctx)
 {
-	query_enter_case_expression(_query);
+	if (query_enter_case_expression(_query)) {
+		_set_failure();
+	}
 }
 void ListenerInterface::exitCase_expression(TSqlParser::Case_expressionContext* ctx)
 {
@@ -1017,7 +1027,9 @@ void ListenerInterface::exitCase_expression(TSqlParser::Case_expressionContext*
 
 void ListenerInterface::enterSwitch_section(TSqlParser::Switch_sectionContext* ctx)
 {
-	query_enter_switch_section(_query);
+	if (query_enter_switch_section(_query)) {
+		_set_failure();
+	}
 }
 void ListenerInterface::exitSwitch_section(TSqlParser::Switch_sectionContext* ctx)
 {
-- 
2.43.0


From 1d1c2cfe38cb58ee354f35e3e7e30865f78a529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 26/59] fix: a failing variable declaration or column listing
 left a successful exit status

---
 src/fql.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fql.c b/src/fql.c
index dfeec78..aff5824 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -227,6 +227,9 @@ int main(int argc, char** argv)
 
 	struct fql_field* fields = NULL;
 	int field_count = fql_field_count(handle);
+	if (field_count == FQL_FAIL) {
+		goto err_exit;
+	}
 
 	for (int i = 0; i < plan_count; ++i) {
 		int rows = 0;
@@ -282,7 +285,9 @@ void _parse_args(struct fqlhandle* handle, int c)
 		fql_set_dry_run(handle, 1);
 		break;
 	case 'D':
-		fql_import_variable(handle, optarg);
+		if (fql_import_variable(handle, optarg) == FQL_FAIL) {
+			exit(EXIT_FAILURE);
+		}
 		break;
 	case 'h':
 		fql_set_print_header(handle, 0);
-- 
2.43.0


From 189cdbf4f09883c7d1a743bc4a2e1af9d9a2e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 27/59] fix: a long line typed at the prompt overflowed the
 query buffer

---
 src/fql.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fql.c b/src/fql.c
index aff5824..072d44c 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -197,7 +197,9 @@ int main(int argc, char** argv)
 			size_t n = snprintf(NULL, 0, "%s\n%s", query_str, line);
 			running_size += n;
 			if (running_size >= max_size) {
-				max_size *= 2;
+				while (running_size >= max_size) {
+					max_size *= 2;
+				}
 				query_str = realloc(query_str, max_size);
 				if (!query_str) {
 					perror("realloc");
-- 
2.43.0


From ee743e9742f20da85e5587f48c5a9331bc78126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 28/59] fix: a CASE without a matching branch was not NULL to
 its consumer

---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..becd071 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -384,8 +384,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -453,8 +452,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -522,8 +520,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From 315621be3f27b3200d2a50319ae17ff7e0c3d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 29/59] fix: converting a constant to text failed after
 succeeding

---
 lib/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index becd071..996ac8b 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -318,9 +318,9 @@ int expression_cast(expression* self, enum field_type new_type)
 			 * changes... We do the redundant thing...
 			 */
 		string_strncpy(&self->buf, sv.data, sv.len);
+		self->field_type = new_type;
 		self->field.s = &self->buf;
-
-		return FQL_FAIL;
+		break;
 	}
 	default:
 		return FQL_FAIL;
-- 
2.43.0


From 2b31c1a8157f75ed690ac816fb379232fa163485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 30/59] fix: a grouped field its record lacks was an empty
 string instead of NULL

---
 lib/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/expression.c b/lib/expression.c
index 996ac8b..6cf15a4 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -559,7 +559,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			string_clear(&self->buf);
 			ret->data = self->buf.data;
 			ret->len = 0;
-			return FQL_GOOD;
+			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		ret->data = sv->data;
-- 
2.43.0


From 7496fb37a052253fd6af42f23f38a31f90b2b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 31/59] fix: an unsupported RIGHT or FULL JOIN was reported and
 then run as another join

---
 lib/antlr/listenerinterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 58051fd..f427224 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -343,9 +343,11 @@ void ListenerInterface::enterJoin_on(TSqlParser::Join_onContext* ctx)
 	} else if (ctx->RIGHT()) {
 		_query->join = JOIN_RIGHT;
 		std::cerr << "RIGHT JOIN not currently supported, try LEFT JOIN\n";
+		_set_failure();
 	} else if (ctx->FULL()) {
 		_query->join = JOIN_FULL;
 		std::cerr << "FULL JOIN not currently supported, try LEFT JOIN\n";
+		_set_failure();
 	} else {
 		_query->join = JOIN_INNER;
 	}
-- 
2.43.0


From ffdb237f294b39758ffa67b320fcd759f4cebcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 32/59] fix: declaring an imported variable with an unknown
 type relied on a later check

---
 lib/libfql.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 9207f09..71576fa 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -111,12 +111,12 @@ int libfql_set_variable_type(fqlhandle* fql, const char* type_str)
 {
 	variable* var = vec_back(fql->variables);
 
-	try_(variable_set_type(var, libfql_get_sql_type(type_str)));
-
-	if (var->type == SQL_UNDEFINED) {
+	enum sql_type type = libfql_get_sql_type(type_str);
+	if (type == SQL_UNDEFINED) {
 		return FQL_FAIL;
 	}
-	return FQL_GOOD;
+
+	return variable_set_type(var, type);
 }
 
 int libfql_declare_variable(fqlhandle* fql, const char* varname)
-- 
2.43.0


From ef8403c4ac4e6291c8a0afb5e5a6d6e9571e29b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 33/59] fix: redeclaring an imported variable ignored its size
 limit

---
 lib/variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable.c b/lib/variable.c
index faa1c3b..eb02a13 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -144,7 +144,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 			self->_data = new_(string);
 		}
 		stringview sv;
-		if (self->limit != INT_MAX) {
+		if (self->limit == INT_MAX) {
 			try_(field_to_stringview(&sv,
 			                         self->_data,
 			                         &self->value,
-- 
2.43.0


From b7f05b9a91a28d54d7d2114db9c9bb1d04bd5326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 34/59] fix: NOT in front of a predicate or a parenthesized
 condition was ignored

---
 lib/antlr/listenerinterface.cpp |  3 +++
 lib/fqlplan.c                   |  4 ++++
 lib/logic.c                     | 13 +++++++++----
 lib/query.c                     | 18 ++++++++++++++++--
 lib/query.h                     |  2 ++
 5 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index f427224..9039b2a 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -880,6 +880,9 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 
 void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
+	if (ctx->NOT().size() % 2) {
+		query_enter_search_not(_query);
+	}
 	if (ctx->LR_BRACKET() && ctx->RR_BRACKET()) {
 		return;
 	}
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 09782d6..9234090 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -218,6 +218,10 @@ void plan_reset(plan* self)
  */
 int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 {
+	if (lg->negation && lg->type != LG_PREDICATE) {
+		string_strcat(logic_proc->plan_msg, "NOT ");
+	}
+
 	switch (lg->type) {
 	case LG_OR:
 		string_strcat(logic_proc->plan_msg, "OR(");
diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..e8f9367 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -214,21 +214,26 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 
 	/* Check for short circuit */
 	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {
-		return ret;
+		return self->negation ? !ret : ret;
 	}
-	return logicgroup_eval(self->items[1], rg, skip);
+	ret = try_(logicgroup_eval(self->items[1], rg, skip));
+	return self->negation ? !ret : ret;
 }
 
 /* essentially the same as logicgroup_eval.
  * All logic is assumed true except the one provided.
  * the point is to determine if that logic MUST be
- * true for the group to evaluate to true. I believe
- * ignoring negation here is correct. The purpose
+ * true for the group to evaluate to true. Nothing
+ * inside of a negation has to be true. The purpose
  * being, if it must be true, it is a candidate for
  * hash join logic.
  */
 int logic_can_be_false(logicgroup* self, logic* check_logic)
 {
+	if (self->negation) {
+		return 1;
+	}
+
 	if (self->type == LG_PREDICATE) {
 		if (self->condition == check_logic) {
 			return 0;
diff --git a/lib/query.c b/lib/query.c
index 2af15e1..3388632 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -988,7 +988,9 @@ void query_set_logic_comparison(query* self, const char* op)
 void query_set_logic_isnull(query* self, bool negation)
 {
 	logicgroup* lg = self->logic_stack->data;
-	lg->negation = negation;
+	if (negation) {
+		lg->negation = !lg->negation;
+	}
 	logic* logic = lg->condition;
 	logic_set_comparison(logic, "NULL");
 }
@@ -1032,6 +1034,14 @@ void query_enter_search_and(query* self)
 	_add_logic_item(self, LG_AND);
 }
 
+/* NOT applies to whatever logic item comes next, be it
+ * a single predicate or everything inside parentheses.
+ */
+void query_enter_search_not(query* self)
+{
+	self->negate_next_logic = !self->negate_next_logic;
+}
+
 void query_exit_search_item(query* self)
 {
 	_check_for_logic_exit(self, node_pop(&self->logic_stack));
@@ -1040,7 +1050,9 @@ void query_exit_search_item(query* self)
 void query_enter_predicate(query* self, unsigned negation, bool in)
 {
 	logicgroup* lg = _add_logic_item(self, LG_PREDICATE);
-	lg->negation = (negation % 2);
+	if (negation % 2) {
+		lg->negation = !lg->negation;
+	}
 
 	if (in) {
 		query_enter_in_statement(self);
@@ -1213,6 +1225,8 @@ int _distribute_expression(query* self, expression* expr)
 logicgroup* _add_logic_item(query* self, enum logicgroup_type type)
 {
 	logicgroup* lg = new_(logicgroup, type);
+	lg->negation = self->negate_next_logic;
+	self->negate_next_logic = false;
 
 	if (self->logic_stack == NULL) {
 		if (self->mode != MODE_CASE) {
diff --git a/lib/query.h b/lib/query.h
index de6b524..581c035 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -177,6 +177,7 @@ struct query {
 	enum mode mode_store;
 	enum logic_mode logic_mode;
 	enum join_type join;
+	bool negate_next_logic; /* NOT seen before next logic item */
 	bool in_assignment_function;
 	bool in_bracket_expression; /* boolean for whether we are in a
 	                             * bracket expression or not
@@ -277,6 +278,7 @@ void query_set_logic_comparison(struct query*, const char*);
 void query_set_logic_isnull(struct query*, bool negation);
 void query_enter_search_or(struct query*);
 void query_enter_search_and(struct query*);
+void query_enter_search_not(struct query*);
 void query_exit_search_item(struct query*);
 void query_enter_predicate(struct query*, unsigned negation, bool in);
 void query_exit_predicate(struct query*, bool in, bool like);
-- 
2.43.0


From 3a83e84a8814d5d8dbaefbbb0e4b233688e460a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 35/59] fix: DATALENGTH of a NULL number was not NULL

---
 lib/scalarfn.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a3c0ea4..adec8ab 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -160,12 +160,18 @@ int fql_datalength(function* fn, union field* ret, node* rg)
 {
 	expression** arg = vec_begin(fn->args);
 	switch ((*arg)->field_type) {
-	case FIELD_INT:
+	case FIELD_INT: {
+		long n = 0;
+		try_deref_(expression_get_int(&n, *arg, rg));
 		ret->i = sizeof(long);
 		return FQL_GOOD;
-	case FIELD_FLOAT:
+	}
+	case FIELD_FLOAT: {
+		double n = 0;
+		try_deref_(expression_get_float(&n, *arg, rg));
 		ret->i = sizeof(double);
 		return FQL_GOOD;
+	}
 	case FIELD_STRING:
 		break;
 	default:
-- 
2.43.0


From 8ddbac26c402f7aa2f7b73888433b6995950f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 36/59] fix: a NULL of a subquery list matched zero or the
 empty string

---
 lib/fqlselect.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index c6bcd24..96184c3 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -505,19 +505,25 @@ int _select_record_to_list(fqlselect* self, node* rg)
 	switch (expr->field_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, sv.data, sv.len);
 		return 1;
 	}
-- 
2.43.0


From 4b16718042b3b2295b558180fd09d07d44fed587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 37/59] fix: writing all columns of an unmatched outer join row
 crashed

---
 lib/fixedwrite.c  | 5 ++++-
 lib/libcsvwrite.c | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 54058e4..1ea64e6 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -168,8 +168,11 @@ int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outs
 	for (; it != vec_end(expr_vec); ++it) {
 		stringview sv = {NULL, 0};
 		if ((*it)->expr == EXPR_ASTERISK) {
+			/* no record on this side of an outer join */
 			record* rec = node_data_at(rg, (*it)->src_idx);
-			sv = rec->rec_ref;
+			if (rec != NULL) {
+				sv = rec->rec_ref;
+			}
 		} else {
 			if (writer->strict && (*it)->field_type != FIELD_STRING) {
 				try_(expression_type_check(*it, rg));
diff --git a/lib/libcsvwrite.c b/lib/libcsvwrite.c
index c7d7534..178dc8a 100644
--- a/lib/libcsvwrite.c
+++ b/lib/libcsvwrite.c
@@ -34,8 +34,12 @@ int libcsv_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outstream
 			int quote_store = handle->quotes;
 			handle->quotes = QUOTE_NONE;
 			record* rec = node_data_at(rg, exprs[i]->src_idx);
-			struct csv_field field = {rec->rec_ref.data, rec->rec_ref.len};
-			len += csv_write_field(handle, &field);
+			/* no record on this side of an outer join */
+			if (rec != NULL) {
+				struct csv_field field = {rec->rec_ref.data,
+				                          rec->rec_ref.len};
+				len += csv_write_field(handle, &field);
+			}
 			handle->quotes = quote_store;
 		} else {
 			if (writer->strict && exprs[i]->field_type != FIELD_STRING) {
-- 
2.43.0


From 4da676769e16086432ae30e6b525bb5509bb74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 38/59] fix: a NULL expression always gives an empty string
 view

---
 lib/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/expression.c b/lib/expression.c
index 6cf15a4..79596fb 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -514,6 +514,10 @@ int expression_get_float(double* ret, expression* self, node* rg)
 
 int expression_get_stringview(stringview* ret, expression* self, node* rg)
 {
+	/* NULL is an empty view, whichever way it comes about */
+	ret->data = "";
+	ret->len = 0;
+
 	switch (self->expr) {
 	case EXPR_SUBQUERY:
 	case EXPR_NULL:
-- 
2.43.0


From 6bd30ed50602ec2c4b03905fed9a61c9e4b67c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 39/59] fix: stepping over an empty sorted result ends at once

---
 lib/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 1830756..178cbac 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -390,6 +390,7 @@ int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
 	self->sorted = true;
+	self->entry_iter = vec_begin(&self->entries);
 
 	self->fd = open(string_c_str(&self->in_filename), O_RDONLY);
 	if (self->fd == -1) {
@@ -404,6 +405,7 @@ int order_sort(order* self)
 	}
 
 	if (sb.st_size == 0) {
+		close(self->fd);
 		return FQL_GOOD;
 	}
 
@@ -417,7 +419,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From c734c6a1a5c83d4641d0b545874940c7fbb07150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 40/59] fix: TOP with ORDER BY steps over exactly that many
 rows

---
 lib/fqlprocesses.c | 2 +-
 lib/order.c        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 25524c2..bfa9c88 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1346,7 +1346,7 @@ enum proc_return fql_orderby(process* proc)
 			try_(order_sort(order));
 		}
 		int ret = try_(order->select__(order, proc));
-		if (ret == 0 || proc->rows_affected >= order->top_count) {
+		if (ret == 0) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_RUNNING;
diff --git a/lib/order.c b/lib/order.c
index 178cbac..53d97e8 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -308,7 +308,8 @@ int _order_select(order* self, process* proc)
 
 int _order_select_api(order* self, process* proc)
 {
-	if (self->entry_iter == vec_end(&self->entries)) {
+	if (self->entry_iter == vec_end(&self->entries)
+	    || proc->rows_affected >= self->top_count) {
 		return 0;
 	}
 	size_t offset = self->entry_iter->offset;
-- 
2.43.0


From 67d5a0624bf41285421dc8766d9c49119d90cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 41/59] fix: TOP 0 of an aggregate without rows selects no row

---
 lib/fqlprocesses.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index bfa9c88..fa08790 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -827,7 +827,8 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0) {
+		if (select->must_run_once && select->rows_affected == 0
+		    && current_select->top_count > 0) {
 			try_(select->select__(select, NULL));
 			++select->rows_affected;
 			++proc->rows_affected;
-- 
2.43.0


From 9b5adf45e0bef8bb4d037699c2ecc56320cc63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 42/59] fix: give the declared type and limit to the variable
 declared, also when it was imported

---
 lib/fqlhandle.h | 1 +
 lib/libfql.c    | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 0d647aa..208457e 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,6 +24,7 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
+	int declare_idx; /* variable last declared */
 	enum {
 		BRANCH_NO_BRANCH,
 		BRANCH_EXPECT_EXPR,
diff --git a/lib/libfql.c b/lib/libfql.c
index 71576fa..198c896 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -109,7 +109,7 @@ int libfql_get_sql_type(const char* type_str)
 
 int libfql_set_variable_type(fqlhandle* fql, const char* type_str)
 {
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, fql->declare_idx);
 
 	enum sql_type type = libfql_get_sql_type(type_str);
 	if (type == SQL_UNDEFINED) {
@@ -126,6 +126,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 		variable* var = vec_at(fql->variables, *var_idx);
 		if (var->can_be_redeclared) {
 			var->can_be_redeclared = false;
+			fql->declare_idx = *var_idx;
 			return *var_idx;
 		}
 		fprintf(stderr, "variable `%s' already declared\n", varname);
@@ -137,6 +138,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 
 	variable* var = vec_add_one(fql->variables);
 	variable_construct(var);
+	fql->declare_idx = new_var_idx;
 
 	return new_var_idx;
 }
@@ -151,7 +153,7 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 		fprintf(stderr, "invalid size argument(%ld)\n", limit);
 		return FQL_FAIL;
 	}
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, fql->declare_idx);
 	var->limit = limit;
 	return FQL_GOOD;
 }
-- 
2.43.0


From 5ee8996bdb10fbf8c4c1bde145d559528f65fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 43/59] fix: a value converted to BIT becomes 0 or 1

---
 lib/variable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable.c b/lib/variable.c
index eb02a13..7bd0320 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -125,6 +125,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 	case SQL_BIT: {
 		long n = 0;
 		try_(field_to_int(&n, &self->value, &fieldtype));
+		self->value.i = (n != 0);
 		break;
 	}
 	case SQL_INT: {
-- 
2.43.0


From a4baae935ede26b5555eedebbd660e4619d62625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 44/59] fix: an imported variable declared again is not NULL
 and within its limit

---
 lib/variable.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/variable.c b/lib/variable.c
index 7bd0320..0f29558 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -60,11 +60,9 @@ int variable_reset(variable* self)
 		return FQL_GOOD;
 	}
 
-	string_copy(self->_data, self->_import_value);
-	self->value.s = self->_data;
-
 	enum sql_type correct_type = self->type;
 	self->type = SQL_VARCHAR;
+	variable_set_string(self, self->_import_value);
 	return variable_set_type(self, correct_type);
 }
 
-- 
2.43.0


From def1e0f708448f1714e682a7337d9c21feb5236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 45/59] fix: a pipe factor outside its limits was stored
 although the limit was reported as applied

---
 lib/libfql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 198c896..96495e0 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -361,7 +361,7 @@ void fql_set_pipe_factor(fqlhandle* fql, int pipe_factor)
 		applied_pipe_factor = PIPE_FACTOR_MAX;
 	}
 
-	fql->props.pipe_factor = pipe_factor;
+	fql->props.pipe_factor = applied_pipe_factor;
 	if (applied_pipe_factor != pipe_factor) {
 		fprintf(stderr,
 		        "Invalid pipe factor `%d'. Applied `%d'\n",
-- 
2.43.0


From a7e315ea17bf08ddbfa30529fb8db220f384fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 46/59] fix: turning threading off changed the pipe factor to
 the threaded default

---
 lib/libfql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 96495e0..c963101 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -337,7 +337,7 @@ void fql_set_threading(fqlhandle* fql, int threading)
 		return;
 	}
 	fql->props.threading = threading;
-	if (fql->props.pipe_factor == PIPE_FACTOR_DEFAULT) {
+	if (threading && fql->props.pipe_factor == PIPE_FACTOR_DEFAULT) {
 		fql->props.pipe_factor = PIPE_FACTOR_THREAD_DEFAULT;
 	}
 }
-- 
2.43.0


From 26fd6195a2fc329385688f7edaff74bdeb144020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 47/59] fix: the documented option -R, --rec-term was not
 accepted

---
 src/fql.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fql.c b/src/fql.c
index 072d44c..9a2de9b 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -114,6 +114,7 @@ int main(int argc, char** argv)
 	        {"print", no_argument, 0, 'p'},
 	        {"pipe-factor", required_argument, 0, 'P'},
 	        {"quiet", no_argument, 0, 'q'},
+	        {"rec-term", required_argument, 0, 'R'},
 	        {"in-delim", required_argument, 0, 's'},
 	        {"out-delim", required_argument, 0, 'S'},
 	        {"thread", no_argument, 0, 't'},
@@ -133,7 +134,7 @@ int main(int argc, char** argv)
 	/* getopt_long stores the option index here. */
 	int option_index = 0;
 
-	char opt_string[64] = "Abc:CdD:hHLoOpP:qs:S:tvW";
+	char opt_string[64] = "Abc:CdD:hHLoOpP:qR:s:S:tvW";
 	char* opt_iter = opt_string + strlen(opt_string) - 1;
 	*++opt_iter = HELP_ARG;
 	*++opt_iter = DEBUG_ARG;
@@ -312,6 +313,9 @@ void _parse_args(struct fqlhandle* handle, int c)
 	case 'P':
 		fql_set_pipe_factor(handle, atoi(optarg));
 		break;
+	case 'R':
+		fql_set_record_terminator(handle, optarg);
+		break;
 	case 's':
 		fql_set_in_delim(handle, optarg);
 		break;
-- 
2.43.0


From a48a67ad1afc2da0fcecc201dd24f9934ffa1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 48/59] fix: RIGHT with a count beyond the text copied bytes
 after its end

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index adec8ab..48686eb 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -237,7 +237,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From be7269a881935a288680afa72f348fce40e39811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 49/59] fix: SUBSTRING from before the first character with too
 small a count copied a negative number of bytes

---
 lib/scalarfn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 48686eb..b8a5fc3 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -291,9 +291,12 @@ int fql_substring(function* fn, union field* ret, node* rg)
 
 	if (start < 0) {
 		n += start;
+		if (n < 0) {
+			n = 0;
+		}
 	}
 
-	if (idx + n > sv.len) {
+	if (n > sv.len - idx) {
 		string_strncpy(ret->s, &sv.data[idx], sv.len - idx);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From d13a47861f8469801171c80250a173507c8167c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 50/59] fix: CAST to CHAR with a negative length copied a
 negative number of bytes

---
 lib/scalarfn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index b8a5fc3..7ec40e1 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -106,6 +106,10 @@ int fql_cast_char(function* fn, union field* ret, node* rg)
 	if (fn->args->size == 2) {
 		expression** len_expr = vec_at(fn->args, 1);
 		try_deref_(expression_get_int(&len, *len_expr, rg));
+		if (len < 0) {
+			fprintf(stderr, "Invalid length value `%ld'\n", len);
+			return FQL_FAIL;
+		}
 	}
 
 	expression** arg = vec_begin(fn->args);
-- 
2.43.0


From b558b4ada688bfe9cdccbf9d00c4fc967620828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 51/59] fix: counting a character backwards read the byte
 before the text

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 7ec40e1..93d62d0 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -42,7 +42,7 @@ int _get_rev_byte_count(const char* s, unsigned limit)
 	}
 
 	int i = 0;
-	for (; (s[i] & 0xC0) == 0x80 && -i < (int)limit; --i)
+	for (; -i < (int)limit && (s[i] & 0xC0) == 0x80; --i)
 		;
 
 	if (-i >= (int)limit) {
-- 
2.43.0


From 6ae908bacedc7ee54d979faeba562b3448a0023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 52/59] fix: REPLACE searched for one byte beyond its pattern
 and wrote it beyond the copy

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 93d62d0..1bd804b 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -348,7 +348,7 @@ int fql_replace(function* fn, union field* ret, node* rg)
 
 	/* If we've made it this far, needle may not be a NULL terminated string... allocate a copy =( */
 	char* needle_cpy = malloc_(needle.len + 1);
-	strncpy_(needle_cpy, needle.data, needle.len + 1);
+	strncpy_(needle_cpy, needle.data, needle.len);
 	string_find_replace_nocase_limited(ret->s,
 	                                   needle_cpy,
 	                                   replacement.data,
-- 
2.43.0


From d5f45b7bee54d304ac04b607278eef6209c49e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 53/59] fix: refuse SELECT INTO @variable when the file already
 exists

---
 lib/operation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/operation.c b/lib/operation.c
index 002f1d0..9b127f0 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -369,7 +369,9 @@ int op_reset(query* query, bool has_executed)
 	}
 
 	if (!query->union_id && query->into_table_name) {
-		if (has_executed && *self == FQL_SELECT && !query->fqlref->props.overwrite
+		/* A variable's target is not known when planning. */
+		if ((has_executed || query->into_table_var_idx != -1)
+		    && *self == FQL_SELECT && !query->fqlref->props.overwrite
 		    && access(query->into_table_name, F_OK) == 0) {
 			fprintf(stderr,
 			        "Cannot SELECT INTO: file `%s' already exists\n",
-- 
2.43.0


From 0a63e48864a8d89938f3e89dc62b465d8ee4520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 54/59] fix: check for write errors before a fixed-width result
 replaces its destination

---
 lib/fixedwrite.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 1ea64e6..82f1cf9 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -80,9 +80,16 @@ int fixedwriter_close(fixedwriter* self)
 	if (self->file == stdout)
 		return FQL_GOOD;
 
-	fclose(self->file);
+	/* The user's file is only ever replaced by a complete one. */
+	bool failed = ferror(self->file);
+	failed = (fclose(self->file) == EOF) || failed;
 	self->file = NULL;
 
+	if (failed) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
+
 	if (self->is_detached) {
 		self->is_detached = false;
 		return FQL_GOOD;
-- 
2.43.0


From c1202c20502dbae1d0fc91f9b5a8de562e264650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 55/59] fix: a reset scope is in no block

---
 lib/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/scope.c b/lib/scope.c
index c75f6f3..d5141ad 100644
--- a/lib/scope.c
+++ b/lib/scope.c
@@ -20,6 +20,7 @@ void scope_destroy(scope* self)
 
 void scope_reset(scope* self)
 {
+	self->is_in_block = false;
 	hashmap_clear(&self->variable_map);
 }
 
-- 
2.43.0


From 5623da7e06b1c3dcfa7f830c9ff2115845c59c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 56/59] fix: fql_reset drops branch state, stepped fields and
 resolved schema paths

---
 lib/libfql.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index c963101..7a7693d 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -68,14 +68,6 @@ void fql_free(fqlhandle* fql)
 {
 	fql_reset(fql);
 
-	if (fql->schema_paths != NULL) {
-		string** it = vec_begin(fql->schema_paths);
-		for (; it != vec_end(fql->schema_paths); ++it) {
-			delete_(string, *it);
-		}
-		delete_(vec, fql->schema_paths);
-	}
-
 	delete_(vec, fql->variables);
 	delete_(scope, fql->global_scope);
 	delete_(hashmap, fql->schema_map);
@@ -158,8 +150,14 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 	return FQL_GOOD;
 }
 
+void _free_api_strings(vec* api);
+
 int fql_reset(fqlhandle* fql)
 {
+	/* a batch that was only stepped through in part */
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
 	query** it = vec_begin(fql->query_vec);
 	for (; it != vec_end(fql->query_vec); ++it) {
 		delete_(query, *it);
@@ -172,6 +170,16 @@ int fql_reset(fqlhandle* fql)
 	hashmap_clear(fql->schema_map);
 	scope_reset(fql->global_scope);
 	fql->_scope = fql->global_scope;
+	fql->branch_state = BRANCH_EXPECT_EXPR;
+
+	/* the settings they were made from may change */
+	if (fql->schema_paths != NULL) {
+		string** path_iter = vec_begin(fql->schema_paths);
+		for (; path_iter != vec_end(fql->schema_paths); ++path_iter) {
+			delete_(string, *path_iter);
+		}
+		delete_(vec, fql->schema_paths);
+	}
 
 	variable* var_iter = vec_begin(fql->variables);
 	for (; var_iter != vec_end(fql->variables); ++var_iter) {
-- 
2.43.0


From e83ac6a85561aeec3613ddefb6f936b5ab2aee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 57/59] fix: room for the longest float in expression
 descriptions

---
 lib/expression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/expression.c b/lib/expression.c
index 79596fb..dfb7d5a 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -175,7 +175,8 @@ void expression_cat_description(expression* self, string* msg)
 			break;
 		}
 		case FIELD_FLOAT: {
-			char buf[30];
+			/* DBL_MAX prints 309 digits before the point */
+			char buf[330];
 			sprintf(buf, "%lf", self->field.f);
 			string_strcat(msg, buf);
 			break;
-- 
2.43.0


From 774981bf04d85fa6148176f39069eb948216b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 58/59] fix: register a temporary file as soon as it is created

---
 lib/fixedwrite.c |  9 +++++++--
 lib/reader.c     | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 82f1cf9..7a261c8 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -52,13 +52,18 @@ int _mktmp(fixedwriter* self)
 	}
 
 	int fd = mkstemp(self->tempname.data);
+	if (fd == -1) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
+	self->tempnode = fqlsig_tmp_push(string_c_str(&self->tempname));
+
 	self->file = fdopen(fd, "w");
 	if (!self->file) {
 		perror(string_c_str(&self->tempname));
+		close(fd);
 		return FQL_FAIL;
 	}
-
-	self->tempnode = fqlsig_tmp_push(string_c_str(&self->tempname));
 	return FQL_GOOD;
 }
 bool _isopen(fixedwriter* self)
diff --git a/lib/reader.c b/lib/reader.c
index 744cdf5..a6715a9 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -129,14 +129,19 @@ int reader_mktmp(reader* self)
 	string_strcpy(self->random_access_filename, "./read_XXXXXX");
 
 	int fd = mkstemp(self->random_access_filename->data);
-	self->random_access_file = fdopen(fd, "w");
-	if (!self->random_access_file) {
+	if (fd == -1) {
 		perror(string_c_str(self->random_access_filename));
 		return FQL_FAIL;
 	}
-
 	self->random_access_tempnode =
 	        fqlsig_tmp_push(string_c_str(self->random_access_filename));
+
+	self->random_access_file = fdopen(fd, "w");
+	if (!self->random_access_file) {
+		perror(string_c_str(self->random_access_filename));
+		close(fd);
+		return FQL_FAIL;
+	}
 	return FQL_GOOD;
 }
 
-- 
2.43.0


From ba4630c393ecabaae003fb7d0f4d3793f2bb14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 59/59] fix: remove temporary files when the process exits
 during a query

---
 lib/fqlsig.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 1af6193..35d0ed4 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -39,6 +39,9 @@ void fqlsig_init_sig()
 	sigaction(SIGTERM, &act, NULL);
 	sigaction(SIGHUP, &act, NULL);
 
+	/* a stage that fails in a worker thread exits the process */
+	atexit(fqlsig_tmp_removeall);
+
 	_signals_ready = true;
 }
 
-- 
2.43.0

