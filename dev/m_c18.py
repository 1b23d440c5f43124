V="util/vec.c"
P="C18"
CASES=[
("reserve_nospare",P,"bad",[(V,"if (self->_alloc >= ++alloc) {\n		return;\n	}\n	void* new_dest_ = realloc(self->data, alloc * self->_elem_size);\n	if (!new_dest_) {\n		perror(\"realloc\");\n		exit(EXIT_FAILURE);\n	}\n	self->data = new_dest_;\n	new_dest_ = NULL;\n	self->_alloc = alloc;\n}\n\nvoid vec_resize","if (self->_alloc >= alloc) {\n		return;\n	}\n	void* new_dest_ = realloc(self->data, alloc * self->_elem_size);\n	if (!new_dest_) {\n		perror(\"realloc\");\n		exit(EXIT_FAILURE);\n	}\n	self->data = new_dest_;\n	new_dest_ = NULL;\n	self->_alloc = alloc;\n}\n\nvoid vec_resize")]),
("reserve_noes",P,"bad",[(V,"realloc(self->data, alloc * self->_elem_size)","realloc(self->data, alloc)")]),
("add_one_lt",P,"bad",[(V,"if (self->_alloc <= ++self->size)","if (self->_alloc < ++self->size)")]),
("shrink_off",P,"bad",[(V,"	realloc_(self->data, (self->size + 1) * self->_elem_size);\n	self->_alloc = self->size + 1;","	realloc_(self->data, self->size * self->_elem_size);\n	self->_alloc = self->size + 1;")]),
("shrink_off2",P,"bad",[(V,"	realloc_(self->data, (self->size + 1) * self->_elem_size);\n	self->_alloc = self->size + 1;","	realloc_(self->data, self->size * self->_elem_size);\n	self->_alloc = self->size;")]),
("insone_short",P,"bad",[(V,"size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);","size_t move_bytes = self->_elem_size * ((self->size - 2) - idx);")]),
("insone_over",P,"bad",[(V,"size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);","size_t move_bytes = self->_elem_size * (self->_alloc - idx);")]),
("ins_stale",P,"bad",[(V,"	pos = vec_at(self, idx);\n\n	memmove((char*)pos + iter_bytes, pos, move_bytes);","	memmove((char*)pos + iter_bytes, pos, move_bytes);")]),
("ins_memcpy",P,"bad",[(V,"	memmove((char*)pos + iter_bytes, pos, move_bytes);","	memcpy((char*)pos + iter_bytes, pos, move_bytes);")]),
("ins_order",P,"bad",[(V,"	memmove((char*)pos + iter_bytes, pos, move_bytes);\n	memcpy(pos, begin, iter_bytes);","	memcpy(pos, begin, iter_bytes);\n	memmove((char*)pos + iter_bytes, pos, move_bytes);")]),
("ins_oldalloc",P,"bad",[(V,"	vec_resize(self, self->size + iter_size);\n	size_t move_bytes = self->_elem_size * (self->_alloc - idx - iter_size);","	size_t move_bytes = self->_elem_size * (self->_alloc - idx - iter_size);\n	vec_resize(self, self->size + iter_size);")]),
("erase_over",P,"bad",[(V,"vec_at(self, self->_alloc - 1) - (const char*)back","vec_at(self, self->_alloc) - (const char*)back")]),
("erase_size",P,"bad",[(V,"	self->size -= vec_iter_size_(self, begin, back);\n	memmove","	self->size -= 1;\n	memmove")]),
("erase_short",P,"bad",[(V,"vec_at(self, self->_alloc - 1) - (const char*)back","vec_at(self, self->size - 2) - (const char*)back")]),
("append_pos",P,"bad",[(V,"	vec_resize(self, self->size + n);\n	void* end = vec_at(self, old_size);","	void* end = vec_at(self, old_size);\n	vec_resize(self, self->size + n);")]),
("append_noresize",P,"bad",[(V,"	vec_resize(self, self->size + n);\n	void* end = vec_at(self, old_size);","	vec_reserve(self, n);\n	self->size += n;\n	void* end = vec_at(self, old_size);")]),
("extend_over",P,"bad",[(V,"src->_elem_size * (src->size + 1)","src->_elem_size * (src->size + 2)")]),
("extend_alloc",P,"bad",[(V,"src->_elem_size * (src->size + 1)","src->_elem_size * src->_alloc")]),
("pop_end",P,"bad",[(V,"	--self->size;\n	return vec_end(self);","	--self->size;\n	return vec_back(self);")]),
("back_off",P,"bad",[(V,"return vec_at(self, self->size - 1);","return vec_at(self, self->size);")]),
("front_short",P,"bad",[(V,"size_t move_bytes = self->_elem_size * (self->_alloc - 1);\n	vec_add_one","size_t move_bytes = self->_elem_size * (self->size - 1);\n	vec_add_one")]),
("front_after",P,"bad",[(V,"	size_t move_bytes = self->_elem_size * (self->_alloc - 1);\n	vec_add_one(self);\n","	vec_add_one(self);\n	size_t move_bytes = self->_elem_size * self->_alloc;\n")]),
("ok_front_after",P,"ok",[(V,"	size_t move_bytes = self->_elem_size * (self->_alloc - 1);\n	vec_add_one(self);\n","	vec_add_one(self);\n	size_t move_bytes = self->_elem_size * (self->size - 1);\n")]),
("setat_len",P,"bad",[(V,"	memcpy(dest, src, self->_elem_size * len);","	memcpy(dest, src, self->_elem_size);")]),
("zero_size",P,"bad",[(V,"	memset(new_shit, 0, new_shit_size * self->_elem_size);\n}\n\nvoid vec_clear","	memset(new_shit, 0, new_shit_size);\n}\n\nvoid vec_clear")]),
("bit_word",P,"bad",[(V,"vec_at(self, idx / 32);\n	uint8_t","vec_at(self, idx / 31);\n	uint8_t")]),
("bit_off",P,"bad",[(V,"uint8_t offset = idx % 32;","uint8_t offset = idx % 31;")]),
("bit_clear",P,"bad",[(V,"*num &= ~(1 << offset);","*num ^= (1 << offset);")]),
("bit_zero",P,"bad",[(V,"	size_t new_shit_size = self->_alloc - org_size;\n	memset(new_shit, 0, new_shit_size * self->_elem_size);\n}\n\nvoid bitvec_push","	size_t new_shit_size = self->_alloc;\n	memset(new_shit, 0, new_shit_size * self->_elem_size);\n}\n\nvoid bitvec_push")]),
("clear_data",P,"bad",[(V,"	vec_resize(self, 0);","	vec_resize(self, 0);\n	self->_alloc = 1;")]),
("sort_alloc",P,"bad",[(V,"qsort_r(self->data, self->size,","qsort_r(self->data, self->_alloc,")]),
("construct",P,"bad",[(V,"malloc_(VEC_ALLOC_DEFAULT * self->_elem_size)","malloc_(self->_elem_size)")]),
("other_owner",P,"bad",[("util/hashmap.c","	vec_clear(self->values);","	self->values->size = 0;\n	self->values->_alloc = 1;")]),
("flex_idx",P,"bad",[("util/flex.c","	vec_push_back(&self->_pairs, &pair);\n	vec_append(&self->_raw, data, datalen);","	vec_append(&self->_raw, data, datalen);\n	pair.idx = self->_raw.size;\n	vec_push_back(&self->_pairs, &pair);")]),
("flex_len",P,"bad",[("util/flex.c","		 self->_raw.size\n		,datalen\n	};\n	vec_push_back(&self->_pairs, &pair);\n	vec_append(&self->_raw, data, datalen);","		 self->_raw.size\n		,datalen\n	};\n	vec_push_back(&self->_pairs, &pair);\n	vec_append(&self->_raw, data, datalen + 1);")]),
("flex_pop",P,"bad",[("util/flex.c","if (pair->idx + pair->len == self->_raw.size)","if (pair->idx + pair->len >= pair->len)")]),
("ok_exact_ins",P,"ok",[(V,"	size_t move_bytes = self->_elem_size * (self->_alloc - idx - iter_size);","	size_t move_bytes = self->_elem_size * (self->size - idx - iter_size);")]),
("ok_exact_erase",P,"ok",[(V,"	size_t bytes = (const char*)vec_at(self, self->_alloc - 1) - (const char*)back;\n","	size_t bytes = (const char*)vec_at(self, self->size - 1) - (const char*)back;\n")]),
("ok_extend_exact",P,"ok",[(V,"	int index = dest->size;","	size_t index = dest->size;"),(V,"src->_elem_size * (src->size + 1)","dest->_elem_size * src->size")]),
("ok_add_one",P,"ok",[(V,"	if (self->_alloc <= ++self->size) {\n		vec_reserve(self, self->_alloc * 2);\n	}\n\n	return vec_back(self);","	size_t n = self->size + 1;\n	if (n >= self->_alloc) {\n		vec_reserve(self, n * 2);\n	}\n	self->size = n;\n	return (char*)self->data + (n - 1) * self->_elem_size;")]),
("ok_reserve",P,"ok",[(V,"	if (self->_alloc >= ++alloc) {\n		return;\n	}\n	void* new_dest_","	const size_t want = alloc + 1;\n	alloc = want;\n	if (want <= self->_alloc) {\n		return;\n	}\n	void* new_dest_")]),
("ok_append",P,"ok",[(V,"	void* end = vec_at(self, old_size);\n	memcpy(end, src, n * self->_elem_size);","	if (n != 0) {\n		memcpy(vec_end(self) - n * self->_elem_size, src, self->_elem_size * n);\n	}")]),
("ok_pop",P,"ok",[(V,"	--self->size;\n	return vec_end(self);","	void* last = vec_back(self);\n	self->size--;\n	return last;")]),
("ok_bits",P,"ok",[(V,"	uint32_t* num = vec_at(self, idx / 32);\n	uint32_t offset = idx % 32;\n	if (newval) {\n		*num |= (1 << offset);\n	} else {\n		*num &= ~(1 << offset);\n	}","	uint32_t* num = (uint32_t*)self->data + (idx >> 5);\n	uint32_t mask = 1u << (idx & 31);\n	if (newval) {\n		*num |= mask;\n		return;\n	}\n	*num &= ~mask;")]),
("ok_insert_at",P,"ok",[(V,"	void* pos = vec_at(self, idx);\n	const void* back = (const char*)begin + ((len - 1) * self->_elem_size);\n	vec_insert_iter(self, pos, begin, back);","	vec_insert(self, vec_at(self, idx), begin, len);")]),
]
