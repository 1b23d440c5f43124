F="util/fifo.c"
V="util/vec.c"
CASES=[
("c04_nget_wrapsplit","C04","bad",[(F,"		           self->buf->size - self->tail);","		           self->buf->size - self->tail - 1);")]),
("c04_nget_block","C04","bad",[(F,"	transfer_count -= transfer_count % block_size;","	transfer_count -= available % block_size;")]),
("c04_nget_ret","C04","bad",[(F,"	return available - transfer_count;","	return available;")]),
("c04_nget_wrong2","C04","bad",[(F,"		vec_append(buffer, vec_begin(self->buf), new_tail);","		vec_append(buffer, vec_at(self->buf, 1), new_tail);")]),
("c04_recv_input","C04","bad",[(F,"	return self->buf->size - avail - self->input_count;","	return self->buf->size - avail;")]),
("c04_avail","C04","bad",[(F,"	if (available > self->buf->size) {","	if (available > self->buf->size + 1) {")]),
("c04_full","C04","bad",[(F,"	return ((self->head + 1) % self->buf->size == self->tail);","	return (self->head + 1 == self->tail);")]),
("c04_look","C04","bad",[(F,"	if (fifo_available(self) < 2) {","	if (fifo_available(self) < 1) {")]),
("c04_nadd_src","C04","bad",[(F,"		           vec_at(src, transfer1),","		           vec_at(src, transfer1 - 1),")]),
("c04_nadd_erase","C04","bad",[(F,"	if (transfer_count == src->size) {","	if (receivable >= transfer_count) {")]),
("c04_nadd_max","C04","bad",[(F,"(receivable < src->size) ? receivable : src->size;","(receivable <= src->size) ? src->size : receivable;")]),
("c04_begin","C04","bad",[(F,"	self->_iter_head = self->head % self->buf->size;","	self->_iter_head = (self->head + 1) % self->buf->size;")]),
("c04_reset","C04","bad",[(F,"	self->is_open = true;\n	self->head = 0;\n	self->tail = 0;","	self->is_open = true;\n	self->tail = self->head;")]),
("c04_peek","C04","bad",[(F,"	if (self->head != self->tail) {","	if (self->is_open) {")]),
("c04_setfull","C04","bad",[(F,"	self->head = self->buf->size - 1;","	self->head = self->buf->_alloc - 1;")]),
("c04_append","C04","bad",[(V,"	memcpy(end, src, n * self->_elem_size);","	memcpy(end, src, n * sizeof(void*));")]),
("c04_append_end","C04","bad",[(V,"	size_t old_size = self->size;\n	vec_resize(self, self->size + n);","	vec_resize(self, self->size + n);\n	size_t old_size = self->size;")]),
("c04_erase","C04","bad",[(V,"	self->size -= vec_iter_size_(self, begin, back);\n	memmove(begin, (char*)back + self->_elem_size, bytes);","	self->size -= vec_iter_size_(self, begin, back);\n	memmove(begin, back, bytes);")]),
("ok4_min_if","C04","ok",[(F,"	unsigned transfer_count = (available > max) ? max : available;","	unsigned transfer_count = available;\n	if (max < transfer_count)\n		transfer_count = max;")]),
("ok4_block","C04","ok",[(F,"	transfer_count -= transfer_count % block_size;","	transfer_count = transfer_count / block_size * block_size;")]),
("ok4_split","C04","ok",[(F,"""		vec_append(buffer,
		           vec_at(self->buf, self->tail),
		           self->buf->size - self->tail);
		vec_append(buffer, vec_begin(self->buf), new_tail);""","""		unsigned first = self->buf->size - self->tail;
		vec_append(buffer, vec_at(self->buf, self->tail), first);
		vec_append(buffer, vec_begin(self->buf), transfer_count - first);""")]),
("ok4_wrapif","C01 C04","ok",[(F,"""	void* data = fifo_peek(self);
	_idx_adv_(self->tail);
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->tail_mutex);
	return data;
}

int fifo_nget""","""	void* data = fifo_peek(self);
	unsigned next = self->tail + 1;
	if (next == self->buf->size) {
		next = 0;
	}
	self->tail = next;
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->tail_mutex);
	return data;
}

int fifo_nget""")]),
("ok4_avail","C04","ok",[(F,"""	size_t available = self->head - self->tail;
	if (available > self->buf->size) {
		available += self->buf->size;
	}
	return available;""","""	if (self->head >= self->tail) {
		return self->head - self->tail;
	}
	return self->buf->size - self->tail + self->head;""")]),
("ok4_nadd_helper","C01 C02 C03 C04","ok",[(F,"""	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
	unsigned new_head = (self->head + transfer_count) % self->buf->size;

	if (new_head == 0 || new_head >= self->head) {
		vec_set_at(self->buf, self->head, vec_begin(src), transfer_count);
	} else {
		unsigned transfer1 = self->buf->size - self->head;
		vec_set_at(self->buf, self->head, vec_begin(src), transfer1);
		vec_set_at(self->buf,
		           0,
		           vec_at(src, transfer1),
		           transfer_count - transfer1);
	}

	self->head = new_head;

	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);

	if""","""	unsigned transfer_count = _copy_in(self, src, receivable);
	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);

	if"""),(F,"void fifo_nadd(fifo* restrict self","""static unsigned _copy_in(fifo* restrict self, vec* restrict src, unsigned receivable)
{
	unsigned n = src->size;
	if (n > receivable) {
		n = receivable;
	}
	const unsigned room = self->buf->size - self->head;
	if (n <= room) {
		vec_set_at(self->buf, self->head, vec_begin(src), n);
	} else {
		vec_set_at(self->buf, self->head, vec_begin(src), room);
		vec_set_at(self->buf, 0, vec_at(src, room), n - room);
	}
	self->head = (self->head + n) % self->buf->size;
	return n;
}

void fifo_nadd(fifo* restrict self""")]),
("ok4_erase_only","C04","ok",[(F,"""	if (transfer_count == src->size) {
		vec_clear(src);
	} else {
		vec_erase(src, vec_begin(src), transfer_count);
	}
}
""","""	vec_erase(src, vec_begin(src), transfer_count);
}
""")]),
("ok4_early","C04","ok",[(F,"""	if (receivable == 0) {
		pthread_mutex_unlock(&self->head_mutex);
		return;
	}
""","""	if (receivable == 0 || src->size == 0) {
		pthread_mutex_unlock(&self->head_mutex);
		return;
	}
""")]),
("ok4_look","C04","ok",[(F,"	unsigned look_ahead_idx = self->tail;\n	_idx_adv_(look_ahead_idx);\n\n	return vec_at(self->buf, look_ahead_idx);","	return vec_at(self->buf, (self->tail + 1) % self->buf->size);")]),
("ok4_full","C04","ok",[(F,"	return ((self->head + 1) % self->buf->size == self->tail);","	return fifo_available(self) == self->buf->size - 1;")]),
]
