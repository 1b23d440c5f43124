F="util/fifo.c"; P="lib/process.c"
CASES=[
("c01_nolock_add","C01","bad",[(F,"""	pthread_mutex_lock(&self->head_mutex);
	vec_set_at(self->buf, self->head, data, 1);
	_idx_adv_(self->head);
	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);
}

int fifo_add_try""","""	vec_set_at(self->buf, self->head, data, 1);
	pthread_mutex_lock(&self->head_mutex);
	_idx_adv_(self->head);
	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);
}

int fifo_add_try""")]),
("c01_nadd_missing_unlock","C01","bad",[(F,"""	if (receivable == 0) {
		pthread_mutex_unlock(&self->head_mutex);
		return;
	}""","""	if (receivable == 0) {
		return;
	}""")]),
("c01_try_ignore","C01","bad",[(F,"""	int ret = pthread_mutex_trylock(&self->tail_mutex);
	if (ret != 0) {
		return ret;
	}""","""	int ret = pthread_mutex_trylock(&self->tail_mutex);
	if (ret < 0) {
		return ret;
	}""")]),
("c01_wronglock","C01","bad",[(F,"""void fifo_consume(fifo* restrict self)
{
	pthread_mutex_lock(&self->tail_mutex);
	_idx_adv_(self->tail);
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->tail_mutex);""","""void fifo_consume(fifo* restrict self)
{
	pthread_mutex_lock(&self->head_mutex);
	_idx_adv_(self->tail);
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->head_mutex);""")]),
("c02_noshared","C02","bad",[(F,"""	self->head = new_head;

	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);

	if (transfer_count == src->size) {
		vec_clear(src);
	} else {
		vec_erase(src, vec_begin(src), transfer_count);
	}
}""","""	self->head = new_head;

	pthread_cond_signal(&self->cond_add);
	pthread_mutex_unlock(&self->head_mutex);

	if (transfer_count == src->size) {
		vec_clear(src);
	} else {
		vec_erase(src, vec_begin(src), transfer_count);
	}
}""")]),
("c02_ifwait","C02","bad",[(F,"while (!fifo_receivable(self)) {\n		pthread_cond_wait","if (!fifo_receivable(self)) {\n		pthread_cond_wait")]),
("c02_wrongcond","C02","bad",[(F,"""	self->tail = new_tail;

	pthread_cond_signal(&self->cond_get);""","""	self->tail = new_tail;

	pthread_cond_signal(&self->cond_add);""")]),
("c02_open_nobroadcast","C02","bad",[(F,"	pthread_cond_broadcast(&self->cond_get);\n","")]),
("c02_open_shared","C02","bad",[(F,"	if (self->shared_mutex_fifo != NULL) {\n","	if (self->shared_mutex_fifo != NULL && is_open) {\n")]),
("c02_noopencheck","C02","bad",[(F,"while (self->is_open && fifo_is_empty(self)) {\n","while (fifo_is_empty(self)) {\n")]),
("c02_disable_order","C02","bad",[(P,"	self->is_enabled = false;\n	fifo_set_open(self->fifo_in[0], false);","	fifo_set_open(self->fifo_in[0], false);"),(P,"""		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);
	}
""","""		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);
	}
	self->is_enabled = false;
""")]),
("c02_thread_ifwait","C02","bad",[(P,"		while (_check_wait_list(self->wait_list)) {","		if (_check_wait_list(self->wait_list)) {")]),
("c02_wrongwait","C02","bad",[(P,"				fifo_wait_for_get(out1);","				fifo_wait_for_get(out0);")]),
("c02_noupdate","C02","bad",[("lib/fqlprocesses.c","	fifo_update(in_right);\n","")]),
("c02_either_noreg","C02","bad",[(F,"		f0->shared_mutex_fifo = f1;\n		pthread_mutex_unlock(&f0->head_mutex);","		pthread_mutex_unlock(&f0->head_mutex);\n		f0->shared_mutex_fifo = f1;")]),
("c02_either_norecheck","C02","bad",[(F,"while (f0->is_open && fifo_is_empty(f0) && f1->is_open && fifo_is_empty(f1)) {","while (f0->is_open && f1->is_open && fifo_is_empty(f1)) {")]),
# refactorings
("ok_signal_after_unlock","C01 C02 C03","ok",[(F,"""	_idx_adv_(self->tail);
	pthread_cond_signal(&self->cond_get);
	pthread_mutex_unlock(&self->tail_mutex);
}

void fifo_add(""","""	_idx_adv_(self->tail);
	pthread_mutex_unlock(&self->tail_mutex);
	pthread_cond_signal(&self->cond_get);
}

void fifo_add(""")]),
("ok_helper","C01 C02 C03 C04","ok",[(F,"void fifo_consume(fifo* restrict self)\n{\n	pthread_mutex_lock(&self->tail_mutex);\n	_idx_adv_(self->tail);\n	pthread_cond_signal(&self->cond_get);\n	pthread_mutex_unlock(&self->tail_mutex);",
"static void _advance_tail_locked(fifo* self)\n{\n	unsigned next = self->tail + 1;\n	if (next >= self->buf->size) {\n		next = 0;\n	}\n	self->tail = next;\n	pthread_cond_signal(&self->cond_get);\n}\nvoid fifo_consume(fifo* restrict self)\n{\n	pthread_mutex_t* m = &self->tail_mutex;\n	pthread_mutex_lock(m);\n	_advance_tail_locked(self);\n	pthread_mutex_unlock(m);")]),
("ok_addtry","C01 C02 C03 C04","ok",[(F,"""	int ret = pthread_mutex_trylock(&self->head_mutex);
	if (ret != 0) {
		return ret;
	}
	vec_set_at(self->buf, self->head, data, 1);
	_idx_adv_(self->head);
	pthread_cond_signal(&self->cond_add);
	_fifo_signal_shared(self);
	pthread_mutex_unlock(&self->head_mutex);
	return 0;
""","""	int ret = pthread_mutex_trylock(&self->head_mutex);
	if (ret == 0) {
		pthread_cond_t* c = &self->cond_add;
		void* dst = vec_at(self->buf, self->head);
		memcpy(dst, data, self->buf->_elem_size);
		unsigned h = self->head + 1;
		self->head = h % self->buf->size;
		_fifo_signal_shared(self);
		pthread_cond_signal(c);
		pthread_mutex_unlock(&self->head_mutex);
	}
	return ret;
""")]),
("ok_loop_wait","C01 C02 C03","ok",[(F,"""	while (!fifo_receivable(self)) {
		pthread_cond_wait(&self->cond_get, &self->tail_mutex);
	}""","""	for (;;) {
		if (fifo_receivable(self) != 0) {
			break;
		}
		pthread_cond_wait(&self->cond_get, &self->tail_mutex);
	}""")]),
("ok_waitlist","C01 C02 C03 C05","ok",[(P,"""	bool enabled = false;
	process** it = vec_begin(wait_list);
	for (; it != vec_end(wait_list); ++it) {
		if ((*it)->is_enabled) {
			enabled = true;
			break;
		}
	}
	return enabled;""","""	unsigned i = 0;
	while (i < wait_list->size) {
		process** it = vec_at(wait_list, i++);
		if ((*it)->is_enabled) {
			return true;
		}
	}
	return false;""")]),
]
