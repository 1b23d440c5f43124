F="util/fifo.c"; P="lib/process.c"
CASES=[
("c03_revert","C03","bad",[(F,"	pthread_mutex_lock(&f0->head_mutex);\n	pthread_mutex_lock(&f1->head_mutex);\n	while","	pthread_mutex_lock(&f1->head_mutex);\n	pthread_mutex_lock(&f0->head_mutex);\n	while")]),
("c03_swap_setopen","C03","bad",[(F,"	pthread_mutex_lock(&self->tail_mutex);\n	pthread_mutex_lock(&self->head_mutex);\n\n	self->is_open","	pthread_mutex_lock(&self->head_mutex);\n	pthread_mutex_lock(&self->tail_mutex);\n\n	self->is_open")]),
("c03_relock","C03","bad",[(F,"	self->tail = new_tail;\n\n	pthread_cond_signal(&self->cond_get);","	self->tail = new_tail;\n	fifo_update(self);")]),
("c03_waitmutex","C03 C02","bad",[(P,"		pthread_mutex_lock(&self->waitee_proc->wait_mutex);\n","		pthread_mutex_lock(&self->fifo_in[0]->head_mutex);\n		pthread_mutex_lock(&self->waitee_proc->wait_mutex);\n		pthread_mutex_unlock(&self->fifo_in[0]->head_mutex);\n"),
  (P,"		while (_check_wait_list(self->wait_list)) {\n","		while (_check_wait_list(self->wait_list)) {\n			if (self->fifo_in[0]->is_open) fifo_update(self->fifo_in[0]), fifo_add_try(self->fifo_in[0], NULL), fifo_advance(self->fifo_in[0]);\n")]),
("c02_noopencheck","C02","bad",[(F,"while (self->is_open && fifo_is_empty(self)) {\n","while (fifo_is_empty(self)) {\n")]),
]
