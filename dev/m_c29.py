N="util/node.c"; G="util/dgraph.c"
P="C29"
LOOP="""	while (self && self->next)
		self = self->next;

	return self;
}

node* node_enqueue_import"""
CASES=[
("export_noprev",P,"bad",[(N,"		export->next->prev = export->prev;","		export->next->prev = NULL;")]),
("export_nonext",P,"bad",[(N,"	if (export->prev)\n		export->prev->next = export->next;\n","")]),
("export_early",P,"bad",[(N,"	if (export->next)\n		export->next->prev = export->prev;","	export->prev = NULL;\n	if (export->next)\n		export->next->prev = export->prev;")]),
("export_keep",P,"bad",[(N,"	export->next = NULL;\n	export->prev = NULL;\n\n	return","	export->next = NULL;\n\n	return")]),
("remove_nohead",P,"bad",[(N,"	if (*head == node) {\n		return node_pop(head);\n	}\n","")]),
("remove_rawfree",P,"bad",[(N,"	void* data = node->data;\n	node_export(node);\n	free_(node);","	void* data = node->data;\n	free_(node);")]),
("pop_nounlink",P,"bad",[(N,"	return _node_remove(oldhead);\n}\n\nnode* node_push(","	if (oldhead == NULL)\n		return NULL;\n	void* data = oldhead->data;\n	free_(oldhead);\n	return data;\n}\n\nnode* node_push(")]),
("delete_leak",P,"bad",[(N,"	free_if_exists_(data);","	(void)data;")]),
("push_noprev",P,"bad",[(N,"	if (*head)\n		(*head)->prev = import;\n","")]),
("push_prev",P,"bad",[(N,"	import->prev = NULL;\n\n	*head = import;","	*head = import;")]),
("enq_noprev",P,"bad",[(N,"		import->prev = back;\n","")]),
("enq_nonull",P,"bad",[(N,"	import->next = NULL;\n\n	return import;","	return import;")]),
("enq_head",P,"bad",[(N,"	if (!*head)\n		*head = import;","	*head = import;")]),
("back_short",P,"bad",[(N,LOOP,LOOP.replace("self->next)","self->next && self->next->next)"))]),
("top_dir",P,"bad",[(N,"node* node_top(node* restrict self)\n{\n	if (!self)\n		return NULL;\n\n	while (self && self->prev)\n		self = self->prev;","node* node_top(node* restrict self)\n{\n	if (!self)\n		return NULL;\n\n	while (self && self->next)\n		self = self->next;")]),
("at_le",P,"bad",[(N,"for (; head && i < idx; ++i)","for (; head && i <= idx; ++i)")]),
("at_start",P,"bad",[(N,"unsigned i = 0;\n	for (; head","unsigned i = 1;\n	for (; head")]),
("count0",P,"bad",[(N,"	int count = 1;\n	while ((head = head->next))","	int count = 0;\n	while ((head = head->next))")]),
("free_notop",P,"bad",[(N,"	*head = node_top(*head);\n	while (*head) {","	while (*head) {")]),
("free_leakdata",P,"bad",[(N,"		void* data = node_pop(head);\n		free_(data);","		void* data = node_pop(head);\n		if (*head)\n			free_(data);")]),
("func_after",P,"bad",[(N,"	for (; *head; node_pop(head))\n		free_func((*head)->data);","	for (; *head; node_pop(head))\n		free_func(*head);")]),
("dg_edge1",P,"bad",[(G,"		if ((*it)->out[1] == *node) {\n			(*it)->out[1] = NULL;","		if ((*it)->out[1] == *node) {\n			(*it)->out[0] = NULL;")]),
("dg_else",P,"bad",[(G,"		if ((*it)->out[0] == *node) {\n			(*it)->out[0] = NULL;\n		}\n		if","		if ((*it)->out[0] == *node) {\n			(*it)->out[0] = NULL;\n		} else if")]),
("dg_break",P,"bad",[(G,"			(*it)->out[1] = NULL;\n		}\n	}\n	void* data","			(*it)->out[1] = NULL;\n			break;\n		}\n	}\n	void* data")]),
("dg_noroots",P,"bad",[(G,"	vec_erase_one(self->nodes, node);\n	self->_roots_good = false;","	vec_erase_one(self->nodes, node);")]),
("dg_skipfirst",P,"bad",[(G,"	dnode** it = vec_begin(self->nodes);\n	for (; it != vec_end(self->nodes); ++it) {\n		if ((*it)->out[0] == *node)","	dnode** it = vec_begin(self->nodes);\n	for (++it; it != vec_end(self->nodes); ++it) {\n		if ((*it)->out[0] == *node)")]),
("dg_add_stale",P,"bad",[(G,"	self->newest = node;\n	self->_roots_good = false;","	self->newest = node;")]),
("dg_consume",P,"bad",[(G,"	dest->_roots_good = false;\n","")]),
("dg_consume2",P,"bad",[(G,"	dgraph_shallow_free(src);","	dgraph_destroy(src);\n	free_(src);")]),
("dg_traverse1",P,"bad",[(G,"	if ((*node)->out[1] != NULL && !(*node)->out[1]->visit_count) {","	else if ((*node)->out[1] != NULL && !(*node)->out[1]->visit_count) {")]),
("dg_traverse2",P,"bad",[(G,"(*node)->out[1] != NULL && !(*node)->out[1]->visit_count","(*node)->out[1] != NULL && !(*node)->out[0]->visit_count")]),
("dg_traverse3",P,"bad",[(G,"		if ((*node)->visit_count) {\n			continue;\n		}\n		fifo_add","		fifo_add")]),
("dg_traverse4",P,"bad",[(G,"	++(*node)->visit_count;\n","	(*node)->visit_count = 1;\n")]),
("dg_reset1",P,"bad",[(G,"	self->_root_idx = 1;","	self->_root_idx = 0;")]),
("dg_reset2",P,"bad",[(G,"	fifo_resize(self->_trav, self->nodes->size);","	fifo_resize(self->_trav, self->_roots->size);")]),
("dg_reset3",P,"bad",[(G,"		(*it)->visit_count = 0;\n	}\n\n	/* start at","		(*it)->visit_count += 0;\n	}\n\n	/* start at")]),
("dg_roots1",P,"bad",[(G,"	vec_clear(self->_roots);\n","")]),
("dg_roots2",P,"bad",[(G,"		if ((*it)->out[1] != NULL) {\n			++(*it)->out[1]->visit_count;\n		}\n	}","	}")]),
("dg_roots3",P,"bad",[(G,"	self->_roots_good = true;\n","")]),
("dg_roots4",P,"bad",[(G,"	/* reset */\n	dnode** it = vec_begin(self->nodes);\n	for (; it != vec_end(self->nodes); ++it) {\n		(*it)->visit_count = 0;\n	}\n","	dnode** it;\n")]),
# ok
("ok_remove",P,"ok",[(N,"	if (*head == node) {\n		return node_pop(head);\n	}\n	return _node_remove(node);","	if (*head == node) {\n		*head = node->next;\n	}\n	return _node_remove(node);")]),
("ok_enq",P,"ok",[(N,"	node* back = node_back(*head);\n\n	if (back) {\n		import->prev = back;\n		back->next = import;\n	}\n\n	if (!*head)\n		*head = import;\n\n	import->next = NULL;","	import->next = NULL;\n	if (*head == NULL) {\n		import->prev = NULL;\n		*head = import;\n		return import;\n	}\n	node* back = *head;\n	while (back->next)\n		back = back->next;\n	back->next = import;\n	import->prev = back;")]),
("ok_enq2",P,"ok",[(N,"	node* back = node_back(*head);\n\n	if (back) {","	node* back = NULL;\n	for (node* it = *head; it; it = it->next)\n		back = it;\n\n	if (back) {")]),
("ok_count",P,"ok",[(N,"	if (!head)\n		return 0;\n\n	int count = 1;\n	while ((head = head->next))\n		++count;","	int count = 0;\n	for (; head; head = head->next)\n		++count;")]),
("ok_at",P,"ok",[(N,"	unsigned i = 0;\n	for (; head && i < idx; ++i) {\n		head = head->next;\n	}","	while (head && idx-- > 0) {\n		head = head->next;\n	}")]),
("ok_top",P,"ok",[(N,"node* node_top(node* restrict self)\n{\n	if (!self)\n		return NULL;\n\n	while (self && self->prev)\n		self = self->prev;\n\n	return self;","node* node_top(node* restrict self)\n{\n	if (self == NULL) {\n		return NULL;\n	}\n	for (; self->prev != NULL; self = self->prev)\n		;\n	return self;")]),
("ok_free",P,"ok",[(N,"	for (; *head; node_pop(head))\n		;","	while (*head) {\n		node_pop(head);\n	}")]),
("ok_freefunc",P,"ok",[(N,"	for (; *head; node_pop(head))\n		free_func((*head)->data);","	while (*head != NULL) {\n		void* data = (*head)->data;\n		free_func(data);\n		node_pop(head);\n	}")]),
("ok_dgidx",P,"ok",[(G,"	dnode** it = vec_begin(self->nodes);\n	for (; it != vec_end(self->nodes); ++it) {\n		if ((*it)->out[0] == *node) {\n			(*it)->out[0] = NULL;\n		}\n		if ((*it)->out[1] == *node) {\n			(*it)->out[1] = NULL;\n		}\n	}","	for (unsigned i = 0; i < self->nodes->size; ++i) {\n		dnode** it = vec_at(self->nodes, i);\n		dnode* cur = *it;\n		for (int j = 0; j < 2; ++j) {\n			if (cur->out[j] == *node) {\n				cur->out[j] = NULL;\n			}\n		}\n	}")]),
("ok_dgidx1",P,"ok",[(G,"	dnode** it = vec_begin(self->nodes);\n	for (; it != vec_end(self->nodes); ++it) {\n		if ((*it)->out[0] == *node) {\n			(*it)->out[0] = NULL;\n		}\n		if ((*it)->out[1] == *node) {\n			(*it)->out[1] = NULL;\n		}\n	}","	for (unsigned i = 0; i < self->nodes->size; ++i) {\n		dnode** it = vec_at(self->nodes, i);\n		dnode* cur = *it;\n		if (cur->out[0] == *node)\n			cur->out[0] = NULL;\n		if (cur->out[1] == *node)\n			cur->out[1] = NULL;\n	}")]),
("ok_dghelper",P,"ok",[(G,"dnode* dgraph_traverse(dgraph* restrict self)\n{","static void _enqueue_out(dgraph* self, dnode** out)\n{\n	if (*out == NULL || (*out)->visit_count) {\n		return;\n	}\n	fifo_add(self->_trav, out);\n}\n\ndnode* dgraph_traverse(dgraph* restrict self)\n{"),(G,"	if ((*node)->out[0] != NULL && !(*node)->out[0]->visit_count) {\n		fifo_add(self->_trav, &(*node)->out[0]);\n	}\n	if ((*node)->out[1] != NULL && !(*node)->out[1]->visit_count) {\n		fifo_add(self->_trav, &(*node)->out[1]);\n	}","	_enqueue_out(self, &(*node)->out[0]);\n	_enqueue_out(self, &(*node)->out[1]);")]),
("ok_travloop",P,"ok",[(G,"		fifo_add(self->_trav, node);\n		return dgraph_traverse(self);","		fifo_add(self->_trav, node);")]),
("ok_travif",P,"ok",[(G,"		if ((*node)->visit_count) {\n			continue;\n		}\n		fifo_add(self->_trav, node);\n		return dgraph_traverse(self);","		if (!(*node)->visit_count) {\n			fifo_add(self->_trav, node);\n			return dgraph_traverse(self);\n		}")]),
("ok_resetorder",P,"ok",[(G,"	/* we are going to enter the first root manually */\n	self->_root_idx = 1;\n",""),(G,"	it = vec_begin(self->_roots);\n	fifo_add(self->_trav, it);","	it = vec_begin(self->_roots);\n	fifo_add(self->_trav, it);\n	self->_root_idx = 1;")]),
("ok_addorder",P,"ok",[(G,"	vec_push_back(self->nodes, &node);\n	self->newest = node;\n	self->_roots_good = false;","	self->_roots_good = false;\n	self->newest = node;\n	vec_push_back(self->nodes, &node);")]),
("ok_assume_if",P,"ok",[(G,"		if ((*it)->visit_count == 0) {\n			(*it)->is_root = true;\n			vec_push_back(self->_roots, it);\n			continue;\n		}\n		(*it)->visit_count = 0;","		dnode* n = *it;\n		if (n->visit_count != 0) {\n			n->visit_count = 0;\n		} else {\n			n->is_root = true;\n			vec_push_back(self->_roots, it);\n		}")]),
("ok_roots_early",P,"ok",[(G,"	/* reset */\n	dnode** it = vec_begin(self->nodes);\n	for (; it != vec_end(self->nodes); ++it) {\n		(*it)->visit_count = 0;\n	}","	dnode** it;\n	for (unsigned i = 0; i < self->nodes->size; ++i) {\n		dnode** nn = vec_at(self->nodes, i);\n		(*nn)->visit_count = 0;\n	}")]),
]
