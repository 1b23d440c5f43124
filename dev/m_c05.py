P="C05"; PR="lib/process.c"; PL="lib/fqlplan.c"
OUT1="	if (self->fifo_out[1] != NULL) {\n		fifo_set_open(self->fifo_out[1], false);\n	}\n"
MARK="	self->is_enabled = false;\n	fifo_set_open(self->fifo_in[0], false);\n"
SIG="	if (self->waitee_proc != NULL) {\n		pthread_mutex_lock(&self->waitee_proc->wait_mutex);\n		pthread_cond_signal(&self->waitee_proc->wait_cond);\n		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);\n	}\n"
Q1="		//fifo_set_open(self->fifo_in[1], false);\n		fifo* in = self->fifo_in[1];\n		node** it = fifo_begin(in);\n		for (; it != fifo_end(in); it = fifo_iter(in)) {\n			fqlprocess_recycle(self, it);\n		}\n		fifo_update(in);\n"
DIS="		if (ret == PROC_RETURN_COMPLETE) {\n			process_disable(*it);\n		}\n"
CASES=[
("out1",P,"bad",[(PR,OUT1,"")]),
("out1_as0",P,"bad",[(PR,OUT1,OUT1.replace("fifo_set_open(self->fifo_out[1]","fifo_set_open(self->fifo_out[0]"))]),
("in0_open",P,"bad",[(PR,MARK,"	self->is_enabled = false;\n")]),
("mark_late",P,"bad",[(PR,MARK,"	fifo_set_open(self->fifo_in[0], false);\n"),(PR,SIG,SIG+"	self->is_enabled = false;\n")]),
("no_mark",P,"bad",[(PR,MARK,"	fifo_set_open(self->fifo_in[0], false);\n")]),
("no_signal",P,"bad",[(PR,SIG,SIG.replace("		pthread_cond_signal(&self->waitee_proc->wait_cond);\n",""))]),
("no_update",P,"bad",[(PR,Q1,Q1.replace("		fifo_update(in);\n",""))]),
("upd_other",P,"bad",[(PR,Q1,Q1.replace("fifo_update(in)","fifo_update(self->fifo_in[0])"))]),
("skip_first",P,"bad",[(PR,Q1,Q1.replace("node** it = fifo_begin(in);","node** it = fifo_begin(in);\n		it = fifo_iter(in);"))]),
("root",P,"bad",[(PR,"self->root_fifo != 1) {\n		//fifo_set","self->root_fifo == PROCESS_NO_PIPE_INDEX) {\n		//fifo_set")]),
("dis_running",P,"bad",[(PR,DIS,DIS.replace("==","<="))]),
("dis_any",P,"bad",[(PR,DIS,DIS.replace("ret == PROC_RETURN_COMPLETE","ret == PROC_RETURN_COMPLETE && !(*it)->is_op_true"))]),
("run_disabled",P,"bad",[(PR,"		if (!(*it)->is_enabled) {\n			continue;\n		}\n\n		if ((*it)->wait_list","		if (!(*it)->is_enabled && (*it)->is_passive) {\n			continue;\n		}\n\n		if ((*it)->wait_list")]),
("wait_nocount",P,"bad",[(PR,"				++run_count;\n				continue;","				continue;")]),
("wait_dropped",P,"bad",[(PR,"		if ((*it)->wait_list != NULL) {\n			if (_check","		if ((*it)->wait_list != NULL && run_count) {\n			if (_check")]),
("ret_nocount",P,"bad",[(PR,"		run_count += ret;","		run_count += (ret == PROC_RETURN_RUNNING);")]),
("thr_dis",P,"bad",[(PR,"		case PROC_RETURN_COMPLETE:\n			process_disable(self);\n			break;","		case PROC_RETURN_COMPLETE:\n			self->is_enabled = false;\n			break;")]),
("thr_if",P,"bad",[(PR,"		while (_check_wait_list(self->wait_list)) {","		if (_check_wait_list(self->wait_list)) {")]),
("chk_first",P,"bad",[(PR,"			enabled = true;\n			break;\n		}\n	}","			enabled = true;\n		}\n		break;\n	}")]),
("chk_all",P,"bad",[(PR,"		if ((*it)->is_enabled) {\n			enabled = true;","		if (!(*it)->is_enabled) {\n			enabled = true;")]),
("waitee",P,"bad",[(PR,"	wait_proc->waitee_proc = self;\n","	self->waitee_proc = wait_proc;\n")]),
("en_out1",P,"bad",[(PR,"	fifo_reset(self->fifo_out[1]);\n","")]),
("en_wait",P,"bad",[(PR,"	if (!self->in0_always_dead) {\n","	if (self->in0_always_dead) {\n")]),
("en_killed",P,"bad",[(PR,"	if (self->killed_pipe != PROCESS_NO_PIPE_INDEX) {\n		self->fifo_in[self->killed_pipe]->is_open = false;\n	}\n\n	if (!self->in0_always","	if (!self->in0_always")]),
("en_rows",P,"bad",[(PR,"	self->rows_affected = 0;\n	fifo_reset","	fifo_reset")]),
("en_rebuf",P,"bad",[(PR,"	if (self->rebuf != NULL) {\n		fqlprocess_recycle_buffer(self, self->rebuf, &self->rebuf_iter);\n	}\n\n	if (self->queued","	if (self->queued")]),
("en_restore",P,"bad",[(PR,"		self->fifo_in[0] = self->org_fifo_in0;\n	}\n\n	self->rows","	}\n\n	self->rows")]),
("reset_first",P,"bad",[(PL,"	dnode** it = vec_begin(self->processes->nodes);\n	for (; it != vec_end(self->processes->nodes); ++it) {\n		process* proc = (*it)->data;\n		process_enable","	dnode** it = vec_begin(self->processes->nodes);\n	for (++it; it != vec_end(self->processes->nodes); ++it) {\n		process* proc = (*it)->data;\n		process_enable")]),
("reset_passive",P,"bad",[(PL,"		process_enable(proc);","		if (!proc->is_passive) process_enable(proc);")]),
("ok_close",P,"ok",[(PR,"	if (self->fifo_out[0] != NULL) {\n		fifo_set_open(self->fifo_out[0], false);\n	}\n"+OUT1,"	for (unsigned k = 0; k < 2; ++k)\n		;\n"+OUT1+"	fifo* o0 = self->fifo_out[0];\n	if (o0)\n		fifo_set_open(o0, false);\n")]),
("ok_helper",P,"ok",[(PR,"void process_disable(process* self)\n{","static void _give_back(process* self, fifo* in)\n{\n	node** it = fifo_begin(in);\n	while (it != fifo_end(in)) {\n		fqlprocess_recycle(self, it);\n		it = fifo_iter(in);\n	}\n	fifo_update(in);\n}\n\nvoid process_disable(process* self)\n{"),(PR,Q1,"		_give_back(self, self->fifo_in[1]);\n")]),
("ok_chk",P,"ok",[(PR,"	bool enabled = false;\n	process** it = vec_begin(wait_list);\n	for (; it != vec_end(wait_list); ++it) {\n		if ((*it)->is_enabled) {\n			enabled = true;\n			break;\n		}\n	}\n	return enabled;","	process** it = vec_begin(wait_list);\n	for (size_t k = 0; k < wait_list->size; ++k) {\n		if (it[k]->is_enabled) {\n			return true;\n		}\n	}\n	return false;")]),
("ok_pass",P,"ok",[(PR,"		if (!(*it)->is_enabled) {\n			continue;\n		}\n\n		if ((*it)->wait_list != NULL) {\n			if (_check_wait_list((*it)->wait_list)) {\n				++run_count;\n				continue;\n			}\n		}\n","		process* proc = *it;\n		if (!proc->is_enabled) {\n			continue;\n		}\n\n		if (proc->wait_list != NULL && _check_wait_list(proc->wait_list)) {\n			run_count += 1;\n			continue;\n		}\n"),(PR,"		enum proc_return ret = try_((*it)->action__(*it));\n"+DIS,"		enum proc_return ret = proc->action__(proc);\n		if (ret == PROC_RETURN_FAIL) {\n			return FQL_FAIL;\n		}\n		if (ret == PROC_RETURN_COMPLETE)\n			process_disable(proc);\n")]),
("ok_thread",P,"ok",[(PR,"		switch (self->action__(self)) {\n		case PROC_RETURN_COMPLETE:\n			process_disable(self);\n			break;\n","		enum proc_return ret = self->action__(self);\n		if (ret == PROC_RETURN_COMPLETE) {\n			process_disable(self);\n			continue;\n		}\n		switch (ret) {\n		case PROC_RETURN_COMPLETE:\n			break;\n")]),
("ok_enable",P,"ok",[(PR,"	fifo_reset(self->fifo_in[0]);\n	fifo_reset(self->fifo_in[1]);\n	fifo_reset(self->fifo_out[0]);\n	fifo_reset(self->fifo_out[1]);\n","	fifo_reset(self->fifo_out[1]);\n	fifo_reset(self->fifo_out[0]);\n	fifo_reset(self->fifo_in[1]);\n	fifo_reset(self->fifo_in[0]);\n")]),
]
