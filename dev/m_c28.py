P="C28"; FP="lib/fqlprocesses.c"; O="lib/order.c"; S="lib/schema.c"; OP="lib/operation.c"; Q="lib/query.c"; PR="lib/process.c"; FS="lib/fqlselect.c"
CHK="		    || select->rows_affected >= current_select->top_count) {\n"
END="	if (select->rows_affected >= current_select->top_count) {\n		proc->wait_for_in0 = false;\n		ret = PROC_RETURN_RUNNING;\n	}\n"
INC="		++proc->rows_affected;\n		++select->rows_affected;\n\n		if (out) {"
CASES=[
("gt",P,"bad",[(FP,CHK,CHK.replace(">=",">"))]),
("no_check",P,"bad",[(FP,"		if (iters++ >= proc->max_recs_iter\n"+CHK,"		if (iters++ >= proc->max_recs_iter) {\n")]),
("main_limit",P,"bad",[(FP,CHK,CHK.replace("current_select->top","select->top"))]),
("inc_dropped",P,"bad",[(FP,INC,INC.replace("		++select->rows_affected;\n",""))]),
("inc_out_only",P,"bad",[(FP,INC,"		++select->rows_affected;\n\n		if (out) {\n			++proc->rows_affected;")]),
("no_stop",P,"bad",[(FP,END,"")]),
("stop_gt",P,"bad",[(FP,END,END.replace(">=",">"))]),
("must_twice",P,"bad",[(FP,"			++select->rows_affected;\n			++proc->rows_affected;\n			return PROC_RETURN_RUNNING;","			++proc->rows_affected;\n			return PROC_RETURN_RUNNING;")]),
("must_top0",P,"bad",[(FP,"\n		    && current_select->top_count > 0) {",") {")]),
("order_le",P,"bad",[(O,"proc->rows_affected < self->top_count;","proc->rows_affected <= self->top_count;")]),
("order_count_skip",P,"bad",[(O,"		fwrite(&self->mmap[it->offset], 1, it->len, self->out_file);\n		++proc->rows_affected;","		fwrite(&self->mmap[it->offset], 1, it->len, self->out_file);\n		if (it->len) ++proc->rows_affected;")]),
("api_end",P,"bad",[(FP,"		if (ret == 0) {\n			return PROC_RETURN_COMPLETE;","		if (ret == 0 || proc->rows_affected >= order->top_count) {\n			return PROC_RETURN_COMPLETE;")]),
("api_nolimit",P,"bad",[(O,"\n	    || proc->rows_affected >= self->top_count) {",") {")]),
("api_nocount",P,"bad",[(O,"	++proc->rows_affected;\n	++self->entry_iter;","	++self->entry_iter;")]),
("sel_ctor0",P,"bad",[(FS,"	        .top_count = -1,\n","")]),
("order_ctor",P,"bad",[(O,"	self->top_count = -1;","	self->top_count = 0x7fffffff;")]),
("query_ctor",P,"bad",[(Q,"	        .top_count = -1,\n","")]),
("type",P,"bad",[("lib/fqlselect.h","	size_t top_count;","	long top_count;")]),
("neg",P,"bad",[(S,"		if (aquery->top_expr->field.i < 0) {\n","		if (aquery->top_expr->field.i < -1) {\n")]),
("notint",P,"bad",[(S,"		if (aquery->top_expr->field_type != FIELD_INT) {\n","		if (aquery->top_expr->field_type == FIELD_STRING) {\n")]),
("notconst",P,"bad",[(S,"		if (aquery->top_expr->expr != EXPR_CONST) {\n","		if (aquery->top_expr->expr == EXPR_COLUMN_NAME) {\n")]),
("union",P,"bad",[(S,"	if (aquery->orderby != NULL && vec_empty(aquery->unions)) {\n		aquery->orderby->top","	if (aquery->orderby != NULL) {\n		aquery->orderby->top")]),
("both",P,"bad",[(S,"		aquery->orderby->top_count = aquery->top_count;\n	} else {\n		op_set_top_count(aquery->op, aquery->top_count);\n	}\n","		aquery->orderby->top_count = aquery->top_count;\n	}\n	op_set_top_count(aquery->op, aquery->top_count);\n")]),
("plus1",P,"bad",[(S,"		op_set_top_count(aquery->op, aquery->top_count);\n","		op_set_top_count(aquery->op, aquery->top_count + 1);\n")]),
("op_set",P,"bad",[(OP,"		select->top_count = top_count;\n		break;","		select->offset = top_count;\n		break;")]),
("q_set_neg",P,"bad",[(Q,"	fail_if_(top_count < 0);\n","")]),
("op_true",P,"bad",[(PR,"		if ((*it)->is_op_true) {\n			plan->rows_affected","		if (!(*it)->is_passive) {\n			plan->rows_affected")]),
("thread_true",P,"bad",[(PR,"	if (node == tdata->plan->op_true) {\n","	if (node != tdata->plan->op_true) {\n")]),
("ok_loop",P,"ok",[(FP,"		if (iters++ >= proc->max_recs_iter\n"+CHK,"		size_t limit = current_select->top_count;\n		if (iters >= proc->max_recs_iter || !(select->rows_affected < limit)) {\n"),(FP,"		try_(select->select__(select, *rg_iter));\n		_fqlprocess_print","		++iters;\n		try_(select->select__(select, *rg_iter));\n		_fqlprocess_print")]),
("ok_count_order",P,"ok",[(FP,INC,"		select->rows_affected += 1;\n		proc->rows_affected = proc->rows_affected + 1;\n\n		if (out) {")]),
("ok_print_first",P,"ok",[(FP,"		try_(select->select__(select, *rg_iter));\n		_fqlprocess_print_iter_states(proc,\n		                              ((record*)(*rg_iter)->data)->node_idx);\n","		_fqlprocess_print_iter_states(proc,\n		                              ((record*)(*rg_iter)->data)->node_idx);\n		int sret = select->select__(select, *rg_iter);\n		if (sret == FQL_FAIL)\n			return PROC_RETURN_FAIL;\n")]),
("ok_order",P,"ok",[(O,"	struct _entry* it = vec_begin(&self->entries);\n	for (; it != vec_end(&self->entries) && proc->rows_affected < self->top_count;\n	     ++it) {","	for (size_t k = 0; k < self->entries.size; ++k) {\n		struct _entry* it = vec_at(&self->entries, k);\n		if (proc->rows_affected >= self->top_count) break;\n")]),
("ok_resolve",P,"ok",[(S,"	if (aquery->orderby != NULL && vec_empty(aquery->unions)) {\n		aquery->orderby->top_count = aquery->top_count;\n	} else {\n		op_set_top_count(aquery->op, aquery->top_count);\n	}\n","	if (aquery->orderby == NULL || !vec_empty(aquery->unions)) {\n		op_set_top_count(aquery->op, aquery->top_count);\n	} else {\n		aquery->orderby->top_count = aquery->top_count;\n	}\n")]),
("ok_neg",P,"ok",[(S,"		if (aquery->top_expr->field.i < 0) {\n","		const long top = aquery->top_expr->field.i;\n		if (top <= -1) {\n"),(S,"		aquery->top_count = aquery->top_expr->field.i;\n","		aquery->top_count = top;\n")]),
("ok_orderby",P,"ok",[(FP,"		if (ret == 0) {\n			return PROC_RETURN_COMPLETE;\n		}\n		return PROC_RETURN_RUNNING;\n","		return ret != 0 ? PROC_RETURN_RUNNING : PROC_RETURN_COMPLETE;\n")]),
("ok_helper",P,"ok",[(FP,"enum proc_return fql_select(process* proc)\n","static bool _top_reached(const fqlselect* s, const fqlselect* cur)\n{\n	return s->rows_affected >= cur->top_count;\n}\n\nenum proc_return fql_select(process* proc)\n"),(FP,CHK,"		    || _top_reached(select, current_select)) {\n"),(FP,END,END.replace("select->rows_affected >= current_select->top_count","_top_reached(select, current_select)"))]),
]
