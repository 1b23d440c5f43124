O = "lib/order.c"
CMP = "		if ((*it)->descending)\n			ret *= -1;\n\n		++idx0;\n		++idx1;\n"
FLT = """			double* num0 = flex_at(&orderby->order_data, idx0);
			double* num1 = flex_at(&orderby->order_data, idx1);
			ret = num_compare_(*num0, *num1);"""
INT = """			long* num0 = flex_at(&orderby->order_data, idx0);
			long* num1 = flex_at(&orderby->order_data, idx1);
			ret = num_compare_(*num0, *num1);"""
STR = "			ret = stringview_compare_nocase_rtrim(&sv0, &sv1);\n"
LOOP = "	for (; ret == 0 && it != vec_end(&orderby->expressions); ++it) {\n"
CASES = [
 ("desc-dropped", "C24", "bad", [(O, CMP, "		++idx0;\n		++idx1;\n")]),
 ("desc-inverted", "C24", "bad", [(O, "if ((*it)->descending)\n", "if (!(*it)->descending)\n")]),
 ("idx1-not-advanced", "C24", "bad", [(O, CMP, CMP.replace("		++idx1;\n", ""))]),
 ("int-truncated", "C24", "bad", [(O, INT, INT.replace("num_compare_(*num0, *num1)", "(int)(*num0 - *num1)"))]),
 ("float-truncated", "C24", "bad", [(O, FLT, FLT.replace("num_compare_(*num0, *num1)", "(int)(*num0 - *num1)"))]),
 ("int-swapped", "C24", "bad", [(O, INT, INT.replace("num_compare_(*num0, *num1)", "num_compare_(*num1, *num0)"))]),
 ("int-bool", "C24", "bad", [(O, INT, INT.replace("num_compare_(*num0, *num1)", "*num0 > *num1"))]),
 ("int-same-row", "C24", "bad", [(O, INT, INT.replace("long* num1 = flex_at(&orderby->order_data, idx1)", "long* num1 = flex_at(&orderby->order_data, idx0)"))]),
 ("no-stop", "C24", "bad", [(O, LOOP, LOOP.replace("ret == 0 && ", ""))]),
 ("stop-negative", "C24", "bad", [(O, LOOP, LOOP.replace("ret == 0", "ret >= 0"))]),
 ("str-cased", "C24", "bad", [(O, STR, STR.replace("stringview_compare_nocase_rtrim", "stringview_compare"))]),
 ("str-flipped", "C24", "bad", [(O, STR, STR.replace("&sv0, &sv1", "&sv1, &sv0"))]),
 ("str-desc-early", "C24", "bad", [(O, STR, STR + "			return ret;\n")]),
 ("key-order", "C24", "bad", [(O, "expression_get_int(&num_i, exprs[i], rg)", "expression_get_int(&num_i, exprs[0], rg)")]),
 ("key-width", "C24", "bad", [(O, "flex_push_back_(&self->order_data, &num_f, double)", "flex_push_back_(&self->order_data, &num_f, float)")]),
 ("key-skip", "C24", "bad", [(O, "			flex_push_back(&self->order_data, (void*)sv.data, sv.len);\n", "			if (sv.len) flex_push_back(&self->order_data, (void*)sv.data, sv.len);\n")]),
 ("idx-late", "C24", "bad", [(O, "	        .idx = flex_size(&self->order_data),\n", "	        .idx = self->entries.size,\n")]),
 ("len-rec", "C24", "bad", [(O, ".len = top->select_len", ".len = top->select_len - 1")] ),
 ("order-first-skipped", "C24", "bad", [(O, "	unsigned i = 0;\n	for (; i < self->expressions.size; ++i) {\n		switch (exprs[i]", "	unsigned i = 1;\n	for (; i < self->expressions.size; ++i) {\n		switch (exprs[i]")]),
 ("not-sorted", "C24", "bad", [("lib/fqlprocesses.c", "		if (!order->sorted) {\n", "		if (!order->sorted && order->top_count > 1) {\n")]),
 ("sort-self", "C24", "bad", [(O, "vec_sort_r(&self->entries, &_compare, self)", "vec_sort_r(&self->expressions, &_compare, self)")]),
 ("output-offset", "C24", "bad", [(O, "		fwrite(&self->mmap[it->offset], 1, it->len", "		fwrite(&self->mmap[it->idx], 1, it->len")]),
 ("output-skip", "C24", "bad", [(O, "		fwrite(&self->mmap[it->offset]", "		if (it->len > 1) fwrite(&self->mmap[it->offset]")]),
 ("sort-r-n", "C24", "bad", [("util/vec.c", "qsort_r(self->data, self->size, ", "qsort_r(self->data, self->size - 1, ")]),
 ("early-return", "C24", "ok", [(O, LOOP, LOOP.replace("ret == 0 && ", "")), (O, CMP, "		if (ret != 0) {\n			return (*it)->descending ? -ret : ret;\n		}\n\n		++idx0;\n		++idx1;\n")]),
 ("index-loop", "C24", "ok", [(O, "	expression** it = vec_begin(&orderby->expressions);\n" + LOOP, "	size_t k = 0;\n	for (; ret == 0 && k < orderby->expressions.size; ++k) {\n		expression** it = vec_at(&orderby->expressions, k);\n"), (O, CMP, "		if ((*it)->descending) {\n			ret = -ret;\n		}\n		++idx0;\n		++idx1;\n")]),
 ("idx-plus-k", "C24", "ok", [(O, "	expression** it = vec_begin(&orderby->expressions);\n" + LOOP, "	size_t k = 0;\n	for (; ret == 0 && k < orderby->expressions.size; ++k) {\n		expression** it = vec_at(&orderby->expressions, k);\n		size_t idx0 = p0->idx + k, idx1 = p1->idx + k;\n"), (O, "	size_t idx0 = p0->idx;\n	size_t idx1 = p1->idx;\n", ""), (O, CMP, "		if ((*it)->descending) {\n			ret = 0 - ret;\n		}\n")]),
 ("int-ternary", "C24", "ok", [(O, INT, INT.replace("num_compare_(*num0, *num1)", "*num0 < *num1 ? -1 : *num0 != *num1"))]),
 ("desc-swap", "C24", "ok", [(O, STR, "			if ((*it)->descending) {\n				ret = -stringview_compare_nocase_rtrim(&sv0, &sv1);\n			} else {\n				ret = stringview_compare_nocase_rtrim(&sv0, &sv1);\n			}\n			if ((*it)->descending) ret = -ret;\n")]),
 ("keys-pointer", "C24", "ok", [(O, "	unsigned i = 0;\n	for (; i < self->expressions.size; ++i) {\n		switch (exprs[i]", "	size_t left = self->expressions.size;\n	for (unsigned i = 0; left > 0; ++i, --left) {\n		switch (exprs[i]")]),
 ("keys-iter", "C24", "ok", [(O, "	unsigned i = 0;\n	for (; i < self->expressions.size; ++i) {\n		switch (exprs[i]", "	const unsigned i = 0;\n	for (; exprs != vec_end(&self->expressions); ++exprs) {\n		switch (exprs[i]")]),
 ("output-index", "C24", "ok", [(O, "	struct _entry* it = vec_begin(&self->entries);\n	for (; it != vec_end(&self->entries) && proc->rows_affected < self->top_count;\n	     ++it) {", "	for (size_t k = 0; k < self->entries.size; ++k) {\n		struct _entry* it = vec_at(&self->entries, k);\n		if (proc->rows_affected >= self->top_count) break;\n")]),
 ("sort-first", "C24", "ok", [("lib/fqlprocesses.c", "		if (!order->sorted) {\n			try_(order_sort(order));\n		}\n", "		if (!order->sorted) {\n			int sret = order_sort(order);\n			if (sret == FQL_FAIL) return PROC_RETURN_FAIL;\n		}\n")]),
]
