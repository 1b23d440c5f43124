F="util/hashmap.c"
V="util/vec.c"
P="C17"
LOOK="""	while (entry->val_idx != _NONE
	       && (entry->key_len != *key_len || entry->hash != *hash
	           || memcmp(&self->_keybuf[entry->key_idx],
	                     &self->_keybuf[self->_keybuf_head],
	                     *key_len)
	                      != 0)) {
		idx = (idx + 1) % self->_limit;
		entry = &self->_entries[idx];
	}
"""
CASES=[
("c17_nolen",P,"bad",[(F,"(entry->key_len != *key_len || entry->hash != *hash\n	           || memcmp","(entry->hash != *hash\n	           || memcmp")]),
("c17_nomemcmp",P,"bad",[(F,"""entry->hash != *hash
	           || memcmp(&self->_keybuf[entry->key_idx],
	                     &self->_keybuf[self->_keybuf_head],
	                     *key_len)
	                      != 0)) {""","""entry->hash != *hash)) {""")]),
("c17_oldlen",P,"bad",[(F,"	*hash = self->get_hash__(self, key, key_len);","	unsigned n0 = *key_len;\n	*hash = self->get_hash__(self, key, key_len);\n	*key_len = n0;")]),
("c17_step2",P,"bad",[(F,"		idx = (idx + 1) % self->_limit;\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc","		idx = (idx + 2) % self->_limit;\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc")]),
("c17_nowrap",P,"bad",[(F,"		idx = (idx + 1) % self->_limit;\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc","		idx = idx + 1;\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc")]),
("c17_room",P,"bad",[(F,"	while (self->_keybuf_head + *key_len > self->_keybuf_len) {","	while (*key_len > self->_keybuf_len) {")]),
("c17_room_if",P,"bad",[(F,"	while (self->_keybuf_head + *key_len > self->_keybuf_len) {","	if (self->_keybuf_head + *key_len > self->_keybuf_len) {")]),
("c17_realloc",P,"bad",[(F,"		self->_keybuf_len *= 2;\n		realloc_(self->_keybuf, self->_keybuf_len);\n	}\n\n	*hash","		realloc_(self->_keybuf, self->_keybuf_len * 2);\n		self->_keybuf_len *= 4;\n	}\n\n	*hash")]),
("c17_nohead",P,"bad",[(F,"	entry->hash = hash;\n	self->_keybuf_head += n;\n	uintptr","	entry->hash = hash;\n	uintptr")]),
("c17_validx",P,"bad",[(F,"		entry->val_idx = self->values->size;\n		entry->hash = hash;\n		self->_keybuf_head += n;\n		vec_push_back(self->values, data);","		entry->hash = hash;\n		self->_keybuf_head += n;\n		vec_push_back(self->values, data);\n		entry->val_idx = self->values->size;")]),
("c17_grow100",P,"bad",[(F,"const double _FULL_PERCENT = .9;","const double _FULL_PERCENT = 1.0;")]),
("c17_growcond",P,"bad",[(F,"		if (self->values->size > _FULL_PERCENT * self->_limit) {\n			_increase_size(self);\n		}\n	} else {\n		vec_set_at(self->values, entry->val_idx, data, 1);\n	}\n}\n\nvoid* hashmap_nget","		if (self->values->size > self->_limit) {\n			_increase_size(self);\n		}\n	} else {\n		vec_set_at(self->values, entry->val_idx, data, 1);\n	}\n}\n\nvoid* hashmap_nget")]),
("c17_growlimit",P,"bad",[(F,"	self->_limit = _next_power_of_2(++self->_limit);","	self->_limit = _next_power_of_2(self->_limit);")]),
("c17_pow2",P,"bad",[(F,"	self->_limit = _next_power_of_2(++self->_limit);","	self->_limit = self->_limit * 3;")]),
("c17_rehash_last",P,"bad",[(F,"	for (; i < old_limit; ++i) {","	for (; i < old_limit - 1; ++i) {")]),
("c17_rehash_noprobe",P,"bad",[(F,"		while (dest_entry->val_idx != _NONE) {\n			idx = (idx + 1) % self->_limit;\n			dest_entry = &self->_entries[idx];\n		}\n","")]),
("c17_rehash_mask",P,"bad",[(F,"		size_t idx = (size_t)(src_entries[i].hash & (self->_limit - 1));","		size_t idx = (size_t)(src_entries[i].hash & (old_limit - 1));")]),
("c17_memset",P,"bad",[(F,"	self->_entries = malloc_(self->_limit * sizeof(struct hm_entry));\n	memset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);","	self->_entries = malloc_(self->_limit * sizeof(struct hm_entry));\n	memset(self->_entries, -1, sizeof(struct hm_entry) * old_limit);")]),
("c17_nocase_raw",P,"bad",[(F,"		*keyptr = tolower(key[i]);\n		hash *= _PRIME;\n		hash ^= (uint64_t)*keyptr;\n	}","		*keyptr = tolower(key[i]);\n		hash *= _PRIME;\n		hash ^= (uint64_t)key[i];\n	}")]),
("c17_nocase_store",P,"bad",[(F,"		*keyptr = tolower(key[i]);\n		hash *= _PRIME;\n		hash ^= (uint64_t)*keyptr;\n	}","		*keyptr = key[i];\n		hash *= _PRIME;\n		hash ^= (uint64_t)tolower(*keyptr);\n	}")]),
("c17_rtrim_i",P,"bad",[(F,"			last_not_space_n = i + 1;","			last_not_space_n = i;")]),
("c17_rtrim_hash",P,"bad",[(F,"	*n = last_not_space_n;\n	return last_not_space_hash;","	*n = last_not_space_n;\n	return hash;")]),
("c17_rtrim_n",P,"bad",[(F,"	*n = last_not_space_n;\n	return last_not_space_hash;","	return last_not_space_hash;")]),
("c17_rtrim_swap",P,"bad",[(F,"	case HASHMAP_PROP_RTRIM:\n		self->get_hash__ = _hash_rtrim;","	case HASHMAP_PROP_RTRIM:\n		self->get_hash__ = _hash_nocase_rtrim;")]),
("c17_comp_ord",P,"bad",[(F,"	       && (entry->key_len != key->size || entry->hash","	       && (entry->hash")]),
("c17_comp_len",P,"bad",[(F,"		if (kl0[i].len != kl1[i].len\n		    || memcmp(","		if (memcmp(")]),
("c17_comp_first",P,"bad",[(F,"	for (; i < ent->key_len; ++i) {","	for (; i + 1 < ent->key_len; ++i) {")]),
("c17_comp_head",P,"bad",[(F,"	self->_keybuf_head -= *key_len;\n","")]),
("c17_comp_kl",P,"bad",[(F,"		kl->len = len;","		kl->len = it->len;")]),
("c17_comp_klen",P,"bad",[(F,"		*key_len += len;","		*key_len += it->len;")]),
("c17_comp_keyidx",P,"bad",[(F,"		entry->key_idx = self->_keys->size;\n		entry->key_len = key->size;\n		entry->val_idx = self->values->size;\n		entry->hash = hash;\n		self->_keybuf_head += key_len;\n		vec_extend(self->_keys, self->_key_temp);","		entry->key_len = key->size;\n		entry->val_idx = self->values->size;\n		entry->hash = hash;\n		self->_keybuf_head += key_len;\n		vec_extend(self->_keys, self->_key_temp);\n		entry->key_idx = self->_keys->size;")]),
("c17_comp_temp",P,"bad",[(F,"	vec_resize(self->_key_temp, key->size);\n\n	uint64_t hash = 0;\n	unsigned key_len = 0;\n	struct hm_entry* entry = _composite_get_entry(self, key, &key_len, &hash);\n\n	if (entry->val_idx == _NONE) {\n		return NULL;","	uint64_t hash = 0;\n	unsigned key_len = 0;\n	struct hm_entry* entry = _composite_get_entry(self, key, &key_len, &hash);\n\n	if (entry->val_idx == _NONE) {\n		return NULL;")]),
("c17_comp_setkey",P,"bad",[(F,"		self->_keybuf_head += key_len;\n","")]),
("c17_get_wrong",P,"bad",[(F,"	return vec_at(self->values, entry->val_idx);\n}\n\n/* elem","	return vec_at(self->values, entry->key_idx);\n}\n\n/* elem")]),
("c17_nhas",P,"bad",[(F,"	return (entry->val_idx != _NONE);","	return (entry->val_idx != _NONE && entry->key_len);")]),
("c17_multi_first",P,"bad",[(F,"		vec_push_back(entryvec, data);","		if (entryvec->size > 1) vec_push_back(entryvec, data); else vec_set_at(entryvec, 0, data, 1);")]),
("c17_clear_head",P,"bad",[(F,"	vec_clear(self->_keys);\n	vec_clear(self->values);\n	self->_keybuf_head = 0;\n	memset(","	vec_clear(self->_keys);\n	vec_clear(self->values);\n	memset(")]),
("c17_clear_keys",P,"bad",[(F,"	vec_clear(self->_keys);\n	vec_clear(self->values);\n	self->_keybuf_head = 0;\n	memset(","	vec_clear(self->values);\n	self->_keybuf_head = 0;\n	memset(")]),
("c17_clear_ents",P,"bad",[(F,"void set_clear(set* restrict self)\n{\n	self->_keybuf_head = 0;\n	memset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);","void set_clear(set* restrict self)\n{\n	self->_keybuf_head = 0;\n	memset(self->_entries, -1, sizeof(self->_entries) * self->_limit);")]),
("c17_construct_limit",P,"bad",[(F,"	limit = _next_power_of_2(limit);\n\n","	limit = limit ? limit : 1;\n\n")]),
("ok17_mask",P,"ok",[(F,"		idx = (idx + 1) % self->_limit;\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc","		idx = (idx + 1) & (self->_limit - 1);\n		entry = self->_entries + idx;\n	}\n\n	return entry;\n}\n\nvoid _inc")]),
("ok17_wrapif",P,"ok",[(F,"		idx = (idx + 1) % self->_limit;\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc","		if (++idx == self->_limit) {\n			idx = 0;\n		}\n		entry = &self->_entries[idx];\n	}\n\n	return entry;\n}\n\nvoid _inc")]),
("ok17_forever",P,"ok",[(F,LOOK,"""	for (;;) {
		if (entry->val_idx == _NONE)
			break;
		if (entry->hash == *hash && entry->key_len == *key_len) {
			const char* stored = self->_keybuf + entry->key_idx;
			if (memcmp(stored, self->_keybuf + self->_keybuf_head, entry->key_len) == 0)
				break;
		}
		idx = (idx + 1) % self->_limit;
		entry = &self->_entries[idx];
	}
""")]),
("ok17_helper",P,"ok",[(F,"struct hm_entry* _get_entry(hashmap* restrict self,\n                            const char* restrict key,\n                            unsigned* restrict key_len,","static bool _same(hashmap* self, struct hm_entry* e, unsigned n, uint64_t h)\n{\n	if (e->key_len != n)\n		return false;\n	if (e->hash != h)\n		return false;\n	return !memcmp(&self->_keybuf[e->key_idx], &self->_keybuf[self->_keybuf_head], n);\n}\n\nstruct hm_entry* _get_entry(hashmap* restrict self,\n                            const char* restrict key,\n                            unsigned* restrict key_len,"),(F,LOOK,"	while (entry->val_idx != _NONE && !_same(self, entry, *key_len, *hash)) {\n		idx = (idx + 1) % self->_limit;\n		entry = &self->_entries[idx];\n	}\n")]),
("ok17_keygrow",P,"ok",[(F,"	while (self->_keybuf_head + *key_len > self->_keybuf_len) {\n		self->_keybuf_len *= 2;\n		realloc_(self->_keybuf, self->_keybuf_len);\n	}\n\n	*hash","	size_t need = self->_keybuf_head + *key_len;\n	while (self->_keybuf_len < need) {\n		self->_keybuf_len = self->_keybuf_len << 1;\n		realloc_(self->_keybuf, self->_keybuf_len);\n	}\n\n	*hash")]),
("ok17_pushback",P,"ok",[(F,"		self->_keybuf_head += n;\n		vec_push_back(self->values, data);","		self->_keybuf_head += n;\n		memcpy(vec_add_one(self->values), data, self->values->_elem_size);")]),
("ok17_grow2",P,"ok",[(F,"	self->_limit = _next_power_of_2(++self->_limit);","	self->_limit *= 2;")]),
("ok17_growcond",P,"ok",[(F,"	if (*size > _FULL_PERCENT * self->_limit) {","	if (*size * 10 > self->_limit * 9) {")]),
("ok17_rehash_ptr",P,"ok",[(F,"""	size_t i = 0;
	for (; i < old_limit; ++i) {
		if (src_entries[i].val_idx == _NONE) {
			continue;
		}

		size_t idx = (size_t)(src_entries[i].hash & (self->_limit - 1));
""","""	struct hm_entry* src = src_entries;
	for (; src != src_entries + old_limit; ++src) {
		if (src->val_idx == _NONE) {
			continue;
		}

		size_t idx = (size_t)(src->hash & (self->_limit - 1));
"""),(F,"		*dest_entry = src_entries[i];","		*dest_entry = *src;")]),
("ok17_hash_idx",P,"ok",[(F,"	for (; i < *n; ++i, ++keyptr) {\n		*keyptr = key[i];\n		hash *= _PRIME;\n		hash ^= (uint64_t)*keyptr;\n	}","	const unsigned len = *n;\n	while (i < len) {\n		char c = key[i];\n		keyptr[i] = c;\n		hash = (hash * _PRIME) ^ (uint64_t)c;\n		i++;\n	}")]),
("ok17_nget_tern",P,"ok",[(F,"	if (entry->val_idx == _NONE) { /* new value */\n		return NULL;\n	}\n\n	return vec_at(self->values, entry->val_idx);\n}\n\n/* elem","	return entry->val_idx == _NONE ? NULL : (char*)self->values->data + entry->val_idx * self->values->_elem_size;\n}\n\n/* elem")]),
("ok17_reorder",P,"ok",[(F,"	entry->val_idx = 0;\n	entry->key_idx = self->_keybuf_head;\n	entry->key_len = n;\n	entry->hash = hash;\n	self->_keybuf_head += n;","	entry->hash = hash;\n	entry->key_len = n;\n	entry->key_idx = self->_keybuf_head;\n	self->_keybuf_head = entry->key_idx + n;\n	entry->val_idx = 0;")]),
("ok17_comp_while",P,"ok",[(F,"	unsigned i = 0;\n	for (; i < ent->key_len; ++i) {\n		if (kl0[i].len != kl1[i].len\n		    || memcmp(&self->_keybuf[kl0[i].idx],\n		              &self->_keybuf[kl1[i].idx],\n		              kl0[i].len)) {\n			return false;\n		}\n	}\n\n	return true;","	unsigned i = 0;\n	while (i < ent->key_len) {\n		if (kl0[i].len != kl1[i].len)\n			return false;\n		if (memcmp(self->_keybuf + kl0[i].idx, self->_keybuf + kl1[i].idx, kl1[i].len) != 0)\n			return false;\n		++i;\n	}\n	return true;")]),
("ok17_comp_for",P,"ok",[(F,"	for (; it != vec_end(key); ++it) {\n		while (self->_keybuf_head + it->len","	for (size_t p = 0; p < key->size; ++p) {\n		it = vec_at(key, p);\n		while (self->_keybuf_head + it->len")]),
("ok17_clear",P,"ok",[(F,"	vec_clear(self->_keys);\n	vec_clear(self->values);\n	self->_keybuf_head = 0;\n	memset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);","	vec_clear(self->_keys);\n	hashmap_clear(self);")]),
]
