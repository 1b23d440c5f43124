P="C21"; L="lib/libfql.c"; M="src/fql.c"; S="lib/fqlselect.c"; Q="lib/query.c"
STD='''	if (istring_eq(std, "ALL")) {
		fql->props.%s = QUOTE_ALL;
	} else if (istring_eq(std, "WEAK")) {
		fql->props.%s = QUOTE_WEAK;
	} else if (istring_eq(std, "NONE")) {
		fql->props.%s = QUOTE_NONE;
	} else if (istring_eq(std, "RFC4180")) {
		fql->props.%s = QUOTE_RFC4180;
	} else {
		fprintf(stderr,
		        "Invalid quote option: %%s\\n"
		        "Options: NONE, WEAK, RFC4180, ALL\\n",
		        std);
		return FQL_FAIL;
	}
	return FQL_GOOD;
'''
IN=STD.replace("%s","in_std",4).replace("%%","%"); OUT=STD.replace("%s","out_std",4).replace("%%","%")
HELP='''static int _quote(const char* std, int* out)
{
	if (istring_eq(std, "ALL")) {
		*out = QUOTE_ALL;
	} else if (istring_eq(std, "WEAK")) {
		*out = QUOTE_WEAK;
	} else if (istring_eq(std, "NONE")) {
		*out = QUOTE_NONE;
	} else if (istring_eq(std, "RFC4180")) {
		*out = QUOTE_RFC4180;
	} else {
		fprintf(stderr, "Invalid quote option: %s\\n", std);
		return FQL_FAIL;
	}
	return FQL_GOOD;
}

'''
TAB='''	static const struct {
		const char* name;
		int value;
	} names[] = {{"ALL", QUOTE_ALL}, {"WEAK", QUOTE_WEAK}, {"NONE", QUOTE_NONE}, {"RFC4180", QUOTE_RFC4180}};
	for (int i = 0; i < 4; ++i) {
		if (istring_eq(std, names[i].name)) {
			fql->props.in_std = names[i].value;
			return FQL_GOOD;
		}
	}
	fprintf(stderr, "Invalid quote option: %s\\n", std);
	return FQL_FAIL;
'''
CASES=[
("dry_parse",P,"bad",[(L,"	fql->props.dry_run = dry_run;","	fql->props.parse_only = dry_run;")]),
("dry_both",P,"bad",[(L,"	fql->props.dry_run = dry_run;","	fql->props.dry_run = dry_run;\n	fql->props.print_plan = dry_run;")]),
("hdr_neg",P,"bad",[(L,"	fql->props.print_header = print_header;","	fql->props.print_header = !print_header;")]),
("hdr_or",P,"bad",[(L,"	fql->props.print_header = print_header;","	fql->props.print_header |= print_header;")]),
("hdr_one",P,"bad",[(L,"	fql->props.print_header = print_header;","	fql->props.print_header = (print_header == 1);")]),
("in_out",P,"bad",[(L,"		fql->props.in_std = QUOTE_WEAK;","		fql->props.out_std = QUOTE_WEAK;")]),
("weak_none",P,"bad",[(L,"		fql->props.in_std = QUOTE_WEAK;","		fql->props.in_std = QUOTE_NONE;")]),
("std_accept",P,"bad",[(L,"		        std);\n		return FQL_FAIL;\n	}\n	return FQL_GOOD;\n}\n\nint fql_set_out_std","		        std);\n	}\n	return FQL_GOOD;\n}\n\nint fql_set_out_std")]),
("delim_swap",P,"bad",[(L,"strncpy_(fql->props.in_delim, delim","strncpy_(fql->props.out_delim, delim")]),
("delim_noset",P,"bad",[(L,"	fql->_out_delim_set = true;\n","")]),
("term_len",P,"bad",[(L,"strncpy_(fql->props.rec_terminator, term, 32);","strncpy_(fql->props.rec_terminator, term, 64);")]),
("term_cat",P,"bad",[(L,"strncpy_(fql->props.rec_terminator, term, 32);","strncat(fql->props.rec_terminator, term, 32);")]),
("factor",P,"bad",[(L,"	fql->props.pipe_factor = applied_pipe_factor;","	fql->props.pipe_factor = pipe_factor;")]),
("factor_max",P,"bad",[(L,"		applied_pipe_factor = PIPE_FACTOR_MAX;","		applied_pipe_factor = PIPE_FACTOR_MIN;")]),
("factor_lt",P,"bad",[(L,"	if (applied_pipe_factor < PIPE_FACTOR_MIN) {","	if (applied_pipe_factor <= 0) {")]),
("thread_any",P,"bad",[(L,"	if (threading && fql->props.pipe_factor == PIPE_FACTOR_DEFAULT) {","	if (threading) {")]),
("thread_off",P,"bad",[(L,"	if (threading && sysconf(_SC_NPROCESSORS_ONLN) < 2) {","	if (sysconf(_SC_NPROCESSORS_ONLN) < 2) {")]),
("crlf",P,"bad",[(L,"		fql->props.rec_terminator[2] = '\\0';\n","")]),
("crlf_off",P,"bad",[(L,"	} else {\n		fql->props.rec_terminator[0] = '\\n';\n		fql->props.rec_terminator[1] = '\\0';\n	}","	}")]),

("def_over",P,"bad",[(L,"	                .print_header = true,","	                .print_header = true,\n	                .overwrite = true,")]),
("def_std",P,"bad",[(L,".in_std = QUOTE_RFC4180",".in_std = QUOTE_WEAK")]),
("opt_o",P,"bad",[(M,"		fql_set_overwrite(handle, 1);","		fql_set_override_warnings(handle, 1);")]),
("opt_fall",P,"bad",[(M,"		fql_set_overwrite(handle, 1);\n		break;","		fql_set_overwrite(handle, 1);\n		/* fall through */")]),
("opt_h",P,"bad",[(M,"		fql_set_print_header(handle, 0);","		fql_set_print_header(handle, 1);")]),
("opt_letters",P,"bad",[(M,"oOpP:qR:s:S:tvW","oOpPqR:s:S:tvW")]),
("opt_table",P,"bad",[(M,'{"overwrite", no_argument, 0, \'o\'}','{"overwrite", no_argument, 0, \'O\'}')]),
("opt_table_arg",P,"bad",[(M,'{"pipe-factor", required_argument','{"pipe-factor", no_argument')]),
("opt_fail",P,"bad",[(M,"		if (fql_set_out_std(handle, optarg) == FQL_FAIL) {\n			exit(EXIT_FAILURE);\n		}","		fql_set_out_std(handle, optarg);")]),
("opt_exit0",P,"bad",[(M,"		if (fql_set_in_std(handle, optarg) == FQL_FAIL) {\n			exit(EXIT_FAILURE);","		if (fql_set_in_std(handle, optarg) == FQL_FAIL) {\n			exit(EXIT_SUCCESS);")]),
("opt_P",P,"bad",[(M,"fql_set_pipe_factor(handle, atoi(optarg))","fql_set_pipe_factor(handle, optarg[0] - '0')")]),
("dry_effect",P,"bad",[(L,"	if (!fql->props.dry_run) {","	if (!fql->props.parse_only) {")]),
("dry_effect2",P,"bad",[(L,"	if (!fql->props.dry_run) {","	if (fql->props.dry_run != 1) {")]),
("sel_hdr",P,"bad",[(S,"(!self->schema->is_default && !query->fqlref->props.add_header)","(!self->schema->is_default && !query->fqlref->props.print_header)")]),
("sel_hdr2",P,"bad",[(S,"    || (self->schema->is_default && !query->fqlref->props.print_header)) {","    || !query->fqlref->props.print_header) {")]),
("stdin",P,"bad",[(Q,"		if (self->fqlref->props.allow_stdin) {","		if (!self->fqlref->props.dry_run) {")]),
("ok_helper",P,"ok",[(L,"int fql_set_in_std(",HELP+"int fql_set_in_std("),(L,IN,"	int q = 0;\n	if (_quote(std, &q) == FQL_FAIL) {\n		return FQL_FAIL;\n	}\n	fql->props.in_std = q;\n	return FQL_GOOD;\n"),(L,OUT,"	int q = 0;\n	if (_quote(std, &q) == FQL_FAIL) {\n		return FQL_FAIL;\n	}\n	fql->props.out_std = q;\n	return FQL_GOOD;\n")]),
("ok_table",P,"ok",[(L,IN,TAB)]),
("ok_bool",P,"ok",[(L,"	fql->props.dry_run = dry_run;","	fql->props.dry_run = (dry_run != 0);")]),
("ok_bool2",P,"ok",[(L,"	fql->props.dry_run = dry_run;","	if (dry_run) {\n		fql->props.dry_run = 1;\n	} else {\n		fql->props.dry_run = 0;\n	}")]),
("ok_delim",P,"ok",[(L,"strncpy_(fql->props.in_delim, delim, DELIM_LEN_MAX);","snprintf(fql->props.in_delim, sizeof(fql->props.in_delim), \"%s\", delim);")]),
("ok_factor",P,"ok",[(L,"	int applied_pipe_factor = pipe_factor;\n	if (applied_pipe_factor < PIPE_FACTOR_MIN) {\n		applied_pipe_factor = PIPE_FACTOR_MIN;\n	} else if (applied_pipe_factor > PIPE_FACTOR_MAX) {\n		applied_pipe_factor = PIPE_FACTOR_MAX;\n	}\n","	int applied_pipe_factor = pipe_factor > PIPE_FACTOR_MAX ? PIPE_FACTOR_MAX : pipe_factor < PIPE_FACTOR_MIN ? PIPE_FACTOR_MIN : pipe_factor;\n")]),
("ok_crlf",P,"ok",[(L,"	if (crlf) {\n","	char* t = fql->props.rec_terminator;\n	if (crlf) {\n"),(L,"		fql->props.rec_terminator[0] = '\\r';\n		fql->props.rec_terminator[1] = '\\n';\n		fql->props.rec_terminator[2] = '\\0';","		*t++ = '\\r';\n		*t++ = '\\n';\n		*t = '\\0';")]),
("ok_crlf2",P,"ok",[(L,"		fql->props.rec_terminator[0] = '\\r';\n		fql->props.rec_terminator[1] = '\\n';\n		fql->props.rec_terminator[2] = '\\0';","		strcpy(fql->props.rec_terminator, \"\\r\\n\");")]),
("ok_opt",P,"ok",[(M,"	case 'P':\n		fql_set_pipe_factor(handle, atoi(optarg));","	case 'P': {\n		int factor = atoi(optarg);\n		fql_set_pipe_factor(handle, factor);\n	}")]),
("ok_opt_ret",P,"ok",[(M,"	case 'o':\n		fql_set_overwrite(handle, 1);\n		break;","	case 'o':\n		fql_set_overwrite(handle, 1);\n		return;")]),
("ok_exit",P,"ok",[(M,"		if (fql_set_in_std(handle, optarg) == FQL_FAIL) {\n			exit(EXIT_FAILURE);\n		}","		if (fql_set_in_std(handle, optarg) != FQL_GOOD) {\n			exit(EXIT_FAILURE);\n		}")]),
("ok_sel",P,"ok",[(S,"    || (!self->schema->is_default && !query->fqlref->props.add_header)\n	    || (self->schema->is_default && !query->fqlref->props.print_header)) {","    || !(self->schema->is_default ? query->fqlref->props.print_header : query->fqlref->props.add_header)) {")]),
("ok_dry",P,"ok",[(L,"	if (!fql->props.dry_run) {","	if (fql->props.dry_run == 0) {")]),
]
