I="lib/antlr/listenerinterface.cpp"; A="lib/antlr/antlr.cpp"; W="lib/antlr/treewalker.cpp"; E="lib/antlr/errorlistener.cpp"; L="lib/libfql.c"; H="lib/antlr/listenerinterface.h"
def b(n,*e): return (n,"C08","bad",list(e))
def ok(n,*e): return (n,"C08","ok",list(e))
MERGE="void ListenerInterface::enterMerge_statement(TSqlParser::Merge_statementContext * ctx) { _no_impl(ctx->getStart()->getText(), ctx->getRuleIndex()); }"
CASES=[
b("drop",(I,MERGE,MERGE.split("{")[0]+"{ }")),
b("cond",(I,MERGE,MERGE.replace("{ _no","{ if (!_query) { return; } _no"))),
b("override-inv",(I,"	if(_fql->props.override_warnings) {","	if(!_fql->props.override_warnings) {")),
b("override-or",(I,"	if(_fql->props.override_warnings) {","	if(_fql->props.override_warnings || _subquery) {") ) if False else None,
b("other-prop",(I,"	if(_fql->props.override_warnings) {","	if(_fql->props.print_plan) {")),
b("no-code",(I,"	_return_code = FQL_FAIL;\n	_walker","	_walker")),
b("no-stop",(I,"	_return_code = FQL_FAIL;\n	_walker->set_walking(false);","	_return_code = FQL_FAIL;")),
b("stop-true",(I,"	_walker->set_walking(false);","	_walker->set_walking(true);")),
b("good",(I,"	_return_code = FQL_FAIL;\n","	_return_code = FQL_GOOD;\n")),
b("reset-code",(I,"void ListenerInterface::exitBatch(TSqlParser::BatchContext * ctx) { }","void ListenerInterface::exitBatch(TSqlParser::BatchContext * ctx) { _return_code = FQL_GOOD; }")),
b("rewalk",(I,"void ListenerInterface::enterBatch(TSqlParser::BatchContext * ctx) { }","void ListenerInterface::enterBatch(TSqlParser::BatchContext * ctx) { _walker->set_walking(true); }")),
b("walk-inner",(W,"		} while (_walking && currentNode != nullptr);","		} while (currentNode != nullptr);")),
b("walk-outer",(W,"	while (_walking && currentNode","	while (currentNode")),
b("walk-or",(W,"	while (_walking && currentNode","	while (_walking || currentNode")),
b("setw",(W,"	_walking = walking;","	_walking = true;")),
b("lex-or",(A,"	if (myLexerErrorListener.getError()\n	    || my","	if (myLexerErrorListener.getError()\n	    && my")),
b("parser-only",(A,"	if (myLexerErrorListener.getError()\n	    || my","	if (my")),
b("no-add",(A,"	parser.addErrorListener(&myParserErrorListener);\n","")),
b("add-twice",(A,"	parser.addErrorListener(&myParserErrorListener);\n","	lexer.addErrorListener(&myLexerErrorListener);\n")),
b("good-ret",(A,"	return analyzer.get_return_code();","	return FQL_GOOD;")),
b("synerr",(E,"	_error = true;\n	if (offendingSymbol)\n		std::cerr << \"Parser","	if (offendingSymbol)\n		std::cerr << \"Parser")),
b("synerr-cond",(E,"	_error = true;\n	if (offendingSymbol)\n		std::cerr << \"Parser","	_error = (offendingSymbol != nullptr);\n	if (offendingSymbol)\n		std::cerr << \"Parser")),
b("after",(A,"	antlr4::tree::ParseTree* tree = parser.tsql_file();\n",""),(A,"	/* Attach custom error listener for parser  */\n","	antlr4::tree::ParseTree* tree = parser.tsql_file();\n")),
b("caller",(L,"	if (analyze_query(fql)) {","	if (analyze_query(fql) == FQL_GOOD + 1) {")),
ok("walk-brk",(W,"		} while (_walking && currentNode != nullptr);","			if (!_walking) {\n				break;\n			}\n		} while (currentNode != nullptr);")),
ok("walk-swap",(W,"	while (_walking && currentNode != nullptr) {","	while (currentNode != nullptr && _walking) {")),
ok("walk-for",(W,"	while (_walking && currentNode != nullptr) {","	for (;;) {\n		if (!_walking || currentNode == nullptr) {\n			break;\n		}")),
ok("refuse-helper",(I,"void ListenerInterface::_set_failure()","static bool _may_go_on(struct fqlhandle* fql) { return fql->props.override_warnings; }\nvoid ListenerInterface::_set_failure()")),
ok("noimpl-ret",(I,"	if(_fql->props.override_warnings) {","	if(!_fql->props.override_warnings) {\n		std::cerr << \"\\nTerminating: Though not recommended, warnings can be overridden.\\n\";\n		_set_failure();\n		return;\n	}\n	if(_fql->props.override_warnings) {")),
ok("setf-order",(I,"	_return_code = FQL_FAIL;\n	_walker->set_walking(false);","	_walker->set_walking(false);\n	_return_code = FQL_FAIL;")),
ok("entry-split",(A,"	if (myLexerErrorListener.getError()\n	    || myParserErrorListener.getError()) {\n		return FQL_FAIL;\n	}","	if (myLexerErrorListener.getError()) {\n		return FQL_FAIL;\n	}\n	if (myParserErrorListener.getError()) {\n		return FQL_FAIL;\n	}")),
ok("entry-bool",(A,"	if (myLexerErrorListener.getError()\n	    || myParserErrorListener.getError()) {","	bool bad = myLexerErrorListener.getError();\n	bad = myParserErrorListener.getError() || bad;\n	if (bad) {")),
ok("rc",(A,"	return analyzer.get_return_code();","	int rc = analyzer.get_return_code();\n	return rc;")),
ok("text",(I,MERGE,MERGE.replace("{ _no_impl(ctx->getStart()->getText()","{ std::string t = ctx->getStart()->getText(); _no_impl(t"))),
ok("implemented",(I,MERGE,MERGE.split("{")[0]+"{ query_enter_if(_fql); }")),
ok("caller2",(L,"	if (analyze_query(fql)) {","	int rc = analyze_query(fql);\n	if (rc != FQL_GOOD) {")),
]
CASES=[c for c in CASES if c]
