"""Single source of the property list: `python3 -m sa.props` rewrites
/verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


UNIT = ("The repository's passing tests only exercise single-threaded hash map calls with a few keys; ")

prop("C01", "Pipe and wait state changes only under its lock; every lock is released",
     "Whatever the interleaving of worker threads, the write position, the read position and the stored elements of an "
     "inter-stage pipe change only while the lock guarding them is held (except in the operations documented as "
     "single-threaded), and a thread sleeps only on a condition whose lock it holds. Every operation has released exactly the "
     "locks it acquired, once each, on every way out, including a failed try-lock.",
     ["schedules"], "all interleavings of the worker threads of a threaded query, all paths through every pipe operation",
     UNIT + "no test runs two threads, and a missing unlock or an unlocked update only shows on a rare interleaving or path.",
     ["util/fifo.c", "lib/process.c"],
     [("head_mutex / tail_mutex", "util/fifo.c"), ("wait_mutex", "lib/process.c")],
     [("head, tail", "write and read positions of a pipe", "util/fifo.h")])

prop("C02", "No worker misses its wake-up",
     "A worker that sleeps until a pipe has data, has room, or another stage has finished re-checks that condition under the "
     "same lock after every wake-up, also giving up when the pipe it wants data from is closed. Every operation that adds data, frees "
     "room, closes a pipe or finishes a stage signals the matching sleepers while holding their lock and after making the change, "
     "including a consumer that waits on two pipes at once.",
     ["schedules"], "all interleavings of producers, consumers, closers and finishing stages",
     UNIT + "a lost wake-up is a hang that needs one particular interleaving.",
     ["util/fifo.c", "lib/process.c"],
     [("wait loops and condition signals", "util/fifo.c"), ("stage wait list", "lib/process.c")])

prop("C03", "Locks are always taken in one global order",
     "No two threads can block each other forever on locks: whenever one lock is acquired while another is held, the order is the same "
     "at every place in the program, and no operation re-acquires a lock its thread already holds.",
     ["schedules"], "all interleavings of all threads of a query",
     UNIT + "a lock-order deadlock needs two threads to interleave inside two critical sections.",
     ["util/fifo.c", "lib/process.c"],
     [("nested acquisitions", "util/fifo.c: fifo_set_open, _fifo_signal_shared, fifo_wait_for_add_either")])

prop("C04", "A pipe delivers every record once, in order, and never overruns its capacity",
     "A pipe's read and write positions advance by exactly the number of records moved and wrap at its capacity; a bulk transfer moves no more "
     "than the room (keeping one free slot per producer) or the data available, copies every moved record to or from the slots between the old and the new position, and "
     "leaves what did not fit, and only that, in the caller's buffer. Emptiness, fullness, available and free counts are computed consistently from these positions.",
     ["inputs", "histories"], "all sequences of pipe operations with all capacities, batch sizes and positions",
     UNIT + "wrap-around and partial transfers need particular positions and counts.",
     ["util/fifo.c"], [("ring index arithmetic", "util/fifo.c")])

prop("C05", "A finished stage closes its pipes, returns queued records and wakes its waiter",
     "When a processing stage finishes it is marked finished, each of its existing output pipes and its first input pipe are closed, records still queued on its "
     "non-source inputs are returned to where they came from, and a stage waiting for it is woken only after the mark is visible. A stage is disabled only when its work "
     "function reported completion, never runs while a stage it waits for is still active, and is reset to a runnable state with empty open pipes before a plan is run again.",
     ["histories", "schedules"], "all stage graphs, all orders in which stages finish, single- and multi-threaded execution, repeated execution",
     UNIT + "no test in the passing set runs a plan at all.",
     ["lib/process.c", "lib/fqlprocesses.c"],
     [("process_disable / process_enable / _exec_one_pass / _thread_exec", "lib/process.c")])

prop("C06", "A detected failure is never dropped on its way to the caller",
     "When a step of parsing, planning, schema resolution or execution reports failure (an engine function returns its failure value), every caller up to the library interface also reports failure (or ends the process) "
     "instead of carrying on as if it had succeeded; the parser's callbacks record the failure, and the program ends with a failure status. "
     "A function that detected an error and said so on the error stream does not then return success.",
     ["inputs", "fault_sequences"], "every failing step at every call depth: bad input, failing system calls, unresolvable names, type errors",
     UNIT + "failure paths are numerous and each needs its own fault.",
     ["lib/libfql.c", "lib/fqlplan.c", "lib/schema.c", "lib/query.c", "lib/process.c", "lib/fqlprocesses.c", "lib/expression.c", "lib/logic.c", "lib/reader.c"],
     [("try_ / fail_if_ return-code discipline", "lib/misc.h")])

prop("C07", "Records borrowed from a source are passed on or given back exactly once",
     "Each record a stage takes from a pipe is, on every path, handed on, kept in a buffer the stage later drains, or recycled to the source it came from, and never both handed on and "
     "recycled. A recycled record goes back to the source recorded in it only when its last holder lets it go.",
     ["inputs", "histories"], "all data and all stage graphs, single and multi-threaded",
     UNIT + "a leaked record only shows when the pool runs dry (a hang) and a doubly recycled record corrupts rows much later.",
     ["lib/fqlprocesses.c", "lib/fqlselect.c", "lib/fqlupdate.c", "lib/fqldelete.c", "lib/fqllogic.c"],
     [("fqlprocess_recycle, fifo_add/fifo_get pairs", "lib/fqlprocesses.c")])

prop("C08", "SQL with a syntax error or an unsupported feature never executes",
     "A statement the grammar rejects is never planned or run, and a recognised but unimplemented construct makes the whole batch fail before execution unless the user asked to override such "
     "warnings. Once a failure is recorded while translating a batch, no later construct is translated and the failure is what the caller sees.",
     ["programs"], "every SQL batch, every unsupported construct of the grammar",
     UNIT + "no passing test feeds SQL text; the grammar has hundreds of constructs.",
     ["lib/antlr/listenerinterface.cpp", "lib/antlr/antlr.cpp", "lib/libfql.c"],
     [("_no_impl / _set_failure / return code checks", "lib/antlr/listenerinterface.cpp")])

prop("C09", "Each operator, function name and keyword performs the operation of that name",
     "In the engine, every arithmetic and bitwise operator and every scalar and aggregate function kind runs the implementation of that name for the type of its operands, accepts that function's number of arguments, and is refused when it has no implementation for that type; comparison words, type names and CAST targets select the comparison, type or conversion of that name; AND, OR, NOT (by its parity), IS NULL, DESC, DISTINCT, TOP and the statement keywords build the construct of that name; and the printed name of each kind is its own. Floating point and bitwise operators compute that operation on their operands in order.",
     ["programs"], "every statement using any supported operator, function or clause",
     UNIT + "the translation is a long list of keyword cases and parallel tables that no passing test touches.",
     ["lib/antlr/listenerinterface.cpp", "lib/operation.c", "lib/operation.h", "lib/function.c", "lib/query.c", "lib/schema.c"],
     [("keyword to enumerator chains", "lib/antlr/listenerinterface.cpp"), ("function tables", "lib/operation.c, lib/function.c")])

prop("C10", "A destination file is replaced only by a complete, successfully written file",
     "A result goes to a temporary file in the directory of its destination, never straight to the destination (a sorted SELECT INTO does: known finding), and the destination is replaced only by renaming that file over it, after all input was consumed, without any write error, and after the file was "
     "closed successfully. When writing, closing or renaming fails the failure is reported and the destination keeps its old content.",
     ["crash_points", "fault_sequences"], "a crash or an I/O failure at any point of writing a result file",
     UNIT + "no passing test writes files, and failures of write, close and rename need fault injection.",
     ["lib/fixedwrite.c", "lib/writer.c", "lib/fqlprocesses.c", "lib/order.c", "lib/schema.c"],
     [("temporary file plus rename", "lib/fixedwrite.c"), ("writer interface", "lib/writer.c"), ("stages that close results", "lib/fqlprocesses.c")])

prop("C11", "Temporary files do not outlive the query",
     "Every temporary file the engine creates is registered under its name on every path, whatever fails next, and stays registered until it has been removed or renamed into place. "
     "All registered files are removed when the handle is reset, when the process is interrupted, quit, hung up or terminated, and when it exits while a query runs; nothing but a registered temporary file is ever removed.",
     ["crash_points", "fault_sequences"], "completion, failure and interruption at any point",
     UNIT + "no passing test creates a temporary file or sends a signal.",
     ["lib/fqlsig.c", "lib/fqlselect.c", "lib/order.c", "lib/fixedwrite.c", "lib/fixedread.c", "lib/writer.c", "lib/reader.c", "lib/libcsvread.c"],
     [("signal clean-up list", "lib/fqlsig.c")])

prop("C12", "SELECT INTO never overwrites an existing file without permission",
     "A SELECT INTO whose target already exists is refused unless overwriting was enabled, on its first run and when it is run again, whether the target is named literally or by a variable; the refusal happens before the target is opened or created. "
     "Files named by the user are opened for writing or replaced in no other way. Overwriting is off unless the user asks for it.",
     ["inputs", "configurations"], "every INTO target, every history of runs and every combination of settings",
     UNIT + "no passing test runs SELECT INTO.",
     ["lib/schema.c", "lib/operation.c", "lib/query.c", "lib/libfql.c"], [("existence check", "lib/schema.c: _resolve_query"), ("existence check when run again", "lib/operation.c: op_reset")])

prop("C13", "NULL operands give NULL, and a comparison with NULL is never satisfied",
     "An arithmetic, string, date or conversion function given a NULL argument yields NULL (except the functions whose purpose is to handle NULL), without computing on the missing value. A comparison or pattern match with a NULL operand evaluates to false, IS NULL and IS NOT NULL decide "
     "exactly on NULL-ness, a NULL assigned to a variable is NULL when read back, and a NULL result is written as an empty CSV field and enters no list of values.",
     ["inputs"], "every expression over every combination of NULL and non-NULL operands",
     UNIT + "NULL interacts with every operator and type.",
     ["lib/scalarfn.c", "lib/fqllogic.c", "lib/expression.c", "lib/switchcase.c", "lib/variable.c", "lib/field.c", "lib/libcsvwrite.c", "lib/aggregatefn.c"],
     [("FQL_NULL return code", "lib/misc.h: try_deref_")])

prop("C14", "Integer arithmetic detects overflow and division by zero",
     "Integer addition, subtraction, multiplication, division, remainder and negation, including their assignment forms, either give the exact result or report a failure; no operand values make them wrap around silently, raise a fatal signal, or fail although the exact result is representable.",
     ["inputs"], "all pairs of 64-bit integer operands",
     UNIT + "the failing operands are a handful out of 2^128.",
     ["lib/scalarfn.c", "lib/misc.h", "lib/variable.c"], [("overflow_safe_* guards, zero checks", "lib/misc.h, lib/scalarfn.c")])

prop("C15", "Every comparison operator implements its own relation for every data type",
     "For each of integer, floating and character operands, each of the operators =, <>, <, <=, >, >= is true exactly for the operand orderings of that relation, and a comparison resolved for a pair of types runs the implementation of that operator and type. "
     "Character comparison decides on the first differing byte, then on length, ignoring trailing blanks and case only as configured.",
     ["inputs", "programs"], "all operators, all type pairs, all operand orderings",
     UNIT + "no passing test evaluates a comparison.",
     ["lib/fqllogic.c", "lib/logic.c", "util/stringview.c", "util/util.h"], [("comparison dispatch matrix", "lib/fqllogic.c")])

prop("C16", "AND, OR, NOT and CASE combine their parts correctly and in order",
     "A conjunction holds exactly when all its parts hold, a disjunction exactly when one holds, NOT inverts, whatever the nesting, and evaluation errors are reported rather than treated as truth values. CASE yields the value of its first matching branch, the ELSE value when none matches, and NULL when there is no ELSE.",
     ["inputs", "programs"], "all nestings and all truth assignments of the parts",
     UNIT + "no passing test evaluates a condition.",
     ["lib/logic.c", "lib/switchcase.c", "lib/expression.c", "lib/fqlbranch.c"], [("logicgroup_eval, switchcase_eval_*", "lib/logic.c, lib/switchcase.c")])

prop("C17", "Map lookups find exactly the entry stored under an equal key",
     "A lookup in a hash map, set, multimap or composite-key map returns the value last stored under an equal key (equal in length and in every byte after the configured case folding and trailing-blank trimming, for composite keys in every part and in the number of parts) and nothing when there is none. This holds for any number of entries and any "
     "keys: probing terminates, growing keeps every entry, stored keys are private copies.",
     ["inputs", "histories"], "all key sets, key contents including embedded NUL and empty keys, all insertion histories",
     "The passing tests store a few dozen keys; collisions, growth at unlucky sizes and keys equal only in part need particular data.",
     ["util/hashmap.c", "util/hashmap.h"], [("open addressing, FNV hashing", "util/hashmap.c")])

prop("C18", "Growable arrays stay within their allocation and keep their contents",
     "An array operation never reads or writes beyond the allocation: capacity is raised before the size grows past it and always leaves one spare element. Insert, erase, append and resize keep every other element, in order, and move or copy exactly the elements concerned.",
     ["inputs", "histories"], "all element sizes, positions, counts and operation sequences",
     UNIT + "an off-by-one in a size computation needs a boundary size to show.",
     ["util/vec.c", "util/vec.h", "util/flex.c"], [("size/capacity arithmetic", "util/vec.c")])

prop("C19", "Strings are always NUL-terminated with the right length",
     "After every string operation the recorded length is the number of bytes the operation defines, the byte after the last one is NUL and lies inside the allocation, and a bounded operation reads no more than its bound from its source.",
     ["inputs", "histories"], "all contents, lengths and operation sequences",
     UNIT + "string code has no tests.",
     ["util/stringy.c", "util/stringview.c", "util/util.c"], [("termination macro", "util/stringy.c")])

prop("C20", "Every object releases what it owns, exactly once",
     "Destroying a query, plan, table, expression, reader, writer, map or any other engine object releases each resource it owns exactly once: nothing owned is leaked, nothing is released twice or used after release, and nothing borrowed is released. Failing paths release what they had acquired.",
     ["inputs", "histories", "fault_sequences"], "all statements, all failing and succeeding paths",
     UNIT + "leaks and double frees on rarely taken paths are invisible to them.",
     ["lib/*.c", "util/*.c"], [("*_destroy / *_free functions", "lib, util")])

prop("C21", "Each setting and command-line option changes exactly the behaviour it names",
     "Every library setter stores its argument in the setting it names, within the documented limits (an out-of-range pipe factor is clamped with a message, an over-long delimiter is cut, an unknown quoting standard or a bad variable declaration is refused with a failure), and changes no other setting; every command-line option invokes the matching setter with its argument, long and short forms alike, and an invalid option or a refused quoting standard or variable stops the program with a failure status.",
     ["configurations", "inputs"], "all settings, options and values",
     UNIT + "no passing test uses the library interface or the command line.",
     ["lib/libfql.c", "lib/include/fql.h", "src/fql.c"], [("fql_set_*", "lib/libfql.c"), ("option table", "src/fql.c")])

prop("C22", "A handle can be reset and reused after success or failure",
     "When a batch has finished or failed, in planning, running or stepping, and on reset, every query, variable, name, planned schema, stepped field, registered temporary file and resolved schema path of that batch is dropped and the position, current scope and branch state are those of a new handle, so that the next batch starts from the same state as on a fresh handle with the same settings.",
     ["histories"], "all sequences of batches, including failing ones, on one handle",
     UNIT + "no passing test creates a handle.",
     ["lib/libfql.c", "lib/scope.c"], [("fql_reset and its callers", "lib/libfql.c"), ("scope_reset", "lib/scope.c")])

prop("C23", "Fixed-size buffers are never overrun",
     "Text or bytes copied or formatted into a buffer of fixed size - delimiters, record terminators, resolved paths, numbers shown in plans, join descriptions, keys of LIKE character ranges - never extend past its end, however long the input is; the same holds for buffers allocated for one copy, whose size always suffices for what is put into them.",
     ["inputs"], "all inputs of all lengths",
     UNIT + "an overrun needs an over-long input in one particular place.",
     ["lib/*.c", "util/*.c", "src/fql.c"], [("length checks before copies", "lib, src")])

prop("C24", "ORDER BY is a consistent ordering in the requested directions",
     "Rows are compared column by column in the order the columns are listed; the first column that differs decides, in its own direction; values of one column compare by their type; rows with equal keys are equal, and swapping two rows negates the result. The keys compared are the ones stored for the two rows, one per column. All rows are sorted, before the first is put out, and they are put out in the sorted sequence, each from its own place.",
     ["inputs"], "all rows, column types and directions",
     UNIT + "no passing test sorts.",
     ["lib/order.c", "lib/fqlprocesses.c", "util/vec.c"], [("sort comparator", "lib/order.c"), ("sort keys", "lib/order.c: order_add_record")])

prop("C25", "An ambiguous or unknown name is refused, never guessed",
     "A column, alias, table or file name that matches nothing, or more than one candidate at the same strictness, makes the statement fail with an error; a unique match binds to exactly the matched item, a qualified column name only to the named source (ORDER BY, which refers to selected columns, matches them by name alone), and stricter matches win over looser ones as configured.",
     ["programs", "inputs"], "all statements and directory contents",
     UNIT + "no passing test resolves a name.",
     ["lib/schema.c", "lib/query.c", "lib/scope.c"], [("name resolution", "lib/schema.c")])

prop("C26", "Character functions never read or write outside their string",
     "LEN, DATALENGTH, LEFT, RIGHT, SUBSTRING, REPLACE and CAST AS CHAR(n) work for every position, count and text including empty, negative and over-long ones: they neither read nor return bytes outside the operand, count characters rather than bytes on multi-byte text (CAST AS CHAR counts bytes), and fail on a negative count or a malformed multi-byte sequence; REPLACE replaces every occurrence of its pattern by exactly the replacement and leaves the rest.",
     ["inputs"], "all texts, positions and counts",
     UNIT + "no passing test calls a scalar function.",
     ["lib/scalarfn.c"], [("scalar function bodies", "lib/scalarfn.c")])

prop("C27", "A variable is visible only in its scope and keeps its declared type",
     "A variable name resolves to the innermost enclosing declaration, a redeclaration in the same scope and a use before declaration are refused, and assigning converts to the declared type and length limit.",
     ["programs"], "all nestings of blocks and all variable names and types",
     UNIT + "no passing test declares a SQL variable.",
     ["lib/scope.c", "lib/variable.c", "lib/query.c"], [("scope chain", "lib/scope.c")])

prop("C28", "TOP and row counts of SELECT are exact",
     "A SELECT with TOP n selects a row only while fewer than n rows were selected and stops asking for input once it has them, TOP 0 selects none, and without TOP there is no limit; with ORDER BY the limit applies to the sorted rows, whether they are written or stepped over, and in a union to each part by its own TOP. A TOP that is negative or not an integer constant is refused. Every row selected or put out is counted exactly once, and the reported row count of a plan is that of the stage that executes its operation.",
     ["inputs"], "all result sizes and TOP values",
     UNIT + "no passing test runs a query.",
     ["lib/fqlprocesses.c", "lib/fqlselect.c", "lib/order.c", "lib/schema.c", "lib/operation.c", "lib/process.c"], [("top_count, rows_affected", "lib/fqlprocesses.c"), ("limit of a sorted result", "lib/order.c")])

prop("C29", "List and graph operations keep every other element linked",
     "Adding, removing or moving an element of a linked list, or a node of the process graph, leaves all other elements reachable in their order from both ends, updates the head when the first element changes and returns the element removed. Removing a node clears every edge to it and no other. A traversal starts with all visit counts zero, counts each visit, queues both successors of a node that were not visited yet, and goes on to every root not visited yet.",
     ["histories"], "all lists and graphs, all positions",
     UNIT + "no passing test covers lists or graphs.",
     ["util/node.c", "util/dgraph.c"], [("link updates", "util/node.c, util/dgraph.c")])

prop("C30", "Statements and file formats are handled as the kind they are",
     "A statement object is used only as the kind its tag says, and its constructor stores the tag of its kind. Each operation shared by all statements (destroy, prepare, plan, reset, schema, expressions, writer, row limit, row number, target table, final types) does for each kind what that kind provides, on its own members, and nothing for the kinds that provide nothing; a failure of it is passed on. The target table of UPDATE or DELETE is the source whose alias it names, otherwise one with that name. A reader or writer is served only by the functions of its own format, each in its role, with the standard input variants exactly for standard input; a failed open, reopen or close is a failure; a reader of an unknown format fails to be assigned or reopened and a writer of one to be closed.",
     ["programs", "inputs"], "all kinds of statements and formats at all functions that test the tag",
     UNIT + "each kind needs a statement of its own.",
     ["lib/operation.c", "lib/reader.c", "lib/writer.c", "lib/query.c", "lib/fql*.c"], [("dispatch on the kind of a statement", "lib/operation.c"), ("dispatch on the file format", "lib/reader.c, lib/writer.c")])

# ---- decidable only by running: listed, not claimed
prop("C31", "LIKE accepts exactly the strings its pattern describes",
     "A LIKE pattern with %, _, [set], [^set] matches a text exactly when SQL semantics say so, for every pattern and text.",
     ["inputs"], "all patterns and texts",
     UNIT + "the language of patterns is unbounded.",
     ["lib/like.c"], [("pattern to regular expression", "lib/like.c")])
prop("C32", "Aggregates and scalar numeric results equal their mathematical definition",
     "COUNT, SUM, AVG, MIN, MAX and numeric functions give the mathematically defined result over the rows of each group for every input.",
     ["inputs"], "all groups of values", UNIT + "no passing test aggregates.",
     ["lib/aggregatefn.c", "lib/scalarfn.c"], [("aggregate functions", "lib/aggregatefn.c")])
prop("C33", "Threaded and unthreaded execution give the same rows",
     "Running any batch with threads gives the same result rows as running it without.",
     ["schedules", "inputs"], "all batches and schedules", UNIT + "no passing test runs a query.",
     ["lib/process.c"], [("plan execution", "lib/process.c")])
prop("C34", "Hash join and nested-loop join give the same result",
     "For every pair of tables and every join condition, the result does not depend on the join algorithm chosen.",
     ["inputs"], "all table contents", UNIT + "no passing test joins.",
     ["lib/fqlprocesses.c"], [("hash join", "lib/fqlprocesses.c")])
prop("C35", "Reading back written output yields the same rows",
     "A result file written by the engine and read back by it with the same delimiters yields the same fields, whatever they contain.",
     ["inputs"], "all field contents and delimiters", UNIT + "no passing test writes rows.",
     ["lib/libcsvwrite.c", "lib/libcsvread.c"], [("quoting", "libcsv (external)")])

# ------------------------------------------------------------------ generator
TECH = {}
NA = {
    "C07": "Whether a record is passed on or given back exactly once depends on the graph of stages built at run time and on indirect calls through stage pointers; who holds a record is counted in the record itself across threads. An ownership analysis of one stage function cannot see the other holders, and assumptions about them would be the property itself. The parts that are local are decided elsewhere: pipes hand over each element once (C04), stages end when their inputs end (C06).",
    "C20": "The engine shares expressions, schemas and readers between queries, tables and plans under conventions carried in run-time flags and vectors of pointers; ownership is not declared in any type, so a release-exactly-once analysis over the heap would need as input the ownership graph it is meant to establish. Releases that are local to one container are decided with the containers (C17, C18, C29) and on reset (C22).",
    "C31": "The language accepted is that of a regular expression built at run time and matched by an external library (PCRE2); equality with the pattern's language for every pattern is a statement about run-time strings that no sound static argument in reach bounds.",
    "C32": "Sums, averages and rounding over the rows of a group are functional correctness over unbounded run-time data and floating arithmetic; no dataflow or typestate abstraction bounds them.",
    "C33": "Equality of results between two executions is a relation over complete runs and schedules (a hyperproperty of run-time data); the static conditions it rests on - lock discipline, pipe protocol, termination - are decided in C01 to C06.",
    "C34": "Equivalence of two algorithms on all table contents is a relation between run-time row sets; no static abstraction in reach decides it. Key comparison and map lookup taken alone are decided in C15 and C17.",
    "C35": "Quoting and its inverse are implemented in an external library (libcsv) whose source is not part of this repository, and the round trip relates run-time strings.",
}
LEVELS = {}


def generate():
    import importlib
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            q = dict(p)
            if not q["anchors"]["state"]:
                del q["anchors"]["state"]
            if not q["anchors"]["observe_at"]:
                del q["anchors"]["observe_at"]
            del q["anchors"]["hook_needed"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        path = os.path.join(VERIF, "sa", "rules", pid.lower() + ".py")
        if os.path.exists(path):
            m = importlib.import_module("sa.rules." + pid.lower())
            checks.append(dict(property=pid,
                               quick_cmd="python3 check.py %s --tier quick" % pid,
                               thorough_cmd="python3 check.py %s --tier thorough" % pid,
                               technique=m.TECHNIQUE, level="other", level_note=m.LEVEL_NOTE))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "check under construction")))
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    generate()
