#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from plan import PLAN

def m(*a):
    return [{"name": n, "where": w} for n, w in a]

P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, state=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=mech, **({"state": state} if state else {}),
                                observe_at=observe or ["output stream", "files in the working directory", "return value of the call"],
                                hook_needed=None)), note))

TESTS = "The stable tests exercise one container in one thread and never run a statement; "

prop("C01", "A threaded run gives the single-threaded result for every schedule",
     "With threading enabled, a statement or script produces for every interleaving of its threads the same header, the same rows (none lost, duplicated, mixed up or altered), the same row order wherever the single-threaded run defines one, and the same table files as without threads. "
     "This holds for selects with filters, joins, unions, derived tables, grouping, distinct, ordering and TOP, for SELECT INTO, UPDATE, DELETE, multi-statement scripts and standard input, for small and large pipe factors.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the threads of a statement, over generated tables, statements and pipe factors",
     TESTS + "the regression script compares a handful of fixed queries under whatever schedule the kernel picks.",
     ["lib/fqlplan.c", "lib/process.c", "lib/fqlprocesses.c", "util/fifo.c", "lib/operation.c", "lib/record.c"],
     m(("one thread per process, records handed over through bounded pipes", "lib/fqlplan.c, lib/process.c"),
       ("bounded single-reader pipe with head/tail locks and conditions", "util/fifo.c"),
       ("record group ownership and copies", "lib/record.c, lib/fqlprocesses.c")))
prop("C02", "Threaded statements always finish",
     "With threading enabled, every statement completes within a bounded number of steps for every interleaving, stalled thread, spurious wake-up and choice of which waiter a signal wakes: no deadlock, no lost wake-up, no endless waiting. When the call returns, every thread it started has ended.",
     ["schedules", "inputs", "configurations"],
     "every interleaving (with stalls and spurious wake-ups) of statements with filters, joins, unions, derived tables, grouping, ordering, early TOP, empty inputs and tiny pipes",
     TESTS + "a deadlock needs one particular interleaving of several threads around a full, empty or closing pipe.",
     ["util/fifo.c", "lib/fqlplan.c", "lib/process.c", "lib/fqlprocesses.c"],
     m(("pipe conditions add/get/open and close on end of input", "util/fifo.c"),
       ("processes report end by closing their output pipe", "lib/process.c"),
       ("plan joins all threads", "lib/fqlplan.c")), observe=["return of the call", "threads alive when it returns"])
prop("C03", "Pipes hand over every item exactly once, in order, under every schedule",
     "Items added to a pipe by its producers are each received exactly once, in the order each producer added them, for every interleaving of adding, taking one, taking a block, looking at and consuming the first, waiting (also on two pipes), closing, resetting and refilling, at every capacity that leaves room beside the announced producers. "
     "A reader sees the end only after the pipe was closed and everything was taken, and neither side waits for ever while the other can proceed.",
     ["schedules", "histories", "configurations"],
     "every interleaving of producer and consumer threads over the operations of the pipe and capacities, pipes filled from the start, two pipes fed by the same or by different producers, items going round a pool",
     TESTS + "pipe code has no threaded test at all.",
     ["util/fifo.c", "util/fifo.h"],
     m(("head and tail indices guarded by their own lock", "util/fifo.c"), ("room left for every announced producer", "util/fifo.c fifo_receivable"),
       ("conditions for added and taken, shared when waiting on two", "util/fifo.c")), observe=["items received by the consumer", "return of the threads"])
prop("C04", "A killed UPDATE, DELETE or SELECT INTO leaves the whole old or whole new table",
     "If the process is killed at any point of an UPDATE, DELETE or SELECT INTO, or of a script of them, every table file holds either exactly its complete content from before the statement that was running or exactly its complete content after it, never a mix, a truncated or an emptied table. The effects of statements that had completed are there, and the target of an unfinished SELECT INTO may exist as an empty file.",
     ["crash_points", "inputs", "schedules"],
     "a kill at every operating system call (before, in the middle of a write, after) and between them, of generated modifying statements",
     TESTS + "no test kills the process or looks at the files after one.",
     ["lib/fqlupdate.c", "lib/fqldelete.c", "lib/writer.c", "lib/libcsvwrite.c", "lib/fqlselect.c", "lib/order.c"],
     m(("write to a temporary file, then rename over the table", "lib/libcsvwrite.c, lib/writer.c"),
       ("original closed and reopened around the rename", "lib/fqlupdate.c, lib/fqldelete.c")), observe=["files in the working directory after the kill"])
prop("C05", "A failed write never damages a table and is never reported as success",
     "Whatever file operation fails during an UPDATE, DELETE or SELECT INTO (creating, opening, writing short or not at all, full disk, closing, renaming, changing the mode), every existing table keeps its complete old content or has its complete new content. The call reports success only if the complete new content is in place; otherwise it reports failure.",
     ["fault_sequences", "inputs"],
     "one or two injected failures at any file operation on the writing side of generated modifying statements, single-threaded and threaded",
     TESTS + "no test makes a file operation fail.",
     ["lib/fqlupdate.c", "lib/fqldelete.c", "lib/writer.c", "lib/libcsvwrite.c", "lib/fqlselect.c", "lib/order.c"],
     m(("results of flush, close and rename are checked before success is reported", "lib/writer.c, lib/libcsvwrite.c, lib/fqlselect.c"),))
prop("C06", "No temporary file outlives its statement",
     "After a statement has ended, successfully or because a file operation failed at any point, the working directory holds no temporary, partial or placeholder file the statement created: only the tables it was meant to create or change. The one exception is a file whose removal itself was made to fail.",
     ["fault_sequences", "inputs", "schedules"],
     "injected failures of reading and writing file operations in statements that update, delete, select into, order, and join standard input or derived tables",
     TESTS + "leftovers appear on error paths no test reaches.",
     ["lib/fqlsig.c", "lib/order.c", "lib/reader.c", "lib/writer.c", "lib/schema.c", "lib/subquery.c"],
     m(("list of temporary files with removal on reset, exit and signal", "lib/fqlsig.c"),
       ("temporary files of ordering, file-backed input and output", "lib/order.c, lib/reader.c, lib/writer.c")),
     observe=["directory listing after the statement"])
prop("C07", "A termination signal leaves whole tables and no temporary files",
     "When a termination signal arrives at any point while a statement that updates, deletes, selects into a file or orders is running, the process ends, every table file holds its complete old or complete new content, and none of the temporary, partial or placeholder files of the statement is left in the working directory.",
     ["crash_points", "inputs", "schedules"],
     "a signal delivered at every operating system call and between them, of generated statements, single-threaded and threaded",
     TESTS + "no test delivers a signal.",
     ["lib/fqlsig.c", "lib/order.c", "lib/reader.c", "lib/writer.c", "lib/libcsvwrite.c"],
     m(("signal handlers that remove registered temporary files and then end the process", "lib/fqlsig.c"),
       ("files are registered as they are created", "lib/order.c, lib/reader.c, lib/writer.c")), observe=["files in the working directory after the signal"])
prop("C08", "Standard input is read the same however it arrives",
     "A statement over standard input gives the same result as over a file with the same content, whatever the sizes of the pieces in which it arrives, whatever its delimiter and quoting, with a missing last newline, and no rows at all. This includes joining it from either side with files or using it in a union, a filter, grouping or ordering, with or without threads.",
     ["inputs", "configurations", "schedules"],
     "all chunkings of generated inputs, used alone and in joins where it has to be read again, over schedules",
     TESTS + "how a pipe delivers data is up to the kernel in a test.",
     ["lib/schema.c", "lib/libcsvread.c", "lib/reader.c", "lib/table.c"],
     m(("header taken from the stream while planning", "lib/schema.c"), ("file-backed copy when input is read again", "lib/reader.c, lib/libcsvread.c")))
prop("C09", "Tuning settings and ways of running a statement do not change its result",
     "The same statements give the same rows and table files whatever the pipe factor (values out of range are replaced), threading, forced nested loops for inner joins between files, and verbosity, and whether they run as one script, one by one, plan by plan (all or some at a time), after a dry run, or are stepped through row by row.",
     ["configurations", "inputs", "schedules", "histories"],
     "generated scripts under generated settings and ways of executing them, over schedules",
     TESTS + "the settings multiply with the statements and the sizes of their tables.",
     ["lib/libfql.c", "lib/fqlplan.c", "lib/process.c", "lib/fqlprocesses.c", "lib/fqlselect.c"],
     m(("properties of the handle read while planning", "lib/libfql.c, lib/fqlplan.c"), ("execution of plans by count, and single steps", "lib/libfql.c"),
       ("nested loop in place of a hash join", "lib/fqlprocesses.c")))
prop("C10", "A handle works the same after a failed, abandoned or reset call",
     "After a statement was rejected, failed half way or was only partly stepped through and then reset, the next call on the handle behaves as on a new one. A script with an error that is found before it starts changes and prints nothing. Several handles used in turn in one process, and freeing one of them, do not affect each other.",
     ["histories", "fault_sequences", "inputs"],
     "sequences of calls on one or two handles: good, rejected and failing statements, steps left off, resets, frees; with a read failure at any operation of one call",
     TESTS + "no test uses a handle twice or two handles at once.",
     ["lib/libfql.c", "lib/fqlsig.c", "lib/query.c", "lib/schema.c", "lib/antlr/TSqlParserListenerInterface.cpp"],
     m(("reset of queries, variables, fields and temporary files between calls", "lib/libfql.c, lib/fqlsig.c"),
       ("the whole script is planned before anything runs", "lib/libfql.c")))
prop("C11", "Joins return exactly the matching combinations",
     "An inner join returns exactly the combinations of rows that satisfy its conditions, each as often as it occurs; a left join additionally returns each unmatched left row once with empty values on the right. This holds for equality joins on text (compared without case) or numbers, extra and inequality conditions on inner joins, several joins in one statement, self joins, duplicate keys and empty tables, whatever the pipe factor, buffering and schedule.",
     ["inputs", "schedules", "configurations"],
     "generated tables with duplicate, missing and differently spelled keys, join shapes, pipe factors and schedules",
     TESTS + "result depends on table sizes relative to pipe and hash table sizes.",
     ["lib/fqlprocesses.c", "lib/process.c", "util/hashmap.c", "lib/fqlplan.c", "lib/table.c"],
     m(("hash join built from the right side", "lib/process.c, lib/table.c"), ("cartesian join with conditions", "lib/fqlprocesses.c"),
       ("condition placement by the planner", "lib/fqlplan.c")))
prop("C12", "Unions and derived tables return exactly the rows of their parts",
     "UNION ALL returns the rows of its first query followed by those of the others, none lost or repeated. A derived table in FROM behaves like a file with the rows its query returns, filtered, joined, grouped or ordered by the outer query, and a scalar or IN subquery like the values it returns, whatever the schedule and pipe factor.",
     ["inputs", "schedules", "configurations"],
     "generated nestings of selects, with filters, joins, grouping and ordering inside and outside",
     TESTS + "the interplay of several queries in one plan depends on sizes and schedule.",
     ["lib/subquery.c", "lib/fqlplan.c", "lib/fqlselect.c", "lib/query.c", "lib/inlist.c"],
     m(("queries of a union chained one after the other", "lib/fqlplan.c, lib/process.c"), ("derived table read through its own plan", "lib/subquery.c"),
       ("subqueries evaluated while preparing", "lib/query.c, lib/inlist.c")))
prop("C13", "Grouping, aggregates and DISTINCT see every row exactly once",
     "GROUP BY returns one row for each distinct key (compared without case), with counts, sums, minima, maxima and averages over exactly the rows of the group that passed the filter, and HAVING keeps exactly the groups that satisfy it. SELECT DISTINCT returns each distinct row once, in order of first appearance when there is a single source.",
     ["inputs", "schedules", "configurations"],
     "generated tables with many and few groups, filters and joins below, schedules and pipe factors",
     TESTS + "group tables grow and rehash with the data, and in threads while other processes run.",
     ["lib/group.c", "lib/aggregate.c", "lib/aggregatefn.c", "lib/fqlprocesses.c", "util/hashmap.c"],
     m(("hash table from group key to aggregate state", "lib/group.c, lib/aggregate.c"), ("groups dumped at end of input", "lib/fqlprocesses.c")))
prop("C14", "ORDER BY returns the same rows, sorted; TOP the first of them",
     "ORDER BY returns exactly the rows of the unordered query, sorted by its keys in sequence, ascending or descending, text without regard to case and numbers by value, by column, alias or position. TOP n returns the first n rows of the ordered result, or any n rows of an unordered one, and never more than there are.",
     ["inputs", "schedules", "configurations"],
     "generated keys, directions, TOP limits, joins and groups below, output to the terminal or a file",
     TESTS + "sorting goes through a temporary file of formatted rows and offsets.",
     ["lib/order.c", "lib/fqlselect.c", "lib/operation.c", "lib/process.c"],
     m(("rows written to a temporary file, keys and offsets sorted, rows copied out", "lib/order.c"), ("TOP count and early stop", "lib/fqlselect.c, lib/process.c")))
prop("C15", "UPDATE and DELETE change exactly the matching rows and keep the rest as is",
     "UPDATE replaces the assigned columns in exactly the rows that satisfy its WHERE and DELETE removes exactly those; all other rows stay byte for byte and in their order, and the header, delimiter and column order stay. Assigned values read the row as it was before the statement; later statements of the script see the result.",
     ["inputs", "schedules", "configurations"],
     "generated tables (delimiters, quoting, embedded delimiters, missing last newline), predicates with AND, OR, LIKE, IN and subqueries, and assignments, over schedules",
     TESTS + "rows pass through two branches of a plan and are merged again.",
     ["lib/fqlupdate.c", "lib/fqldelete.c", "lib/fqlplan.c", "lib/process.c", "lib/writer.c"],
     m(("both branches of the filter lead to the writer, in row order", "lib/fqlplan.c, lib/process.c"),
       ("unmatched rows copied raw", "lib/fqlupdate.c, lib/fqldelete.c")))
prop("C16", "Statements of a script run one after the other and see each other's effects",
     "In a script, each statement sees the tables as the statements before it left them (created by SELECT INTO, temporary, updated or deleted from) and the variables as they were last set; IF runs exactly one branch and WHILE repeats its body exactly while its condition holds. The result equals running the statements in sequence by hand, whatever the schedule.",
     ["programs", "inputs", "schedules", "histories"],
     "generated scripts of selects, SELECT INTO, UPDATE, DELETE, DECLARE, SET, IF and WHILE, including splitting a table by key in a loop",
     TESTS + "plans are prepared for the whole script first and run later, against files that change in between.",
     ["lib/libfql.c", "lib/query.c", "lib/fqlbranch.c", "lib/fqlset.c", "lib/variable.c", "lib/scope.c", "lib/table.c"],
     m(("query preparation and reset before each execution", "lib/query.c, lib/libfql.c"), ("branch and loop links between queries", "lib/fqlbranch.c"),
       ("columns of tables that do not exist yet", "lib/table.c, lib/schema.c")))
prop("C17", "Running out of memory or threads ends a statement cleanly",
     "When any single allocation or thread start fails, the statement or the process ends with an error: no crash, no memory error, no endless wait, and no success with a wrong result. What was printed before is part of the correct result, and every table file holds its complete old or complete new content.",
     ["fault_sequences", "inputs", "schedules"],
     "a failure at every allocation and thread start made while planning and running generated statements",
     TESTS + "allocations do not fail in tests.",
     ["util/util.h", "lib/fqlplan.c", "lib/libfql.c", "lib/process.c"],
     m(("allocation wrappers that end the process", "util/util.h"), ("thread start failures reported", "lib/fqlplan.c")))
prop("C18", "A failing read is reported, never returned as a shorter result",
     "When opening, mapping, inspecting or reading an input table, standard input or a temporary copy fails at any point, or reads come up short, the call either reports failure or returns the complete result. What a failing call printed is part of the correct result, its files are unharmed, and it neither crashes nor waits for ever.",
     ["fault_sequences", "inputs"],
     "injected failures and short reads at every file operation of the reading side of generated statements",
     TESTS + "reads do not fail in tests.",
     ["lib/schema.c", "lib/reader.c", "lib/libcsvread.c", "lib/subquery.c", "lib/order.c", "lib/query.c", "lib/process.c"],
     m(("failure codes passed from reader through process to plan", "lib/process.c, lib/fqlplan.c"), ("files opened again for later statements", "lib/query.c, lib/reader.c")))
prop("C19", "A result that could not be written out is reported as a failure",
     "When writing the result to standard output fails at any point (a full disk or a closed pipe) the call reports failure instead of success, with and without ordering, grouping and threads, and what was written is a prefix of complete correct rows possibly followed by a cut one.",
     ["fault_sequences", "inputs"],
     "a write failure at every point of the output of generated statements",
     TESTS + "output never fails in tests.",
     ["lib/fqlselect.c", "lib/libcsvwrite.c", "lib/order.c", "lib/libfql.c"],
     m(("output stream flushed and its error state checked", "lib/libfql.c, lib/libcsvwrite.c, lib/order.c"),))
prop("C20", "A call leaves no file descriptor or stream open, however it ends",
     "Executing a statement or script leaves exactly as many descriptors and streams open as before the call, whether it succeeds or a file operation in it fails, and once every handle is released nothing the library opened is still open.",
     ["fault_sequences", "inputs", "histories"],
     "statements of every kind, succeeding and with injected failures of file operations, several in one handle",
     TESTS + "leaks only matter to long-lived callers and mostly hide on error paths.",
     ["lib/reader.c", "lib/writer.c", "lib/order.c", "lib/subquery.c", "lib/schema.c", "lib/libfql.c"],
     m(("close on reset and destruction of readers, writers and orderings", "lib/reader.c, lib/writer.c, lib/order.c"),),
     observe=["open descriptors of the process", "open streams"])
prop("C21", "A table name stands for exactly one file, or the statement fails",
     "A table named in a statement is the file of exactly that name; failing that, the one whose name matches without case, failing that without extension, failing that without both; in strict mode only the exact name counts. If nothing or more than one file matches on the level that decides, the statement fails and changes nothing. The choice does not depend on the order in which the directory lists its files, and SELECT INTO takes its name literally and never replaces an existing file unless overwriting is allowed.",
     ["configurations", "inputs"],
     "generated directories (names differing in case and extension, subdirectories) in every listing order, names in FROM, JOIN, UPDATE, DELETE and INTO",
     TESTS + "the order of a directory listing is up to the file system.",
     ["lib/schema.c", "util/util.c"],
     m(("exact lookup, then four levels of fuzzy matching over the directory", "lib/schema.c"), ("directory listing", "util/util.c")),
     observe=["which file was read or changed", "return value of the call"])
prop("C22", "No statement touches memory it does not own, in any schedule or fault",
     "Whatever the schedule and whichever operation fails, running statements, stepping through results, resetting and freeing handles performs no out-of-bounds access, use of freed memory, double free or misuse of a lock or condition.",
     ["schedules", "fault_sequences", "inputs"],
     "generated statements of every kind with injected failures of file operations, allocations, thread starts and output, under schedules",
     TESTS + "they are built without memory checking and run no statement.",
     ["lib/record.c", "lib/process.c", "lib/order.c", "lib/group.c", "lib/libfql.c", "util/fifo.c", "util/vec.c", "util/stringy.c"],
     m(("ownership of records, copies and queries", "lib/record.c, lib/query.c"), ("clean-up on failing paths", "lib/libfql.c")),
     observe=["address sanitizer with the simulator's allocator", "lock and condition misuse seen at the seam"])
prop("C23", "SELECT INTO writes exactly the rows the SELECT returns",
     "SELECT INTO creates its table with the header and exactly the rows, in the order, that the same SELECT would print, with the delimiter of the left-most source; reading it back, in the same or a later script, gives those rows. Ordering, grouping, joins, unions and derived tables below make no difference, nor does the schedule.",
     ["inputs", "schedules", "configurations"],
     "generated selects into new tables which are then read back, over schedules, delimiters and quoting",
     TESTS + "the file is complete only when buffers are flushed and the table renamed before a later statement plans to read it.",
     ["lib/fqlselect.c", "lib/writer.c", "lib/libcsvwrite.c", "lib/order.c", "lib/query.c"],
     m(("writer chosen and opened per statement", "lib/fqlselect.c, lib/writer.c"), ("file completed before the next statement", "lib/libfql.c, lib/order.c")))
prop("C24", "Files described by a schema file: fixed-width and headerless data",
     "A table reference of the form name.table takes its columns from the schema file of that name: with two or fewer fields per line the data is delimited without header, with three it is records of fixed-width columns. Selecting from such tables, alone, joined with others or from standard input, gives exactly the rows their bytes define, every record and none twice; results whose left-most source is fixed-width are written as records of the declared widths without separators. UPDATE and DELETE rewrite such a file so that untouched records keep their bytes and changed fields keep their width, a value that does not fit fails the statement and leaves the file as it was, and a table written by SELECT INTO can be read by later statements of the script.",
     ["inputs", "schedules", "configurations"],
     "generated schema files and data (widths, types of line, empty files, one record), statements of every kind on them, over schedules and buffer sizes",
     TESTS + "records have no terminator: one byte more or less read or written shifts everything after it.",
     ["lib/fixedread.c", "lib/fixedwrite.c", "lib/schema.c", "lib/reader.c", "lib/table.c"],
     m(("records by offset and length", "lib/fixedread.c"), ("padding and truncation errors", "lib/fixedwrite.c"), ("schema files and what a statement writes", "lib/schema.c")))

prop("C25", "Output and input settings change how a result is written, never its rows",
     "With any output delimiter (of one or more characters), quoting standard, record terminator, header switched off or on, and any input delimiter, a SELECT prints and SELECT INTO writes the same header and rows it would otherwise, each field, separator and terminator in the form the settings ask for, whatever the statement, the pipe factor, the schedule and the way the settings are given (calls or command line). UPDATE and DELETE keep the delimiter of their table, and its having a header or not, whatever the output settings, and leave the fields of untouched rows as they are. A table written under such settings is read by later statements of the same script with exactly the rows written, if its quoting allows telling them apart.",
     ["configurations", "inputs", "schedules"],
     "combinations of settings over all kinds of statements and scripts, changed between calls, given by calls or on the command line, with values that contain the delimiters, quotes and newlines, over schedules",
     TESTS + "the writers are also used for temporary copies inside a statement (ordering, derived tables), where a setting must not change what is read back.",
     ["lib/libcsvwrite.c", "lib/writer.c", "lib/schema.c", "lib/libfql.c", "lib/fqlselect.c", "lib/fqlupdate.c", "lib/fqldelete.c", "lib/reader.c", "src/fql.c"],
     m(("settings of a handle, applied when a script is resolved", "lib/libfql.c, lib/schema.c schema_resolve"), ("writers shared by results and temporary copies", "lib/writer.c"), ("headers", "lib/fqlselect.c, lib/fqlupdate.c, lib/fqldelete.c preop")))

prop("C26", "An expression has its value wherever it stands, for the record at hand",
     "An expression of operators, functions, casts, CASE, LIKE, IN, variables and columns has the value its definition gives for the record (or group) at hand in every place it may stand: select lists, WHERE, either side of a join condition, GROUP BY, HAVING, ORDER BY, aggregate arguments, inputs and conditions of CASE, IN lists, derived tables and SET of an UPDATE. The value of a missing record is NULL and stays so through operators and functions. It depends neither on the records seen before, nor on other uses of the same expression in the statement, nor on the schedule or the pipe factor; two expressions are the same group key only if all their parts are the same.",
     ["inputs", "programs", "schedules"],
     "generated nested expressions in every clause of generated statements and scripts, over schedules, pipe factors and variables that change between statements",
     TESTS + "expressions keep buffers and references to the record at hand, are shared between clauses and stages, and are copied, linked and replaced while a statement is planned.",
     ["lib/expression.c", "lib/scalarfn.c", "lib/function.c", "lib/switchcase.c", "lib/logic.c", "lib/like.c", "lib/inlist.c", "lib/schema.c", "lib/aggregate.c", "lib/variable.c", "lib/order.c"],
     m(("evaluation by type with a buffer per expression", "lib/expression.c, lib/scalarfn.c"), ("sides of join conditions, groups and their expressions", "lib/schema.c"), ("copies made for CASE, links to derived tables", "lib/query.c, lib/expression.c")))

NA = [
    ("N01", "Scalar functions, arithmetic and comparisons follow their definition",
     "Every scalar function, arithmetic operator, cast and comparison returns the value its definition gives for all argument values and types.",
     "all argument values and types", "unit values sample the domain",
     ["lib/scalarfn.c", "lib/expression.c", "lib/logic.c", "lib/like.c"],
     m(("dispatch by argument type", "lib/function.c, lib/scalarfn.c")),
     "pure functions of their arguments: no concurrency, time, I/O, randomness or multi-party behaviour for a simulator to schedule or fail (what an expression's value can depend on besides its arguments - place, record, schedule - is C26, which checks the forms its generator knows along the way)"),
    ("N02", "The parser accepts exactly the documented grammar",
     "Every statement of the documented grammar is accepted and planned as written, and anything else is rejected with an error without side effects.",
     "all statement texts", "tests parse fixed statements",
     ["lib/antlr/TSqlParserListenerInterface.cpp"],
     m(("generated lexer and parser with a listener that builds the plan", "lib/antlr")),
     "a function of the statement text alone; there is nothing to schedule or fail, and the front end is third-party generated code"),
]

TECH = "deterministic simulation: seeded search over schedules, faults and generated workloads against a reference model"
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P:
            if d["id"] in PLAN:
                f.write(json.dumps(d) + "\n")
        for id, title, st, over, why, files, mech, _ in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=["inputs"], text=over), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=mech, hook_needed=None))) + "\n")
    checks = []
    for d, note in P:
        i = d["id"]
        if i not in PLAN:
            continue
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level=PLAN[i].get("level", "exploration"),
                           level_note=PLAN[i].get("note", "Sampled, not exhaustive: holds on every simulated run of this tier. Trusts the reference model, "
                           "the stand-in for libcsv, and that preemption points (seam calls, instrumented loads and stores) suffice; memory is sequentially consistent.")))
    man = dict(version=1, setup_cmd="bash sim/build.sh",
               hooks=dict(guard="FQL_SIM (reserved: no hook was needed in /repo; seams are put in by renaming symbols in the compiled objects)",
                          enable="python3 sim/build.py /repo build", source_commits=[]),
               checks=checks, not_applicable=[dict(property=n[0], reason=n[7]) for n in NA],
               notes="bin/check PROP TIER runs a check, bin/replay FILE replays a run; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
main()
