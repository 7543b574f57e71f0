#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a check)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)),
              technique, note))


SA, WA, FP, LX, PR = ("JSONQuery/streaming_automaton.c", "JSONQuery/worker_automaton.c", "JSONQuery/file_partition.c",
                      "JSONQuery/lexing.c", "JSONQuery/predicate.c")
PA, PP, CT, TL, MS = ("JSONQuery/parallel_automata_execution.h", "JSONQuery/path_processor.h", "JSONQuery/constraint.h",
                      "JSONQuery/tuple_list.h", "JSONQuery/multi_stack.h")
GRAM, SCAN, DFA, EV = ("JSONPathParser/parser_j.y", "JSONPathParser/scanner_j.l", "DFABuilder/src/dfa_builder.cpp",
                       "JSONPathParser/jsonpath_evaluator.h")
TESTS = "The existing tests run fixed queries on fixed documents"
MON = "online monitor: the real code is run and "

prop("C01", "A query reports exactly the matching values, in document order",
     "For every well-formed JSON text and every supported query, a serial run reports exactly the values that the query selects, each with its text as it stands in the document, in the order in which they end there. A value that matches at the end of its path is reported once, whatever the nesting, the names, the sizes and the layout around it.",
     ["inputs"], "all well-formed JSON texts (any nesting, width, layout, repeated and empty names) and all queries of child, descendant, wildcard, index, slice and filter steps",
     TESTS + " (three small queries per automaton); they do not look at other operators, nestings or layouts.",
     [SA, LX, DFA, TL], [("tokens drive the query automaton and its stack", SA), ("positions of matches are recorded at their end", SA), ("query to automaton", DFA)],
     ["results of a serial run"], MON + "compared with a tree-walking reference model, under AddressSanitizer/UBSan for a part",
     "Exploration by generated cases; trusts the reference model (350 lines of Python, written from the README's operator table).")
prop("C02", "A parallel run reports what the serial run reports, on any number of cores",
     "For every text, query and number of cores, and under every schedule of the threads, the parallel run reports the same values in the same order as the serial run. Where the text happens to be divided, and whether a thread can be had, makes no difference.",
     ["inputs", "schedules", "configurations"], "all documents and queries, 1 to any number of cores, all schedules, any subset of refused threads",
     "The tests run two queries on 4 cores with the schedule that happens to occur; the places of division and the interleavings are not varied.",
     [WA, PA, FP, MS], [("several candidate states per chunk", WA), ("results of chunks are combined in order", PA), ("dividing the input", FP)],
     ["results of a parallel run"], MON + "compared with the serial run and a reference model; perturbed schedules and refused threads",
     "Exploration; schedules are perturbed at function entries, not enumerated.")
prop("C03", "Learnt constraints never change the results",
     "Whatever data the constraints were learnt from (the same document, a part of it, something similar or something unrelated), a parallel run that uses them reports the same values in the same order as the serial run. One table may serve any number of documents.",
     ["inputs", "histories", "configurations"], "all documents, queries, numbers of cores and training data",
     "The tests learn from the very document they query afterwards; wrong or missing knowledge is never exercised.",
     [CT, WA, SA], [("what training records", SA), ("what a chunk assumes at its beginning", WA), ("lookup by kind and name", CT)],
     ["results of a parallel run with constraints"], MON + "compared with the serial run and a reference model",
     "Exploration; training data is a JSON document or a beginning of one.")
prop("C04", "Dividing a text loses, repeats and changes nothing",
     "The chunks a text is divided into, one after another, are that text byte by byte; there are at least one and at most as many as asked for, none is empty, and none is much longer than its share. Every chunk but the first begins with a string, outside of strings and primitives, and the text itself stays as it was.",
     ["inputs", "configurations"], "all JSON texts, from memory and from a file, for any number of chunks",
     "No test looks at the chunks; quotes, backslashes and long strings at the places of division are what matters.",
     [FP], [("search for the next string beyond the share", FP)], ["chunks returned by the partitioning functions"],
     "conservation monitor over the chunks that the real partitioner returns",
     "Exploration; the monitor recomputes what a legal place of division is with its own scanner.")
prop("C05", "Loading a file piece by piece is the same as loading it at once",
     "The pieces a file is loaded in, one after another, are the file byte by byte, for every load size; the position advances with every piece and ends at the end of the file; and no piece is longer than the load size by more than the way to the next string. Runs over many small loads report what a run over one load reports, and need no more memory for more loads.",
     ["inputs", "configurations"], "all files and all load sizes from one byte to more than the file",
     "The load size is 250 MB; no test has a file that needs a second load.",
     [FP, PP], [("loading up to the next string beyond the load size", FP), ("loop over loads that keeps the state of the run", PP)],
     ["pieces of the loader, results of whole runs, peak of live memory"], "conservation monitor over loaded pieces; results compared with one load; allocator monitor for the peak",
     "Exploration with the load size made small through the hook; one file above 2 GiB is a known finding.",
     "load size as a variable (JPSTREAM_VERIF)")
prop("C06", "A document that arrives in chunks gives the same results, early and once",
     "Feeding a document chunk by chunk, serially or in parallel, reports exactly the values of one run over the whole, each as soon as the chunks contain it completely. Chunk buffers belong to the caller again after each call, and results once reported never change.",
     ["inputs", "histories"], "all documents, all sequences of chunks cut between tokens, all queries, serial, parallel and with constraints",
     "No test uses the incremental interface with more than one chunk.",
     [PP, SA, WA, PA], [("context that is kept between chunks", PP), ("matches that are open at the end of a chunk keep their text", SA)],
     ["results after every chunk"], "online monitor of each step of an incremental run (completeness, prefix stability, exactly-once), buffers overwritten in between",
     "Exploration; no chunk ends between a name and its colon.")
prop("C07", "A query means what the grammar says, and anything else is refused",
     "Every query of the documented grammar is parsed into the tree its operators, precedences and parentheses define, with every name, number and text as written. A text outside of the grammar is refused with a syntax error and never compiled into something else.",
     ["inputs"], "all texts of the grammar, and texts that differ from one by a small change",
     "The tests print the trees of a few queries; precedence, literals and refusals are not asserted.",
     [GRAM, SCAN], [("grammar", GRAM), ("scanner", SCAN)], ["syntax tree returned by the parser"],
     "differential monitor: the tree the real parser returns against an independent recursive-descent parser",
     "Exploration; refusals are observed as the process ending with the parser's error.")
prop("C08", "A filter keeps exactly the objects whose members satisfy it",
     "A filter step keeps an element exactly when it is an object whose members make the expression true: with the usual logic, comparisons and arithmetic, operands of the wrong type making a comparison false, missing members counting as false. The order of members, what else the object contains, and where the object stands make no difference.",
     ["inputs"], "all filter expressions over member paths, numbers, strings and truth values, all records",
     "The tests have one filter that compares nothing; types, missing members and nested paths are not covered.",
     [PR, DFA, SA], [("conditions are gathered per object, then evaluated", PR), ("evaluation of an expression", EV)],
     ["results of queries with filters"], MON + "compared with a reference evaluator of the expressions; members permuted",
     "Exploration; filters nested below '..' are a known finding.")
prop("C09", "The automaton of a query accepts exactly the paths its steps describe",
     "Along every path of names and array elements, the automaton built from a query reports a match exactly where the steps of the query match, is dead exactly where no extension can match, and carries the index range or the condition of the step it has reached. Looking up the next state by name gives what its table says, any unknown name counting as 'some other name'.",
     ["inputs"], "all queries; for each, all reachable combinations of state and input (names of the query, any other name, array)",
     "The tests print automata but assert nothing about them.",
     [DFA, "DFABuilder/src"], [("steps become rules, rules an NFA, the NFA a minimal DFA", "DFABuilder/src"), ("transition lookup by name", DFA)],
     ["transitions, accept information and index ranges read from the built automaton"],
     "product exploration: the built automaton is read out and walked together with the position automaton of the query, every reachable pair",
     "Complete for each query drawn; queries are drawn at random.")
prop("C10", "Compressed transition tables return what was stored",
     "Whatever transitions are stored row by row, the compressed table, like the plain one, later returns each of them, the number of states and the reported rule of every state unchanged.",
     ["inputs"], "all tables; rows that are equal, nearly equal, constant, sparse and dense",
     "The tests build automata of a few states; differential rows, shared entries and large inputs need particular tables.",
     ["DFABuilder/src"], [("rows are stored as differences to earlier rows, entries shared", "DFABuilder/src (compressed tables)")],
     ["table lookups"], "round-trip monitor on the real table classes, plain and under AddressSanitizer/UBSan",
     "Exploration; rows are stored in the order in which the library stores them.")
prop("C11", "An automaton built from rules accepts exactly the words of the rules",
     "For any set of rules (sequences, choices, repetitions, options, references, complemented sets), the automaton that the builder makes of them accepts a word exactly when a rule matches it, reports the rule that has priority, and never dies while a continuation can match. A rule with a non-greedy part ends at its first chance: of its words it accepts the shortest. Start conditions select the rules that take part. A model keeps its rules in the order they were added, each with its id, names, source, conditions and script, and finds them by name.",
     ["inputs"], "all sets of rules and all words over the inputs",
     "The tests build two fixed sets of rules and print them.",
     ["DFABuilder/src"], [("subset construction, minimisation, mixing", "DFABuilder/src")], ["walks of the built automaton"],
     "differential monitor: walks of the real automaton against a matcher that works on the rules",
     "Exploration over generated rules and words.")
prop("C12", "The tokenizer reports every token of a text once, with its exact text",
     "Going through a JSON text, or a piece of it that begins and ends between tokens, the tokenizer reports each bracket, name, separator and primitive once, in order, with exactly the text that stands there, and then the end. Escapes, blanks, line breaks, signs and lengths make no difference.",
     ["inputs"], "all JSON texts and pieces cut between tokens",
     TESTS + "; long tokens, escapes, signs, line breaks and pieces do not occur.",
     [LX], [("skipping from one structural character to the next", LX)], ["tokens and positions"],
     "differential monitor: token stream against a reference tokenizer, a part under AddressSanitizer/UBSan",
     "Exploration.")
prop("C13", "No run reads or writes memory it does not own",
     "No run of any entry point, on any well-formed document or beginning of one, with any query, number of cores and load size, reads or writes outside of live memory, reads memory never written, or performs an operation the language leaves undefined.",
     ["inputs", "configurations", "fault_sequences"], "all documents and beginnings of documents, queries, cores, load sizes and refused threads",
     "Tests pass while an access goes unnoticed; only the inputs of the tests are run, and without instrumentation.",
     [SA, WA, PA, FP, LX, PR, TL, MS, PP, DFA, GRAM], [("buffers grow with what they hold", TL), ("chunks and pieces are terminated copies", FP)],
     ["every memory access"], "AddressSanitizer, UndefinedBehaviorSanitizer and Valgrind memcheck, and builds with differing garbage compared",
     "Exploration; malformed documents are outside of the contract.")
prop("C14", "Concurrent work never races and never depends on the schedule",
     "The threads of a parallel run, and separate runs in separate threads, also of one compiled query, never access the same memory without order when one of them writes. The results are the same under every schedule.",
     ["schedules", "inputs"], "all interleavings of the worker threads, and of several users",
     "A test sees one schedule per run and no race that happens to be harmless.",
     [PA, WA, PP, DFA], [("each worker owns its chunk, stacks and results", WA), ("joined before results are combined", PA)],
     ["memory accesses and synchronisation of all threads", "results under perturbed schedules"],
     "ThreadSanitizer and seeded schedule perturbation with fingerprinted interleavings",
     "Exploration; ThreadSanitizer reports races of the executions that were seen.")
prop("C15", "Everything acquired is released, exactly once",
     "After a cycle of compiling, learning, running in any mode (to the end or abandoned) and releasing what the documentation says to release, no more memory is held than after the cycle before. Nothing is released twice.",
     ["histories", "inputs", "fault_sequences"], "all sequences of API calls that end with everything released",
     "The tests do not measure memory.",
     [PP, SA, WA, PA, TL, PR, DFA], [("destroy and free functions", PP)], ["live blocks and bytes after every cycle"],
     "allocator monitor counting live blocks between cycles; AddressSanitizer for double release",
     "Exploration; memory that is held once per process is not counted.")
prop("C16", "A constraint table records exactly where each name occurred",
     "After learning from a document, the table lists for every name that occurs, and for arrays, exactly the positions of the query at which it occurred, however many and however long the names are; a name that does not occur is unknown. Using a table changes nothing in it.",
     ["inputs", "histories"], "all training documents and queries",
     "The tests learn from one small document and never look into the table.",
     [CT, SA], [("one entry per name and kind", CT), ("training adds the current state", SA)], ["lookups in the table"],
     "differential monitor: table contents against a walk over the parsed document",
     "Exploration; positions are compared for queries without index ranges.")
prop("C17", "Documents that follow one another are independent",
     "A stream of several documents, with any separator or none, reports exactly what the documents report one by one, in order. No document influences what another reports, also when it is empty or a bare primitive.",
     ["inputs", "histories"], "all sequences of documents, separators, queries and modes",
     "All tests have one document per file.",
     [SA, PP, WA, PA], [("state of a run returns to the beginning after a document", SA)], ["results per stream"],
     "metamorphic monitor: results of a stream against those of its documents",
     "Exploration.")
prop("C18", "A compiled query is unaffected by the work done with it or next to it",
     "Every use of a compiled query (serial, parallel, with constraints, incremental, abandoned, concurrent) reports what a freshly compiled one would report. Queries compiled, used and released next to each other, in any order, do not disturb each other.",
     ["histories", "schedules"], "all sequences and interleavings of uses",
     "Each test compiles a query, runs it once and ends.",
     [PP, DFA, PR], [("state of a run lives outside of the compiled query", PP)], ["results of every use"],
     "history monitor: every use in a random history compared with a fresh compilation, a part under ThreadSanitizer/AddressSanitizer",
     "Exploration.")
prop("C19", "Nothing is silently limited in length, depth or number",
     "Depth, lengths of names, strings, numbers and blanks, numbers of elements, members, results, documents, chunks, cores, names learnt, and the number of steps, names, conditions of a query may be of any size that memory holds. Results are complete and exact at every size.",
     ["inputs", "configurations"], "each dimension at sizes around every power of two and ten, in all modes",
     "The tests stay far below every buffer size.",
     [TL, LX, MS, WA, CT, DFA, "JSONQuery/stack.h", "JSONQuery/output.h", "JSONQuery/unit.h"], [("buffers, stacks and lists that grow", TL)],
     ["results"], "boundary-value workload with results known by construction, compared in every mode, a part under AddressSanitizer",
     "Exploration up to 10^7 per dimension (10^6 for depth).")
prop("C20", "A document that breaks off still gives the matches that were complete",
     "When a text ends early, at any byte, every mode ends properly and reports exactly the matches that were complete at that point, in order. All modes agree.",
     ["inputs", "fault_sequences"], "all documents cut at any byte",
     "All test documents are complete.",
     [SA, WA, PA, FP, LX], [("a match is recorded when its value ends", SA)], ["results"],
     "fault injection (truncation at every kind of byte) with results compared to the matches complete by then",
     "Exploration of places, queries and documents.")
prop("C21", "The components, put together by hand, give what the one-call runs give",
     "A caller who loads, compiles, divides, executes, filters and collects with the documented components reports exactly what the one-call functions report. This holds for every assembly: serial with or without learning, parallel on chunks from memory or from a file, with the constraints of the same or of other data, or without any.",
     ["inputs", "configurations"], "all documents, queries, numbers of cores, training data and assemblies of the documented components",
     "The tests use the components once each, on a fixed document, and print what comes out.",
     [SA, PA, FP, PR, PP, CT], [("components take and return plain structures", "JSONQuery/streaming_automaton.h"), ("filter over the tuples of either automaton", PR)],
     ["results of every assembly"], "differential monitor: six assemblies per case against the one-call serial run and the reference model",
     "Exploration.")
prop("C22", "Missing, empty and blank input is no data, not a failure",
     "A file that does not exist, and a path that is that of a directory or a pipe, gives no output, an empty or blank one no results, and learning from either gives constraints that exclude nothing. No such input ends the process, moves a position, or changes what documents report that are run before or after it.",
     ["inputs", "histories", "fault_sequences"], "all sequences of missing, empty, blank and ordinary files, pieces and chunks, in all modes",
     "Every file of the tests exists and has content.",
     [FP, PP, WA, SA], [("loading returns nothing", FP), ("runs end their loop at once", PP)], ["outputs, positions, process status"],
     "fault injection (missing, empty, blank input at any point of a history) with every ordinary run compared to the undisturbed one",
     "Exploration.")
prop("C23", "Results depend on what a document says, not on how it is written down",
     "Other blanks between tokens, other names used consistently, other primitives of any length, members a query does not mention, a wrapping object or array, and another order of records change the results in exactly the corresponding way. Slices put together give the whole, a filter and its negation divide the objects, logically equal filters select the same, and every member of a name is found below the root.",
     ["inputs"], "all documents, queries, and transformations of the kinds named, in all modes",
     TESTS + ", one layout each; relations between runs are never looked at.",
     [SA, WA, LX, PR, DFA], [("only tokens drive the automata", LX)], ["results of pairs of runs"],
     "metamorphic monitor over pairs and groups of runs in random modes; needs no model of the expected results",
     "Exploration; independent of the reference model.")
prop("C24", "A run holds the results and what is open, not the text that has gone by",
     "Between the chunks of an incremental run, and over the loads of a file, only the results, matches that are still open, and the nesting are kept: the memory does not grow with the text that has been processed. No run needs more than a fixed multiple of its text and results.",
     ["inputs", "histories"], "all texts of N and 8N units, queries, chunkings, load sizes and modes",
     "The tests do not measure memory, and their documents are a few hundred bytes.",
     [SA, PP, PA, TL, FP], [("a context is renewed after every chunk", PP), ("a match that is complete is closed", SA)], ["live and peak bytes of the heap"],
     "allocator monitor: live bytes after chunks and peak bytes of runs, compared between N and 8N units",
     "Exploration; thresholds of 160 bytes and three times the text per result.", "load size as a variable (JPSTREAM_VERIF)")
prop("C25", "One pass: the time of a run grows with the text, not with its square",
     "Eight times the text, of whatever shape (elements, members, documents, nesting, one long token, blanks), takes about eight times the processor time, serial, parallel, with constraints, piecewise, chunk by chunk, or for dividing alone.",
     ["inputs", "configurations"], "all shapes of text, queries whose results do not contain one another, and modes",
     "The tests measure no time, and their documents are a few hundred bytes.",
     [LX, SA, WA, PA, FP, TL], [("every byte is looked at a bounded number of times", LX)], ["processor time of runs"],
     "cost monitor: processor time of the real runs at N and 8N units, repeated before it counts",
     "Exploration; up to sixteen times the time for eight times the text counts as linear, which leaves room for noise.")
prop("C26", "The scanner runtime cuts a text as the automaton of its tables says",
     "The runtime for generated scanners takes every step, and reports every rule, as the automaton its tables come from. Reading a text in memory, it yields the words of the rules one after another, each as long as the automaton can go on, with code, rule, position, length, line and a copy; actions skip words, go on with them, name their code, or change the start condition, also within one another and back. The fast mode yields the same codes.",
     ["inputs"], "all sets of rules, byte classes, actions and texts",
     "The test takes three steps with the tables of two fixed sets of rules and prints them; the scanner functions are never called.",
     ["DFABuilder/interface/dragontooth.h", "DFABuilder/src/Lexer/dfa_compressed.cpp"],
     [("stepping through the compressed tables, cutting words", "DFABuilder/interface/dragontooth.h")], ["transitions, rules, and sequences of words"],
     "differential monitor: steps and words of the real runtime against the automaton and a scanner that walks it, a part under AddressSanitizer/UBSan",
     "Exploration over generated rules, actions and texts.")
prop("C27", "Grouping inputs into classes changes nothing that rules can tell",
     "When the inputs of a scanner are grouped into classes first, two inputs share a class exactly when no rule tells them apart; input 0 and inputs beyond the table have class 0, every other input a class below the announced number. The automaton over the classes accepts the same words, with the same rules and priorities, as the rules over the inputs. A set means the characters, ranges and escapes of its text, or all others after '^', and so does its copy; sets that compare as equal mean the same.",
     ["inputs"], "all sets of rules over 256 inputs, all words and all texts of sets",
     "The tests convert the sets of two fixed rules and print the classes.",
     ["DFABuilder/src/Lexer"], [("refining classes, converting sets and characters", "DFABuilder/src/Lexer/equivalence_class.cpp"), ("reading sets", "DFABuilder/src/Lexer/charset.cpp"), ("conversion of all rules", "DFABuilder/src/Lexer/ecset_converter.cpp")],
     ["class of every input", "walks of the automaton over classes", "members of sets and of their copies"],
     "differential monitor: classes of the real code against what the leaves of the rules tell apart, walks over classes against a matcher that works on the inputs, a part under AddressSanitizer/UBSan",
     "Exploration over generated rules, words and sets.")
prop("C28", "A workflow runs every pass once, in order, and keeps its messages",
     "Running a workflow sets up and executes each pass once, on what the pass before it made, with what the joined holder holds. A branch runs as a whole after its pass and before the next one, on data of its own or on the pass's result; holders keep what reaches them; the end of the main chain is the result. Message centre and configuration reach every pass. Messages of the chosen levels, and no others, arrive in order where they were sent, with their kind; a message centre leaves nothing behind.",
     ["inputs", "configurations"], "all workflows, levels and destinations of messages",
     "The tests run straight chains without branches, joins or messages.",
     ["DFABuilder/include/pass.hpp", "DFABuilder/src/pass.cpp", "DFABuilder/include/error_center.hpp", "DFABuilder/src/error_center.cpp"], [("order of passes, branches and joins", "DFABuilder/src/pass.cpp"), ("levels and destinations", "DFABuilder/src/error_center.cpp")],
     ["events of the passes with their data", "held data", "messages", "memory in use"],
     "trace monitor: recorded events, data and messages of the real workflow against a model, a part under AddressSanitizer/UBSan",
     "Exploration over generated workflows.")


def main():
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    src = [x.split()[0] for x in hook if "JPSTREAM_VERIF" in x or "hook" in x.split(" ", 1)[1].split(":")[0]]
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p[0]["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in have:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "hooks": {"guard": "JPSTREAM_VERIF", "enable": "the checks compile /repo's sources themselves, with -DJPSTREAM_VERIF (lib/build.py)", "source_commits": src},
         "checks": [{"property": p["id"], "quick_cmd": "python3 checks/check.py " + p["id"],
                     "thorough_cmd": "python3 checks/check.py %s --thorough" % p["id"],
                     "technique": t, "level": "exploration", "level_note": n} for p, t, n in have],
         "not_applicable": [],
         "notes": "All checks run the real code (lib/build.py builds it from /repo's working tree) under generated workloads; the verdict comes from monitors and sanitizers.  See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
