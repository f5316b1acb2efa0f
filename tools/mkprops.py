#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A script's outcome depends only on the bytes its reads deliver",
 "Running the command-line program on a script file gives the same standard output, diagnostics and exit status however the operating system hands the file over: in reads of any size, which may split lines and multi-byte characters, with interrupted reads, and whatever length the file's metadata announces. The outcome is that of the whole sequence of bytes delivered up to end of file. A script whose bytes are not valid UTF-8 yields no tree and a non-zero exit status.",
 ["inputs", "schedules", "fault_sequences"],
 "All script contents of any size, all ways of cutting them into reads, all placements of interruptions, all announced sizes (regular file, pipe, growing or shrinking file).",
 "The unit tests never run the program: they pass complete &str values to the parser. Reads, their sizes and their errors are not exercised at all.",
 ["src/main.rs"],
 [("whole-file read before parsing", "src/main.rs run_file"), ("UTF-8 validation of the whole content", "src/main.rs run_file")],
 ["stdout, stderr and exit status of the whitespace binary"])

prop("C02", "Exit status and output streams never claim more than happened",
 "For every script run and every failure of opening or reading the script, of writing standard output or standard error, or of memory allocation, exit status 0 is given only if the source was accepted and its whole tree reached standard output, and 65 only if the source was rejected, all its diagnostics reached standard error and nothing went to standard output. Every other failure ends the process abnormally or with another non-zero status. Whatever did reach standard output is a prefix of the complete tree, and short or interrupted writes lose, repeat and reorder nothing.",
 ["inputs", "fault_sequences", "crash_points"],
 "All scripts, and every point at which an open, read, write or allocation of the run can fail, be cut short or be interrupted.",
 "No test runs the binary, and none can make a write or an allocation fail at a chosen point; exit statuses are untested.",
 ["src/main.rs", "src/error.rs"],
 [("exit(65) only on a parse or resolve error", "src/main.rs main"), ("printing of the tree and of every cause", "src/main.rs print_result"), ("panic on a failed print", "src/main.rs print_result")],
 ["stdout, stderr and exit status of the whitespace binary"])

prop("C03", "A REPL transcript depends only on the bytes typed, not on their delivery",
 "However the bytes of a session arrive on standard input - in pieces of any size that may split lines and multi-byte characters or join many lines, with interrupted reads, and with pauses anywhere - the REPL gives the same trees and the same diagnostics in the same order. Ending lines with CRLF instead of LF changes neither the verdict nor the tree of any line.",
 ["histories", "schedules", "fault_sequences"],
 "All sessions, all cuts of their bytes into reads, all interruption points, both line-ending conventions.",
 "No test covers the REPL; parser tests use single complete strings with LF only.",
 ["src/main.rs", "src/scanner.rs"],
 [("line-wise reading", "src/main.rs run_repl"), ("carriage returns ignored", "src/scanner.rs scan_token")],
 ["stdout and stderr of the whitespace binary run without a script"])

prop("C04", "A REPL session ends when its input ends or a stream fails",
 "When standard input reaches end of file or fails (which includes delivering bytes that are not UTF-8), or when standard output or standard error can no longer be written, the REPL terminates within a bounded number of further reads and writes. At plain end of input it exits with status 0, having answered every line it received, including a last line without a newline. A session whose output could not be delivered does not exit with status 0.",
 ["histories", "crash_points", "fault_sequences"],
 "All sessions, every position (before, between and inside lines) at which the input ends or a read or write fails.",
 "No test runs the REPL loop, and termination after a fault is not observable in a unit test of the parser.",
 ["src/main.rs"],
 [("loop exit on end of input and on read errors", "src/main.rs run_repl"), ("panic on a failed flush or print", "src/main.rs run_repl")],
 ["reads, writes and exit status of the whitespace binary run without a script"])

prop("C05", "Every line typed gets one answer, in order, before more input is awaited",
 "In every REPL session the n-th line is answered exactly once, after line n-1 and before line n+1: an accepted line by its tree on standard output, a rejected line by one printed diagnostic per problem found, on standard error, and nothing on standard output besides the prompt. Whenever the program goes to wait for more input, the answers to all complete lines received so far and a prompt have already been written out. A rejected line never ends the session.",
 ["histories", "schedules", "fault_sequences"],
 "All sequences of accepted and rejected lines and all delivery schedules, including one line at a time, many lines at once and partial lines.",
 "Nothing tests the REPL; ordering between input, stdout and stderr only exists in a running process.",
 ["src/main.rs"],
 [("prompt, read, run, print loop", "src/main.rs run_repl"), ("flush before reading", "src/main.rs run_repl"), ("errors to stderr, trees to stdout", "src/main.rs print_result")],
 ["interleaving of reads on stdin and writes on stdout/stderr"])

prop("C06", "A rejected entry leaves no trace in the session",
 "Submitting to a session an entry that is rejected, whatever is wrong with it and wherever in it the problem is found, changes nothing in the session. Every later entry is accepted or rejected, with the same diagnostics or the same bindings and slots, exactly as if the rejected entry had never been submitted.",
 ["histories", "fault_sequences"],
 "All sessions with rejected entries of every kind inserted at every position.",
 "The resolver has no tests at all, and the parser tests never submit a second entry after a failing one.",
 ["src/resolver.rs", "src/main.rs"],
 [("scopes, function and class context restored on the error paths", "src/resolver.rs resolve_statement, resolve_class, resolve_function"), ("all-or-nothing result of an entry", "src/resolver.rs Resolver::resolve")],
 ["Resolver::resolve called repeatedly on one Resolver", "REPL transcript"],
 [dict(name="scopes", meaning="variables known to the session, with their slots and whether they are defined", where="src/resolver.rs Resolver")])

prop("C07", "Every name is bound to the right variable through a session's whole history",
 "In every accepted entry of a session, each use of a name (including this, super and assignment targets) is bound to the variable of that name declared before it in the innermost enclosing scope that has one, at the number of scopes between the two, and otherwise to the global of that name, which keeps one slot for the whole session. Two different variables of one scope never share a slot. An entry for which this cannot be arranged is rejected with a diagnostic.",
 ["histories", "programs"],
 "All sessions of any length, all nestings of blocks, functions, loops and classes, all numbers of variables in a scope.",
 "src/resolver.rs has no tests; slots are only meaningful over a history of entries, and exhaustion needs hundreds of declarations.",
 ["src/resolver.rs", "src/environment.rs"],
 [("innermost-first lookup", "src/resolver.rs resolve_local_variable"), ("forward reservation of globals", "src/resolver.rs forward_reserve_global_var"), ("slot assignment and its limit", "src/resolver.rs declare, define, ensure_scope_index_limit")],
 ["VarLoc and SlotIndex values in the resolved tree"],
 [dict(name="slot_index", meaning="place of a variable in its scope", where="src/resolver.rs VarResolveState")])

prop("C08", "Rules about names and contexts are judged afresh in every statement",
 "A return outside a function, a value returned from an initializer, this outside a class, super outside a class that has a superclass, a local variable or parameter declared twice in one scope, a not yet defined variable read directly in its own initializer, a class inheriting from itself, and break or continue outside a loop are rejected, and no other well-formed statement is. This does not depend on what was accepted or rejected before, in the same entry or an earlier one. Every top-level statement of an entry that breaks one of the name or context rules (all but the break and continue rule) is reported, not only the first.",
 ["histories", "programs", "fault_sequences"],
 "All sequences of correct and faulty statements, faults at every nesting depth, all contexts entered and left before.",
 "src/resolver.rs has no tests; the two parser tests about break use single statements with no history.",
 ["src/resolver.rs", "src/parser.rs"],
 [("function and class context saved and restored", "src/resolver.rs resolve_function, resolve_statement"), ("declared/defined states", "src/resolver.rs declare, define"), ("loop depth counter", "src/parser.rs loop_body_statement")],
 ["verdict and diagnostics of each entry"],
 [dict(name="function_type, class_type", meaning="context in which return, this and super are judged", where="src/resolver.rs Resolver"), dict(name="in_loops", meaning="loop nesting at the current token", where="src/parser.rs Parser")])

prop("C09", "Same text, same answer: no randomness and no hidden state",
 "Processing a text gives an identical result every time - the same tree with the same bindings and the same order of map entries, or the same diagnostics in the same order. It does not depend on the random seeding of hash tables, on memory addresses or stale memory contents, or on which texts the same process handled before, accepted or rejected.",
 ["inputs", "histories", "configurations"],
 "All texts, all hash seeds, all memory layouts, all sequences of earlier calls in the process.",
 "Tests process each text once per process, compare with one expected value, and cannot choose hash seeds; the randomly seeded maps of the resolver are not reached by any test.",
 ["src/parser.rs", "src/resolver.rs", "src/scanner.rs", "src/ast.rs"],
 [("insertion-ordered map literals with a fixed hasher", "src/ast.rs Map"), ("lookup-only use of randomly seeded maps", "src/resolver.rs, src/scanner.rs KEYWORDS")],
 ["results of parse, parse_repl_line and resolve; output of the binary"])

prop("C10", "Concurrent callers get the results they would get alone",
 "When several threads of one process parse and resolve texts at the same time, including the very first uses of the library in that process, each call returns exactly what it would return running alone, under every interleaving of their steps. No call panics or deadlocks because of another.",
 ["schedules", "inputs"],
 "All interleavings of the steps of up to several calls on different threads, on a cold or a warm process.",
 "The test harness does run tests on several threads, but with uncontrolled interleavings, on tiny inputs, and practically never inside each other's critical windows.",
 ["src/scanner.rs", "src/parser.rs", "src/resolver.rs"],
 [("once-only initialisation of the keyword table", "src/scanner.rs KEYWORDS"), ("no other shared state", "src/parser.rs, src/resolver.rs")],
 ["results of parse, parse_repl_line and resolve on several threads"])

prop("C11", "A paused caller holds nobody up",
 "Once the library has completed one call in a process, a thread paused at any point inside a call, for however long, does not delay calls on other threads: they complete with their normal results, in a bounded number of their own steps. When the paused thread resumes, its own call completes with its normal result.",
 ["schedules", "fault_sequences"],
 "All points at which a thread can be paused inside a call, all pause lengths, all activity of other threads meanwhile.",
 "Tests cannot pause a thread in the middle of a call at a chosen point.",
 ["src/scanner.rs", "src/parser.rs", "src/resolver.rs"],
 [("no locks after initialisation", "src/scanner.rs KEYWORDS")],
 ["completion of calls on other threads while one is paused"])

prop("C12", "No text, however damaged, crashes or hangs the system",
 "For every text, including programs torn, truncated or spliced from two versions by a crash during saving, with blocks zeroed, lost or repeated, bytes flipped, or lines re-indented, the library and the command-line program return a tree or diagnostics. They do not panic, abort or loop, and the work and memory they use is bounded by a constant multiple of the text's length.",
 ["inputs", "crash_points", "fault_sequences"],
 "All texts; in particular every crash point while a file is being saved and every placement of storage damage.",
 "The tests feed about a hundred small, mostly well-formed snippets; damage at arbitrary places is never tried.",
 ["src/scanner.rs", "src/parser.rs", "src/resolver.rs", "src/main.rs"],
 [("every loop consumes input or ends", "src/scanner.rs scan_token, bol_indentation_tokens; src/parser.rs synchronize, primary"), ("saturating counters", "src/scanner.rs")],
 ["return of parse, parse_repl_line, parse_expression and resolve; termination of the binary"])

prop("C13", "Diagnostics for damaged text point at what they quote",
 "A text is either accepted, or rejected with at least one diagnostic. Every diagnostic's line exists in the text and its column lies within that line or just past its end, counting user-perceived characters, and a token it quotes is found in the text exactly at that line and column (for a quoted map key written as a string, the position is that of its opening quote; columns beyond 65,535 are reported as 65,535). The command-line program prints all of the diagnostics with these positions.",
 ["inputs", "fault_sequences", "crash_points"],
 "All texts, in particular programs damaged by torn or corrupted storage; positions after multi-line strings, continuation lines, comments, multi-byte characters and either line ending.",
 "A handful of tests compare one diagnostic each on one-line inputs.",
 ["src/scanner.rs", "src/parser.rs", "src/resolver.rs", "src/error.rs", "src/main.rs"],
 [("line and column tracking", "src/scanner.rs advance, reset_line, scan_string"), ("positions copied from tokens", "src/parser.rs error_from_peek, error_from_last")],
 ["ParseError causes; stderr of the binary"])

prop("C14", "A program typed line by line means the same as the same script",
 "For a program whose every statement is complete on its own, not indented line (blank lines and comments aside), running the program as a script file and typing its lines one by one into a REPL session give the same verdict: the script is accepted exactly if every typed line is. If they are accepted, the trees are the same, with the same bindings and slots and the same columns, line numbers apart.",
 ["histories", "programs", "fault_sequences"],
 "All such programs, under all delivery schedules of both modes.",
 "Nothing tests the REPL entry point, the resolver, or two modes against each other.",
 ["src/main.rs", "src/parser.rs", "src/resolver.rs"],
 [("one resolver kept for the whole session", "src/main.rs run_repl"), ("shared parser for both modes", "src/parser.rs parse, parse_repl_line")],
 ["stdout of the binary in both modes"])

prop("C15", "The live page settles on the parse of the current text",
 "Whatever the order in which the page's module finishes loading, the document becomes ready and the user's edits arrive, once the module has loaded and the document is ready and no more events come, the page displays the result for the text then in the editor: its tree or its error message. Texts with different trees are displayed differently. No edit, however broken its text, prevents later edits from being shown.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of load completion, document readiness and edits, with any delays, and all edit histories.",
 "The page has no tests of any kind.",
 ["index.html", "src/wasm.rs"],
 [("isLoaded and isReady flags", "index.html"), ("input event handler with error display", "index.html onChange"), ("tree printer", "index.html pretty")],
 ["text of the result element after each event"],
 [dict(name="isLoaded, isReady", meaning="which of the two start-up events have happened", where="index.html")])

prop("C16", "A long-lived browser module answers every call like its first",
 "In one long-lived instance of the WebAssembly module, every call returns for its text the same tree or error as a fresh instance would, whatever texts came before. The tree is the one the native library builds for that text, with the same names, literals, operators, positions and bindings, and an error carries the same diagnostics. Calls do not accumulate memory or references in the instance.",
 ["histories", "inputs", "fault_sequences"],
 "All sequences of calls (edit histories with broken intermediate states) on one instance.",
 "The wasm32 code is only compiled, never run, by the build and the tests.",
 ["src/wasm.rs", "src/ast.rs", "src/environment.rs", "src/source_loc.rs"],
 [("parse, resolve and serialise per call", "src/wasm.rs wasm_parse_string"), ("serialisation of the tree", "src/ast.rs derive(Serialize)")],
 ["value returned or thrown by parseString"])

prop("C17", "Long sessions do not accumulate memory",
 "The memory a session holds after any number of entries is bounded by the number and length of the global names its accepted entries mention, not by the number or size of the entries submitted. In particular entries that repeat known names, and rejected entries of any kind, leave nothing behind, and dropping a returned tree or the session releases everything it held.",
 ["histories", "fault_sequences"],
 "All sessions of any length, with any mix of accepted and rejected entries.",
 "Tests are single-shot and do not measure memory.",
 ["src/resolver.rs", "src/parser.rs", "src/scanner.rs"],
 [("scopes dropped when left", "src/resolver.rs end_scope"), ("tokens and errors owned by the call", "src/scanner.rs, src/parser.rs")],
 ["live heap bytes of the process between entries"])

# Pure functions of their input: listed for breadth, not claimed.
pure = "Tests sample a few dozen short inputs; the statement is about all of them."
prop("C30", "The token sequence covers the source exactly",
 "For every source, the tokens with visible text appear in source order, do not overlap, carry exactly the text at their position, and everything between them is spaces, comments, line ends or continuation marks.",
 ["inputs"], "All source texts.", pure, ["src/scanner.rs", "src/token.rs"], [("slicing of lexemes from the source", "src/scanner.rs add_token")], ["Scanner::scan_tokens"])
prop("C31", "Indentation and braces describe the same blocks",
 "A program laid out by indentation and the same program written with braces parse to the same tree, positions apart, whatever consistent indentation widths, blank lines and comments are used, and indents and outdents always balance.",
 ["programs"], "All programs and layouts.", pure, ["src/scanner.rs", "src/parser.rs"], [("indentation stack", "src/scanner.rs bol_indentation_tokens"), ("either kind of block", "src/parser.rs consume_begin_block")], ["parser::parse"])
prop("C32", "Operators nest by precedence and associativity",
 "For every expression, the tree groups operators by the documented precedence and associativity, and adding the parentheses this implies changes nothing but grouping nodes.",
 ["programs"], "All expressions.", pure, ["src/parser.rs"], [("one method per precedence level", "src/parser.rs")], ["parser::parse_expression"])
prop("C33", "Literals keep their exact values",
 "Every number literal becomes the nearest double to its decimal text, every string literal keeps exactly the characters between its quotes, and every literal map keeps its entries in written order and rejects a repeated key.",
 ["inputs"], "All literals.", pure, ["src/scanner.rs", "src/parser.rs", "src/ast.rs"], [("float parsing", "src/scanner.rs scan_number"), ("duplicate key check", "src/parser.rs literal_map")], ["parser::parse_expression"])
prop("C34", "Calls and functions with more than 255 arguments are rejected",
 "A call or function definition is accepted with up to 255 arguments or parameters and rejected with a diagnostic at the 256th.",
 ["programs"], "All argument counts.", pure, ["src/parser.rs"], [("argument count checks", "src/parser.rs finish_call, finish_call_without_parens, function_definition")], ["parser::parse"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
