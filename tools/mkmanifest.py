#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("the real binary under a shim that decides every read of the script; seeded short, interrupted and mis-sized reads against the library's answer for the delivered bytes",
         "Sampled. Trusts the shim (libc calls of the script's descriptor are intercepted; std uses no others) and, as reference, the library itself called in process on the whole text."),
 "C02": ("the real binary under a shim with seeded failures of open, read, write and malloc on both streams, in debug and release",
         "Sampled. Trusts the shim's log of what reached each stream. An allocation failure is a NULL from malloc, calloc, realloc or posix_memalign; mmap of thread stacks is not failed."),
 "C03": ("the real REPL under a shim that delivers the typed bytes in seeded pieces with interrupted reads, and with CRLF twins",
         "Sampled. Trusts the shim and the library in process as reference."),
 "C04": ("the real REPL under a shim with seeded end of input, read errors, invalid bytes and write errors; termination judged by a bounded number of intercepted calls",
         "Sampled. 'Bounded' is a budget of intercepted calls proportional to the input."),
 "C05": ("the real REPL under a shim; at each read the log of what was already written is checked against the lines delivered so far",
         "Sampled. Trusts the shim's order of calls; one thread runs, so the order is total."),
 "C06": ("sessions in process, with rejected entries as the injected fault: each answer compared with a session that never saw the rejected ones; part of the runs through the real REPL",
         "Sampled. The oracle is the code itself without the faults, so it needs no model of the language."),
 "C07": ("seeded session histories with crowded scopes against an executable reference model of scopes and slots",
         "Sampled. Trusts the reference model (sim/src/model.rs) and the renderer that writes programs as text."),
 "C08": ("seeded session histories with seeded rule violations against an executable reference model of the rules",
         "Sampled. Trusts the reference model and the renderer."),
 "C09": ("repeated execution under different simulated randomness, stale memory and session histories",
         "Sampled. Hash seeds come from the simulated getrandom; stale memory from a filling allocator."),
 "C10": ("real threads under a seeded scheduler that switches at basic-block edges, with first-use races in a forked fresh process",
         "Sampled schedules at basic-block edges of crate whitespace and at futex and yield calls; switches inside std or dependencies happen only where they block. Sequentially consistent execution only: no weak memory effects."),
 "C11": ("real threads under a seeded scheduler that pauses one thread inside a call and demands bounded progress of the others",
         "Sampled pause points at basic-block edges. Progress is bounded in steps against the same calls alone."),
 "C12": ("texts after seeded storage faults (torn, truncated, spliced, zeroed, repeated, flipped, re-indented) under step, memory and call budgets, in process and through the real binary",
         "Sampled. Work is counted at basic-block edges of the crate, memory by the allocator. Nesting beyond about 60 levels is the listed known finding and is not searched."),
 "C13": ("texts after seeded storage faults; every diagnostic judged against the text's lines and user-perceived characters",
         "Sampled. Trusts unicode-segmentation for user-perceived characters (the code under test uses the same crate). A rejection's quoted token has to be where it is said to be."),
 "C14": ("the real binary twice under the shim, the program as a script and typed line by line in seeded pieces",
         "Sampled. Trusts the shim and a normaliser of line numbers in printed trees."),
 "C15": ("the real page script and the real wasm module in a simulated document, with seeded orders of load, ready, edits and timers; the display is read back and compared with the native library's tree",
         "Sampled. The document and the JavaScript half of wasm-bindgen are stubs; the wasm code is the release build of /repo."),
 "C16": ("seeded histories of calls on one long-lived wasm instance, each against a fresh instance and the native library; references and memory counted",
         "Sampled. The JavaScript half of wasm-bindgen is a stub (its generator is not installed). Small leaks show only in the runs of thousands of calls."),
 "C17": ("seeded long sessions in process under a counting allocator, with repeated and rejected entries as load",
         "Sampled. The bound is measured growth over repeated rounds, and exact release on drop."),
}
NA = {
 "C30": "A fact about single texts: no scheduling, time, I/O, crash or history bears on it, so a simulator would only be a random input generator. What damage does to texts is decided under C12 and C13.",
 "C31": "A fact about single texts (two layouts, one tree); nothing nondeterministic or faulty is involved. Re-indentation by damaged files is covered as far as C12 and C13 go.",
 "C32": "A fact about single expressions; nothing nondeterministic or faulty is involved.",
 "C33": "A fact about single literals; nothing nondeterministic or faulty is involved.",
 "C34": "A limit on single calls; nothing nondeterministic or faulty is involved.",
}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none", "enable": "No hooks: the seams are the libc boundary (LD_PRELOAD), the compiler's basic-block callbacks on crate whitespace (RUSTC_WRAPPER sim/wrap.sh), interposed getrandom, futex and allocator symbols, and the imports of the wasm module and the page script.", "source_commits": []},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"./check.sh {k} thorough", "technique": T + t, "level": "exploration", "level_note": n} for k, (t, n) in C.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "replay: ./replay.sh FILE. A check rebuilds from /repo, prints VIOLATION with the minimised replay file, exits 2 with HARNESS ERROR when it can give no answer.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
