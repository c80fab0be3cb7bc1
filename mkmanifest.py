#!/usr/bin/env python3
"""Writes MANIFEST.json (the list of checks is kept here)."""
import json
SIM = "deterministic simulation: seeded scheduler, fault injection"
NOTE = {
"C01": "Seeded search over grammars, inputs, cache histories and interleavings; every result (tree, errors, ambiguity reports, listener events) compared with the same job run alone on fresh caches. Samples, does not exhaust. Assumes sequentially consistent memory; switches only at lock operations, callbacks, input calls and allocations.",
"C02": "As C01 for lexers: tokens, lexical errors and actions compared with the same lexer alone on fresh caches.",
"C03": "Deadlock is detected exactly (no runnable task), endless work by bounds on steps and on calls to the input per squared length, with stalls injected in callbacks and while locks are held.",
"C04": "A panic injected at a chosen callback and occurrence in one or more tasks; survivors and later recognitions compared with a run alone. Memory exhaustion is not modelled.",
"C05": "Every token, error, line and column compared with an independent reference lexer (backtracking over the grammar) in every run.",
"C06": "Every action run (rule, index, position, text) and the mode stack compared with the reference lexer; all token factories.",
"C07": "Result and tree compared with an independent reference recogniser and its lowest-alternative derivation.",
"C08": "Corrupted token sequences; tree cover, termination, error iff non-sentence, decided against the reference recogniser.",
"C09": "Operation histories compared step by step with a list and a cursor; source requests counted.",
"C10": "Operation histories with nested marks compared step by step with a list and a cursor.",
"C11": "Parses over buffered, unbuffered and windowed streams compared; every stream call checked for the mark/seek contract; position around every prediction checked.",
"C12": "The same input parsed in the three modes sharing caches under the scheduler; results compared with each other and with a run alone.",
"C13": "Listener events compared with the finished tree, with the walker's and the visitor's events.",
"C14": "Error callbacks of all listeners, some added or cleared in the middle, compared with each other, with token positions and (lexer) with the reference lexer.",
"C15": "Operation histories on character streams compared with a list and a cursor; one text lexed through all representations and compared with the reference lexer.",
"C16": "Structural invariants of every tree returned, with and without errors, caches shared.",
"C21": "Every error message, position and tree compared with a reference that executes the default strategy over the grammar's structure, given only the predictions the real parser made.",
"C22": "Every ambiguity, context-sensitivity and full-context report of a parse matched with the alternatives the reference recogniser finds viable for that decision.",
}
TECH = {
"C01": SIM + "; differential against the job run alone",
"C02": SIM + "; differential against the job run alone",
"C03": SIM + " (stalls); deadlock and bounded-progress detection",
"C04": SIM + " (panics at callbacks); differential against the job run alone",
"C05": SIM + " (input corruption); reference lexer",
"C06": SIM + "; reference lexer with actions and modes",
"C07": SIM + "; reference recogniser and derivation",
"C08": SIM + " (token loss, duplication, reordering, truncation); reference recogniser, cover check",
"C09": "deterministic simulation: seeded operation histories against a list-with-cursor model",
"C10": "deterministic simulation: seeded operation histories against a list-with-cursor model",
"C11": SIM + " (streams that forget all that is not marked); contract monitor and differential over stream kinds",
"C12": SIM + "; differential over prediction modes",
"C13": SIM + " (listener removal mid-parse); events checked against the finished tree",
"C14": SIM + " (input corruption); history check over error callbacks",
"C15": "deterministic simulation: seeded operation histories against a code-point list, differential over representations",
"C16": SIM + " (input corruption); tree invariants",
"C21": SIM + " (token loss, duplication, reordering, truncation); refinement against a reference error strategy",
"C22": SIM + " (caches warmed in other modes); reference recogniser judges every report",
}
NA = {
"C17": "Interval sets are pure single-threaded data: no scheduling, time, I/O or fault can reach them, so simulation has nothing to decide (set errors that matter show up in C05, C07 and C08).",
"C18": "Deserialisation is a pure function of a constant, run once; there is no schedule, clock or fault in it (every scenario does read its networks through it).",
"C19": "Merging contexts is a pure function of its arguments and a private memo; its effect on parses under sharing is decided by C01, C07 and C12.",
"C20": "Name and text formatting are pure functions with no nondeterminism.",
}
LEVEL = {"C04": "fault_enumeration"}
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p}",
    "thorough_cmd": f"./check.sh {p} thorough",
    "technique": TECH[p],
    "level": LEVEL.get(p, "exploration"),
    "level_note": NOTE[p],
} for p in sorted(NOTE)]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: the lock seam is a replacement parking_lot crate (sim/plshim), the others are the library's own traits. The argument 'thorough' (or VERIF_TIER=thorough) searches for 800 s; VERIF_SEEDS and VERIF_SECONDS override counts."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
