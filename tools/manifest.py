#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STREAM = "deterministic simulation: seeded scheduler over parser sessions, token sources with injected loss, duplication, reordering, corruption, truncation and failures; history checked against a reference parser"
LEX = "deterministic simulation: documents and streams damaged by a seeded fault injector, seeded delivery schedules; every returned token checked against a reference scanner"
FS = "deterministic simulation: the generator on a simulated disk with seeded faults, crashes and thread schedules; outcome and disk history checked against a reference run"
DIAG = "deterministic simulation: the generator as a simulated process with seeded hash seeds, addresses and delivery of reads and writes, on grammar files with seeded damage; reports and table files checked against independent LR, LL and lexer constructions"
DEBUG = "deterministic simulation: the debug command as a simulated process (disk, temporary directory, child processes, signals) with seeded faults, crashes, left-overs and concurrent runs; output, exit status and disk history checked against a reference lexer and parser"
NOTE_B = "Seeded sampling of grammars, texts, faults, crash points and concurrent runs, not exhaustive. Trusted: the reference scanner, LR and Earley machines in simcore, the simulated file system's model of POSIX calls, rustc; cargo is a stand-in (simcargo.c) that creates and runs the project with a precompiled program of the same source."
NOTE_D = "Seeded sampling of grammars, damage, process seeds and deliveries, not exhaustive. Trusted: the reference front end, the LR(1)-based automata, the LL(1) table and the token automaton in simcore, and the simulated file system's model of POSIX calls."
NOTE_S = "Seeded sampling of grammars, streams, faults and schedules, not exhaustive. Trusted: the reference front end, LR(1)/Earley/LL machines and the glue in simcore, rustc and g++. Generated parsers are the real ones, compiled from what the real command generated."
NOTE_L = "Seeded sampling of token sets, texts, faults and delivery schedules, not exhaustive. Trusted: the reference regular-expression scanner in simcore, rustc and g++."
NOTE_F = "Seeded sampling of grammars, fault sequences, crash points and schedules, not exhaustive. Trusted: the simulated file system's model of POSIX calls."
checks = {
    "C08": (STREAM, NOTE_S), "C09": (STREAM, NOTE_S), "C10": (STREAM, NOTE_S), "C11": (STREAM, NOTE_S),
    "C12": (STREAM, NOTE_S), "C13": (STREAM, NOTE_S), "C14": (STREAM, NOTE_S), "C15": (STREAM, NOTE_S),
    "C16": (LEX, NOTE_L), "C17": (LEX, NOTE_L), "C18": (LEX, NOTE_L), "C20": (LEX, NOTE_L),
    "C19": (LEX, NOTE_L),
    "C01": (FS, NOTE_F), "C02": (FS, NOTE_F), "C03": (FS, NOTE_F), "C04": (FS, NOTE_F), "C05": (FS, NOTE_F),
    "C30": (DIAG, NOTE_D), "C31": (DIAG, NOTE_D), "C32": (DIAG, NOTE_D), "C33": (DIAG, NOTE_D),
    "C34": (DEBUG, NOTE_B), "C35": (DEBUG, NOTE_B),
    "C06": (FS, NOTE_F), "C07": (FS, NOTE_F),
}
na = {}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
done = open(here + "/tools/done.txt").read().split()
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams used are the generated parsers' token function and visitor, the lexers' text and stream arguments, the writers passed to the code writer, and the C library's file functions (interposed)."}
for p in props:
    i = p["id"]
    if i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
    elif i in done:
        t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh check " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
