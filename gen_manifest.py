#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
SEQ = "stateless model checking of the real code: exhaustive enumeration of bounded operation histories, compared step by step with a reference model"
CON = "stateless model checking of the real code under a controlled scheduler: exhaustive enumeration of thread interleavings up to a preemption bound"
FS = "stateless model checking of the real code: exhaustive enumeration of bounded directory trees and configurations, compared with a reference model"
FLT = "stateless model checking of the real code with fault injection: exhaustive enumeration of failing system calls and of histories of storage faults"
CMD = "stateless model checking of the real binary: exhaustive enumeration of command lines, trees and output states"
BOUND = "Every execution within the bounds listed per suite in the evidence is run on the real code, built from the working tree; nothing is sampled. "
T = {
 "C01": (SEQ, BOUND + "Trusts the reference model (a map and an operation list)."),
 "C02": (SEQ, BOUND + "Lookups of every id after every step in every open context."),
 "C03": (SEQ, BOUND + "Nested and sibling sub-transactions, and transactions prepared, used and run in any order, with contexts that stay alive."),
 "C04": (CON, BOUND + "Switches at atomic operations and blocking calls, sequentially consistent memory, 2 to 4 threads, 1 to 4 preemptions; outcomes compared with those of all serial orders. std's lock internals are trusted up to their futex calls."),
 "C05": (SEQ, BOUND + "A panic is injected at every user-code point of every program."),
 "C06": (SEQ, BOUND + "Everything triggers can observe is compared."),
 "C07": (SEQ, BOUND + "Everything triggers can observe is compared."),
 "C08": (SEQ, BOUND + "All eight trigger arities."),
 "C09": (SEQ, BOUND + "Triggers firing operations up to a bounded depth."),
 "C10": (SEQ + "; and of thread interleavings under a controlled scheduler", BOUND + "Twelve resource types; 2 or 3 threads."),
 "C11": (SEQ + "; and of thread interleavings under a controlled scheduler", BOUND + "2 or 3 threads. Groups of 2 to 6 different values; the same value twice in one group is excluded."),
 "C12": (SEQ, BOUND + "Four types of ids."),
 "C13": (SEQ, BOUND + "Four types of ids; graphs of up to 3 ids exhaustively, larger ones in families."),
 "C14": (CON, BOUND + "Switches at atomic operations, blocking calls and repository calls, sequentially consistent memory, 2 to 4 threads, 1 preemption up to all."),
 "C15": (SEQ, BOUND + "Scripted repositories."),
 "C16": (FS, BOUND + "On tmpfs; no ignore files in the trees."),
 "C17": (FS, BOUND + "On tmpfs; ids that leave the base directory are excluded."),
 "C18": (CMD, BOUND + "Exit status, both outputs and all files before and after."),
 "C19": (FLT, BOUND + "Up to 2 or 3 failing calls out of open, read, stat, opendir, readdir; fault histories of 4 or 5 steps."),
 "C20": (SEQ, BOUND + "Small bounds exhaustively; families of up to 2049 intervals over 4 types of bounds."),
 "C21": (SEQ, BOUND + "Small bounds exhaustively; families of up to 1025 intervals over 4 types of bounds."),
 "C22": (SEQ, BOUND + "Dates of up to 5 components exhaustively; families of up to 65 components of 12 types."),
 "C23": (SEQ, BOUND + "Two known findings: overwritten intervals stay in the index; targets edited after they were stored."),
}
NA = {
 "C24": "the code has no write path: documents are never stored or removed by any command, so there are no writes, crash points or later states to explore",
}
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {"guard": "cfg plotline_mc (dates), cfg plotline_mc_plugin (interval plugin)", "enable": "RUSTFLAGS --cfg plotline_mc, set in /verif/interval/.cargo/config.toml, and --cfg plotline_mc_plugin, set in /verif/index/.cargo/config.toml; all other checks use the code without hooks", "source_commits": ["HOOK"]},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "evidence_file": f"evidence/{k}.json", "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in T.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "See DESIGN.md. ./replay.sh FILE runs one recorded execution again.",
}
m["hooks"]["source_commits"] = ["c970138", "e308c4b"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
