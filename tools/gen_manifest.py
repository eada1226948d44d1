#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
TECH = {
    "C01": "online reference-model monitor (ordered map) over random hostile histories",
    "C02": "online reference-model monitor of double-ended iteration over random histories",
    "C03": "online reference-model monitor of range queries over random histories and bounds",
    "C04": "write-effect monitor: whole-tree comparison with a model after each write, address disjointness",
    "C05": "online reference-model monitor of owning iteration, CPU-time hang watchdog",
    "C06": "reference-model monitor (key-wise union) over pairs of random histories",
    "C07": "reference-model monitor of bulk loading; debug-assertion build as monitor of bad input",
    "C08": "snapshot-isolation monitor: all other handles compared before and after each call",
    "C09": "conservation monitor: birth/death ledger of instrumented elements plus counting allocator",
    "C10": "AddressSanitizer, Miri, debug-assertion build and identity ledger under random workloads",
    "C11": "ThreadSanitizer and per-thread model monitors under concurrent stress with drawn delays",
    "C12": "run-time probe of Send/Sync promises, kept for real on threads under ThreadSanitizer",
    "C13": "fault injection at every user-code callback, watched by a ledger and AddressSanitizer",
    "C14": "reference-model monitor of comparison, hashing and formatting",
    "C15": "comparison-counting monitor against logarithmic bounds per call",
    "C16": "clone-counting monitor per call with tracked sharing groups",
    "C17": "block-counting allocator monitor after every step",
    "C18": "differential run-time monitor: one history on many configurations, digests compared per step",
    "C19": "AddressSanitizer, ledger and alias monitor under hostile key orderings",
    "C22": "work monitor: compiler-inserted basic-block probe and byte-counting allocator against height bounds per call",
    "C23": "stack monitor: painted stack inspected after each call",
}
NOTE = {
    "exploration": "Held on the executions counted in the evidence; nothing is said about executions not driven. Trusts the harness's model and generators, rustc and the sanitizers.",
    "fault_enumeration": "Every callback position (up to 48 per operation, evenly drawn beyond that) of each drawn operation is made to panic; histories and operations are sampled. Trusts the harness, rustc and the sanitizers.",
}
head = lambda p: subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(
    version=1,
    setup_cmd="python3 -m py_compile check tools/checks.py && cd harness && RUSTFLAGS='--cfg palmtree_verif' CARGO_TARGET_DIR=/verif/target/rel cargo +stable build --release --offline --locked --lib",
    hooks=dict(guard="cfg(palmtree_verif)", enable="RUSTFLAGS='--cfg palmtree_verif'", source_commits=head(0)),
    checks=[dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="VERIF_TIER=thorough ./check %s" % p, evidence_file="evidence/%s.json" % p,
                 technique=TECH[p], level=c["level"], level_note=NOTE[c["level"]] + c.get("note", "")) for p, c in CHECKS.items()],
    not_applicable=[
        dict(property="C20", reason="Decided when a program is compiled: a program with such a configuration never runs, so there is no execution a monitor could observe."),
        dict(property="C21", reason="Decided when a program is compiled: a program that breaks the borrow rules never runs, so there is no execution a monitor could observe."),
    ],
    notes="All checks are ./check ID; ./check --replay FILE re-runs a recorded case. Builds go to /verif/target (git-ignored).",
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
