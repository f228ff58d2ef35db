#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
LIB = {"C24", "C25"}
NA = {
    "C90": "parsing and serialising a record are pure functions over bytes: no concurrency, time, I/O or fault for a simulator to decide (their effect on every command is exercised by C07, C10, C15 and C24)",
    "C91": "a pure function over strings and values; nothing a schedule or fault could change (the matchers' results inside the commands are checked by C07, C11 and C20)",
    "C92": "a pure function over strings; nothing a schedule or fault could change (the results of paths, queries and formats inside the commands are checked by C08, C21 and C22)",
    "C93": "serde round trips are pure functions over values; no I/O, time, concurrency or fault takes part",
    "C94": "a pure numeric function of two strings; no I/O, time, concurrency or fault takes part",
}
NOTE = {
    "sim": "Seeded search: the real pica binary runs as one simulated process per case (preloaded libc seam: file and stream I/O, short/torn/failed/interrupted calls, full disk, pipe and process death, clock, randomness, terminal) and is judged call by call and afterwards against an independent model of the documented behaviour. Covers the drawn cases only; trusts the model, the seam and the kernel's tmpfs for file contents.",
    "lib": "Seeded search: the real library reader/writers run in process on scripted transports and sinks (short, interrupted, failing, refusing calls) and on scratch files, judged against a line model. Covers the drawn cases only; trusts the model and flate2's decoder.",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the seam is libc (LD_PRELOAD, sim/simio.c) and the library's own Read/Write parameters. Replay a violation with `bash replay.sh FILE`. Defects of the original code repaired with fix: commits are listed in known-findings.txt.",
}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection (seeded search over inputs, delivery, clock, faults and crash points; reference-model oracle; minimised replay)",
        "level": "exploration",
        "level_note": NOTE["lib" if i in LIB else "sim"],
    })
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
