"""Writes MANIFEST.json. Run from /verif with python3 tools/gen_manifest.py."""
import json

T = "deterministic simulation with fault injection: "
C = {
 "P01": ("virtual-time event loop, seeded message batching/fragmentation/delay, answers checked against a fresh server",
         "Seeded search; whole server and pygls run real code in one process. Assumes a protocol-conforming client."),
 "P02": ("virtual-time event loop, injected analysis failures, cancellation, malformed input, EOF at any byte",
         "Seeded search; a lock nobody can release is reported as a deadlock. Assumes output stays writable."),
 "P03": ("seeded call histories with exceptions, memory errors and interrupts at call boundaries; pristine-process oracle",
         "Seeded search over histories on one object against a fresh object in a fresh process."),
 "P04": ("seeded cooperative scheduler over real threads switched at pygerber lines/bytecodes; run-alone oracle",
         "Seeded search over interleavings at line/bytecode granularity of pygerber code; libraries below run without switch points."),
 "P05": ("simulated disk (errors, short/torn writes, full disk, kill at any I/O step) under the real CLI",
         "Seeded search over fault positions; a kill loses Python buffers only."),
 "P06": ("simulated disk and injected processing failures under the real CLI; byte-for-byte directory comparison",
         "Seeded search over fault positions and command histories."),
 "P07": ("simulated platform (default encoding, working directory, path spelling) under CLI and API; UTF-8 reference",
         "Seeded search over configurations and non-ASCII inputs."),
 "P08": ("simulated clocks, pid, randomness, GC, memory layout, hash seeds and prior histories; pristine-process oracle",
         "Seeded search; other hash seeds run in separately started interpreters."),
 "P09": ("seeded use histories of shared objects with failing destinations and injected exceptions; fresh-object oracle",
         "Seeded search over histories and fault positions."),
 "P10": ("simulated destinations and disk failing at any write; byte comparison with a single save in a pristine process",
         "Seeded search over destinations, positions and fault points."),
 "P11": ("simulated reads (fragmentation, open/read errors, injected exceptions); content oracle and independent project model",
         "Seeded search over fragmentations and fault positions."),
 "P12": ("seeded builder histories with failing calls and arguments raising while read; independent interpreter of emitted code",
         "Seeded search over call histories and failure points."),
 "P13": ("seeded consumer sequences with injected exceptions and interrupts; canonical-form and pristine-process oracles",
         "Seeded search over consumer orders and fault positions."),
 "P14": ("seeded rendering histories over shared members with injected failures and simulated disk; pristine-process oracle",
         "Seeded search over histories and fault positions."),
 "P15": ("seeded package-absence and broken-package faults with seeded import orders in newly started processes; "
         "complete-installation oracle",
         "Seeded search over sets of absent packages, import orders and observations."),
 "P16": ("seeded call histories with injected exceptions, interrupts, failing files and destinations; comparison of process-wide "
         "settings, descriptors, threads, children and files before and after each call",
         "Seeded search over call histories, caller's settings and fault positions."),
 "P17": ("seeded bodies of calls or server messages repeated for many cycles with new inputs and recurring injected faults; "
         "live objects, container lengths and allocated blocks compared between cycles",
         "Seeded search over repeated histories and fault positions; growth per cycle is the violation."),
}
NA = "pure function of its input: no schedule, clock, I/O, fault or history in it for a simulator to decide"
checks = [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} --thorough",
           "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration", "level_note": n}
          for p, (t, n) in C.items()]
na = []
for l in open("properties.jsonl", encoding="utf-8"):
    d = json.loads(l)
    if d["id"] not in C:
        na.append({"property": d["id"], "reason": NA})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -m pgsim setup",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam is patched from /verif at run time", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay: /opt/venv/bin/python -m pgsim replay FILE. Determinism proof: python -m pgsim determinism."}
json.dump(m, open("MANIFEST.json", "w", encoding="utf-8"), indent=1)
