#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
W1 = ("Seeded exploration: every quick run executes the same few hundred to a thousand simulated histories of the real clustering code, driver and SQL against simulated instances with crashes, partitions, lost calls and stale reads, all checked by independent oracles. "
      "No exhaustive claim. Trusts the mysqld, kubelet and API server models (see DESIGN.md).")
notes = {p: W1 for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11".split()}
W2 = ("Seeded exploration: every quick run executes the same few hundred simulated histories of the whole real controller (reconcilers, webhooks, watchers, clustering) against a simulated API server, caches, kubelet, garbage collector and instances, with crashes, lost, failing or slow calls, stale reads and users changing and damaging things, checked by independent oracles. "
      "No exhaustive claim. Trusts the API server, kubelet and mysqld models (see DESIGN.md).")
notes.update({p: W2 for p in "C10 C12 C13 C14 C15 C16 C17".split()})
W3 = ("Seeded exploration: every quick run executes the same hundred or so simulated histories of backups and restores with the real moco-backup command, backup and restore managers and controller, against simulated instances, mysqlsh, mysqlbinlog, mysql, tar, zstd, bucket and API server that hold real (abstract) data, with tools, uploads, calls, instances and processes failing at any step, checked by independent oracles. "
      "No exhaustive claim. Trusts the models of the tools, bucket, API server and mysqld (see DESIGN.md).")
notes.update({p: W3 for p in "C18 C19 C20".split()})
na = {}
for p in ids:
    if p not in notes:
        na[p] = "check under construction"
m = {"version": 1, "setup_cmd": "tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the simulator uses moco's own seams (client.Client, OperatorFactory, driver dialer, AgentFactory); os/exec and the bucket constructors are replaced at build time by go build -overlay (tools/overlay.py)", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                 "technique": "deterministic simulation with fault injection (seeded schedule search)", "level": "exploration", "level_note": notes[p]} for p in ids if p in notes],
     "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
     "notes": "check.py builds sim/ against /repo's working tree, runs 8 workers, minimises a violation to a replay file under replays/ (./check.py --replay FILE repeats it)."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
