#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
S, I, H, F, CFG = "schedules", "inputs", "histories", "fault_sequences", "configurations"
core, ev, net, util = "source/cyCore/core/", "source/cyEvent/event/", "source/cyNetwork/network/", "source/cyUtility/utility/"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), _note=note))


def na(id, title, statement, files, reason):
    prop(id, title, statement, [I], "all inputs", "The unit tests sample a few inputs.", files, [("implementation", files[0])])
    NA.append(dict(property=id, reason=reason))


NOTE = ("Seeded search over schedules, inputs and injected faults, running the repository's compiled sources unmodified under a simulated "
        "kernel (sim/); not exhaustive. Assumes sequentially consistent memory (plus happens-before checks on publication), a kernel model that follows "
        "Linux semantics for the calls used, and the CMake configuration of this platform. ")

exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
nai = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="python3 simbuild.py all", checks=[], not_applicable=NA,
         notes="No guarded hooks are needed in /repo: every seam (threads, locks, clocks, sockets, epoll, timerfd, files, heap, memory accesses) is taken at link time or by compiler instrumentation. Known findings and repairs: KNOWN_FINDINGS.txt.")
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] in nai:
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique="deterministic simulation with fault injection (seeded schedule and fault search, replayable)",
                            level="exploration", level_note=NOTE + (p["_note"] or "")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(NA), "not applicable")
