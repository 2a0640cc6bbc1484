#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed if the harness has a test for it."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
tests = set()
for f in glob.glob(os.path.join(ROOT, "harness", "*_test.go")):
    tests |= set(re.findall(r"^func Test(C\d\d)\(", open(f).read(), re.M))
TECH = {
    "C01": "stateful PBT of event calls and reads vs. a list model",
    "C02": "stateful PBT: snapshots at Finish vs. later reads, with late and concurrent calls",
    "C03": "stateful PBT of limits and event counts vs. a truncation model",
    "C04": "PBT of concurrent programs, prefix/permutation oracle, race detector",
    "C05": "stateful PBT of creations and evictions: uniqueness, order and stability of identity",
    "C06": "stateful PBT: deep copies of everything read vs. later contents",
    "C07": "stateful model-based PBT of a collector with fake traces (retained set, Free counts)",
    "C08": "PBT of searches vs. a reference search, and reads of traces modified at generated points",
    "C09": "PBT of filters vs. a reference predicate; reuse, copy and JSON metamorphic relations",
    "C10": "PBT of requests vs. a reference normalization; idempotence",
    "C11": "PBT of statistics vs. a reference count",
    "C12": "PBT of partitions, orders and groupings of merges vs. observing everything",
    "C13": "PBT of searcher trees with delays and failures vs. a reference union, race detector",
    "C14": "differential PBT: remote vs. local search, with injected faults",
    "C15": "generated HTTP requests and search outcomes vs. a response model, race detector",
    "C16": "PBT of URL parameters and round trips through clients",
    "C17": "PBT of pages with hostile text: structural metamorphic relation and content oracle on the parsed HTML",
    "C18": "stateful model-based PBT of a broker; concurrent accounting, race detector",
    "C19": "PBT of trace histories vs. expected snapshots; traces modified at generated points",
    "C20": "stateful model-based PBT of subscriptions, concurrent lifecycles, race detector",
    "C21": "differential PBT: HTTP stream vs. local subscription",
    "C22": "stateful PBT of context trees vs. a reference lookup",
    "C23": "stateful PBT of nested prefixes and regions vs. a text model",
    "C24": "PBT of decorator lists and calls vs. expected wrapping and log lines",
    "C25": "differential PBT of handlers with and without the middleware, and event oracle",
    "C26": "PBT of call paths and wrappers vs. runtime call sites; reference for compact locations",
    "C27": "differential PBT: the same program against eztrc and trc",
    "C28": "PBT: JSON round trip, no-op and trimming oracles",
    "C29": "PBT of command lines of the built binary against stub servers with injected faults",
    "C30": "PBT of concurrent programs, per-search invariants and final state, race detector",
    "C31": "stateful PBT with finalizers on everything dropped; generated calls with failures and cancelations vs. goroutines, bodies and subscriptions left",
    "C32": "PBT of sequences of injected server faults, cancelation points and clients vs. a model of requests, their spacing, and what's received",
}
note = "Sampling over generated cases (counts in evidence) against an explicit oracle in harness/; assumes the reference model states the intended behaviour; failures are shrunk by rapid to a replay file."
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH[p["id"]], "level": "exploration", "level_note": note}
                for p in props if p["id"] in tests],
     "not_applicable": [{"property": p["id"], "reason": "Check still being built."} for p in props if p["id"] not in tests],
     "notes": "No hooks in /repo: the harness uses only the public API and the built command. See DESIGN.md and KNOWN_FINDINGS."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "checks")
