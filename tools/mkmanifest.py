#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the properties and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "deterministic simulation of fill histories through a simulated data source, against an independent row-by-row reference model",
 "C02": "deterministic simulation of workers, lossy/duplicating/reordering transport and merge driver, against a single-pass fill",
 "C03": "deterministic simulation with faults injected into column reads, conversions and calculations of fills; snapshots and retry",
 "C04": "deterministic simulation of a checkpointing job on a simulated disk with torn and lost writes and crashes, against the uninterrupted job",
 "C05": "deterministic simulation of operation histories (with failing operations) over a population of live objects; every other object's snapshot must stay",
 "C06": "deterministic simulation of structural edit and fill histories of books, including rejected edits and failed fills, against histograms filled alone",
 "C07": "deterministic simulation of hash iteration order behind a seam; seeded orders must give bit-identical results",
 "C08": "deterministic lockstep thread scheduler with line-level seeded preemption and thread kills, against solo runs",
 "C09": "deterministic simulation of a Spark cluster (partitions, job scheduling, job failures) behind the pyspark seam, against array fills",
 "C10": "deterministic simulation of edit histories with rejected edits, against a path-map reference model",
 "C11": "deterministic simulation of fill/merge histories with reductions at seeded moments, against directly filled reduced histograms",
 "C16": "deterministic lockstep thread scheduler with line-level seeded preemption and thread kills over readers of the same objects, against solo runs",
}
LEVEL = {"C03": "fault_enumeration", "C04": "fault_enumeration"}
NOTE = {
 "C01": "Seeded search, not proof. Trusts the reference model (Python eval on one row at a time, exact rationals). Data are dyadic numbers plus NaN, infinities and huge values; expressions come from a pool of about 250 plus random compositions that are exact on these data.",
 "C02": "Seeded search. Trusts the single-pass fill (decided by C01) and exactness of dyadic sums.",
 "C03": "Seeded sampling of fault points while reading and computing; faults inside the final accumulation are outside the property.",
 "C04": "Seeded sampling of crash points and formats. JSON text only for string categories. Disk is simulated; real pickle and json run.",
 "C05": "Seeded search over operation histories up to about 12 operations on up to 10 live objects.",
 "C06": "Seeded search. Trusts that filling one histogram alone is right (decided by C01).",
 "C07": "Seeded search over iteration orders of the sets the library builds, plus order of supplied columns.",
 "C08": "Seeded search over interleavings at source-line granularity of histbook code; native numpy calls are atomic, as under the interpreter lock.",
 "C09": "Seeded search. pyspark is a stub with the documented semantics of the operations histbook calls; no real Spark runs here.",
 "C10": "Seeded search. Trusts the path-map model and fnmatch.",
 "C11": "Seeded search. Trusts direct fills (decided by C01).",
 "C16": "Seeded search over interleavings at source-line granularity of histbook code; native numpy calls are atomic, as under the interpreter lock.",
}
NA = {
 "C12": "pure function of its input (an expression text and one data row): no schedule, time, I/O, fault or second party for a simulator to control; the fill checks still meet wrong simplifications of the expressions they use",
 "C13": "pure rendering of one histogram to a Vega-Lite dictionary: nothing nondeterministic or fallible to simulate",
 "C14": "pure conversion, and pandas and ROOT are not installed here",
 "C15": "closed statistical formulas: pure functions of bin contents",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "sim", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo. Known findings and fixes: KNOWN_FINDINGS.txt. Replay a reported file with ./replay FILE."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
