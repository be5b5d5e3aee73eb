"""Writes MANIFEST.json from the property modules that exist (run from /verif)."""
import json, os
NA = {
 "C23": "the published score formulas are pure functions of their arguments: no schedule, history, fault, clock, I/O or random draw for a simulation to vary",
 "C24": "building adjacency from polygons is a pure function of a geometry table (shapely geometry code): nothing to schedule or inject; the file reading around it is covered by C16",
 "C25": "Gingles scores and the grid constructor are pure functions of their parameters; the way they are used along a run is covered by C13 and C02",
}
DEPTH = "seeded search over random worlds, schedules and faults; fixed number of runs per tier, every run checked against an independent reference"
NOTE = {
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("sim/props/%s.py" % i.lower()):
        checks.append(dict(
            property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection (seeded schedule, draw and fault search against a reference model)",
            level="exploration",
            level_note=NOTE.get(i, "Real library code, one process per run; " + DEPTH +
                                ". Trusted: the reference in sim/, the CPython random module's derived functions, networkx/numpy. Not exhaustive.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import networkx, numpy, pandas' && chmod +x check replay",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams (random module functions, clock, os.urandom, open) are rebound from sim/seam.py before the "
               "library is imported, and the library is compiled from /repo's current source at the start of every check. "
               "Replay a violation with ./replay FILE. Known findings: known-findings.json.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
