"""Writes MANIFEST.json from check.py's families."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import check

TRACE = "TLA+ state machine checked with TLC; TLC-generated schedules replayed into the real code; recorded traces validated against the specification"
CASES = "TLA+ case specification enumerated by TLC and replayed into the real code; observed results checked against the specification by TLC"
NOTE = "Model checking of the specification within small constants, conformance of the real code on generated behaviours; trusts the harness's fakes of lnd, its own wire encoders, TLC."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.FAMILY:
        tech = TRACE if check.FAMILY[i] in check.TRACED else CASES
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech, "level": "model_checking",
            "level_note": NOTE})
    else:
        na.append({"property": i, "reason": check.NA.get(i, "its check is not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks: the harness is compiled into the module with go build -overlay", "source_commits": []},
           "notes": "See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
