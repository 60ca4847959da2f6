#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
# property -> (level, technique, note)
C = {}
def c(id, tech, note, level="exploration"): C[id] = (level, tech, note)
exec(open(os.path.join(here, "claims.py")).read())
m = dict(version=1,
  setup_cmd="./setup.sh",
  checks=[dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=C[p["id"]][1], level=C[p["id"]][0], level_note=C[p["id"]][2])
          for p in props if p["id"] in C],
  not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check yet")) for p in props if p["id"] not in C],
  notes="Generated by tools/mkmanifest.py. No hooks: all checks use exported APIs only.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
