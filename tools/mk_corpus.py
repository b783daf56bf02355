"""Adds the case of a replay file to the corpus of its property."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:]:
  with open(path) as f:
    r = json.load(f)
  out = os.path.join(HERE, "corpus", r["property"] + ".json")
  entries = json.load(open(out)) if os.path.exists(out) else []
  entry = {"check": r["check"], "case": r["case"]}
  if entry not in entries:
    entries.append(entry)
  with open(out, "w") as f:
    json.dump(entries, f, indent=1, sort_keys=True)
    f.write("\n")
