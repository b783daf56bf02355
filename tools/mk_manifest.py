"""Writes MANIFEST.json from the checks that are registered in pbt/."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
done = set()
for name in os.listdir(os.path.join(HERE, "pbt")):
  if name.startswith("p_"):
    text = open(os.path.join(HERE, "pbt", name)).read()
    done |= set(re.findall(r'@check\(\s*"(C\d\d)"', text))
TECH = {
    "C01": "property-based testing against a reference model (longdouble trimming and winsorizing)",
    "C02": "property-based testing: invariants of the adjustment and a reference model",
    "C03": "property-based testing: differential against an independent Yuen-Welch / delta method",
    "C04": "property-based testing: differential against the one-sample test on paired differences",
    "C05": "metamorphic property-based testing (swap, shift, scale, alternatives, alphas)",
    "C06": "property-based testing against Fieller's set solved with error bounds, and metamorphic relations",
    "C07": "property-based testing against the closed formula, and monotonicity relations",
    "C08": "property-based testing against a validity predicate, and differential with the real trimming",
    "C09": "round-trip property-based testing with tampered files and a second process",
    "C10": "property-based testing: differential between the printed and the applied schedule",
    "C11": "property-based testing against MD5 parity, a second process and statistical bounds",
    "C12": "model-based property testing of assignments over generated histories",
    "C13": "property-based testing of trimming invariants, and a statistical test of tie breaking",
    "C14": "property-based testing against a reference mapping",
    "C15": "property-based testing against a reference grid, idempotence",
    "C16": "property-based testing against a reference calendar and conservation of totals",
    "C17": "model-based property testing of the whole preparation",
    "C18": "property-based testing with injected defects against a validity predicate",
    "C19": "property-based testing with injected defects against a validity predicate",
    "C20": "model-based property testing of the whole preparation",
    "C21": "property-based testing against a reference classification of weeks",
    "C22": "property-based testing against a naive loop over items and periods",
    "C23": "property-based testing: differential against an independent analysis",
    "C24": "property-based testing: differential against an independent analysis",
    "C25": "metamorphic property-based testing of whole analyses",
    "C26": "property-based testing: the rendered table is parsed and compared",
    "C27": "property-based testing against brute-force enumeration",
    "C28": "property-based testing: differential against an independent estimate",
    "C29": "property-based testing with recorded calls, and differential re-analysis",
    "C30": "property-based testing against reference statistics of generated results",
    "C31": "randomized experiments with exact binomial bounds on the frequencies",
    "C32": "property-based testing of invariants, and statistical bounds on averages",
    "C33": "property-based testing: the drawn artists are compared with a reference",
    "C34": "property-based testing: the drawn artists are compared with the results",
    "C35": "property-based testing: the results of the whole workflow are compared with a naive model of the raw rows",
    "C36": "model-based property testing of interleaved call histories: differential against the same calls alone in a fresh process",
    "C37": "model-based property testing of registration and call histories; exact binomial reference for the sample ratio",
    "C38": "property-based testing of call histories on shared arguments: invariant that arguments are as before",
    "C39": "property-based testing: printed warnings against a direct reading of the generated data",
}
checks, missing = [], []
for p in props:
  pid = p["id"]
  if pid in done:
    checks.append({
        "property": pid,
        "quick_cmd": f"bash run.sh {pid}",
        "thorough_cmd": f"bash run.sh {pid}",
        "technique": TECH[pid],
        "level": "exploration",
        "level_note": "generated-input search with Hypothesis in 8 processes, seeded by VERIF_SEED; failures are"
                      " shrunk to a replay file (bash run.sh " + pid + " --replay FILE); VERIF_TIER=thorough"
                      " generates about 30 times as many cases; see DESIGN.md for oracle, domain and bounds",
    })
  else:
    missing.append({"property": pid, "reason": "the check is not built yet"})
manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
  json.dump(manifest, f, indent=1)
  f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
