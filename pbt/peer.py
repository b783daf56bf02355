"""Another process with feedx: design ids and coinflips on request."""
import json
import os
import sys

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)

from pbt import core  # noqa: E402,F401
from feedx import experiment_design as ed  # noqa: E402

for line in sys.stdin:
  request = json.loads(line)
  if request["op"] == "design_id":
    answer = ed.ExperimentDesign(**request["spec"]).design_id
  else:
    answer = [int(ed.Coinflip(request["salt"])(i)) for i in request["items"]]
  out.write(json.dumps(answer) + "\n")
  out.flush()
