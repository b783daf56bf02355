"""Runs the generated checks of one property in parallel shards."""
import argparse
import hashlib
import json
import math
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")

from pbt import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = {
    "p_stats": ["C01", "C02", "C03", "C04", "C05", "C06", "C07"],
    "p_design": ["C08", "C09", "C10", "C11", "C12", "C13"],
    "p_prep": ["C14", "C15", "C16", "C17", "C18", "C19", "C20", "C37"],
    "p_analysis": ["C21", "C22", "C23", "C24", "C25", "C26"],
    "p_sim": ["C27", "C28", "C29", "C30", "C31"],
    "p_plot": ["C32", "C33", "C34"],
    "p_flow": ["C35"],
    "p_tell": ["C39"],
    "p_state": ["C36", "C38"],
}
CHUNK = 250
SHRINK_S = 40


def load(pid):
  import importlib

  for m, pids in MODULES.items():
    if pid in pids:
      importlib.import_module(f"pbt.{m}")
      import feedx

      root = os.path.realpath(core.REPO)
      if not os.path.realpath(feedx.__file__).startswith(root + "/"):
        raise core.HarnessError(f"feedx comes from {feedx.__file__}")
      return core.SUBS[pid]
  raise SystemExit(f"no property {pid}")


def run_case(sub, case, ctx):
  """Runs one case; whatever goes wrong once feedx was called is a violation."""
  import hypothesis.errors

  try:
    sub.run(case, ctx)
  except (core.Violation, core.HarnessError):
    raise
  except hypothesis.errors.HypothesisException:
    raise
  except Exception as e:  # pylint: disable=broad-except
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    if ctx.sut_called:
      raise core.Violation(f"the output cannot be judged: {text}") from e
    raise core.HarnessError(text) from e


def make_body(sub, last, record, skip):
  """skip: leave out the first case, which is the simplest one each time."""
  skip = [skip]

  def body(case):
    if skip[0]:
      skip[0] = False
      return
    ctx = core.Ctx()
    try:
      run_case(sub, case, ctx)
    except core.Violation as e:
      last["fail"] = (case, str(e))
      raise
    record(sub, case, ctx)

  return body


def seed_of(*parts):
  return int.from_bytes(
      hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big"
  )


def corpus(pid):
  path = os.path.join(HERE, "corpus", f"{pid}.json")
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return json.load(f)


def shard(pid, subs, tier, seed, k, n_shards, scale, deadline, out_path):
  """One process: generates and judges its part of the cases."""
  import hypothesis
  from hypothesis.internal.conjecture import engine

  engine.MAX_SHRINKING_SECONDS = SHRINK_S
  out = dict(
      evaluations=0, labels={}, hashes=[], samples=[], per_sub={},
      violation=None, harness=None, cut=False,
  )
  hashes = set()

  def record(sub, case, ctx):
    out["evaluations"] += 1
    per = out["per_sub"].setdefault(sub.name, [0, 0])
    per[0] += 1
    for label in set(ctx.labels):
      key = f"{sub.name}: {label}"
      out["labels"][key] = out["labels"].get(key, 0) + 1
    if ctx.nontrivial:
      per[1] += 1
      text = core.dumps(case)
      hashes.add(hashlib.md5((sub.name + text).encode()).hexdigest()[:16])
      mine = [s for s in out["samples"] if s["check"] == sub.name]
      if len(mine) < 2 and len(text) < 1500:
        out["samples"].append({"check": sub.name, "case": case})

  def finish():
    out["hashes"] = sorted(hashes)
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
      json.dump(out, f)
    os.replace(tmp, out_path)

  try:
    if k == 0:
      for entry in corpus(pid):
        sub = next((s for s in subs if s.name == entry["check"]), None)
        if sub is None:
          raise core.HarnessError(f"corpus names no check: {entry['check']}")
        ctx = core.Ctx()
        try:
          run_case(sub, entry["case"], ctx)
        except core.Violation as e:
          out["violation"] = dict(check=sub.name, case=entry["case"], message=str(e))
          finish()
          return
        record(sub, entry["case"], ctx)

    # the checks take turns, so that a deadline cuts all of them alike
    todo = []
    for sub in subs:
      total = math.ceil((sub.quick if tier == "quick" else sub.thorough) * scale)
      mine = total // n_shards + (1 if k < total % n_shards else 0)
      chunks = []
      while mine > 0:
        chunks.append(min(CHUNK, mine))
        mine -= CHUNK
      todo.append((sub, chunks))
    rounds = max(len(c) for _, c in todo) if todo else 0
    for r in range(rounds):
      for sub, chunks in todo:
        if r >= len(chunks):
          continue
        if time.time() > deadline:
          out["cut"] = True
          continue
        last = {}

        skip = k > 0 or r > 0
        body = make_body(sub, last, record, skip)
        test = hypothesis.given(sub.strategy())(body)
        test = hypothesis.settings(
            max_examples=chunks[r] + skip,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(hypothesis.HealthCheck),
            phases=(hypothesis.Phase.generate, hypothesis.Phase.shrink),
        )(test)
        test = hypothesis.seed(seed_of(seed, pid, sub.name, k, r))(test)
        try:
          test()
        except core.HarnessError:
          raise
        except BaseException as e:
          if "fail" not in last:
            raise core.HarnessError(
                "".join(traceback.format_exception(type(e), e, e.__traceback__))
            ) from e
          case, message = last["fail"]
          if not isinstance(e, core.Violation):
            message += f"\n(not repeatable: {type(e).__name__})"
          out["violation"] = dict(check=sub.name, case=case, message=message)
          finish()
          return
    finish()
  except BaseException as e:  # pylint: disable=broad-except
    out["harness"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    finish()


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("pid")
  ap.add_argument("--replay")
  ap.add_argument("--scale", type=float, default=1.0)
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
  ap.add_argument("--only", help="run only this check of the property")
  ap.add_argument("--labels", action="store_true")
  a = ap.parse_args()
  pid = a.pid
  tier = os.environ.get("VERIF_TIER", "quick")
  tier = tier if tier in ("quick", "thorough") else "quick"
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  t0 = time.time()
  scratch = os.environ.get("VERIF_SCRATCH") or "/tmp"

  real_stdout = os.dup(1)

  def say(text):
    os.write(real_stdout, (text + "\n").encode())

  # feedx prints a lot: keep it out of the verdict
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  try:
    subs = load(pid)
  except BaseException as e:  # pylint: disable=broad-except
    # the code under test does not even import, or this machinery is broken
    say("HARNESS-ERROR " + "".join(traceback.format_exception(type(e), e, e.__traceback__)))
    return 2
  if a.only:
    subs = [s for s in subs if s.name == a.only]

  if a.replay:
    with open(a.replay) as f:
      entry = json.load(f)
    sub = next(s for s in subs if s.name == entry["check"])
    ctx = core.Ctx()
    try:
      run_case(sub, entry["case"], ctx)
    except core.Violation as e:
      say(f"{e}\nVIOLATION property={pid} replay={a.replay}")
      return 1
    say("held")
    return 0

  n_shards = max(1, a.jobs)
  deadline = t0 + (420 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", 5400)))
  pids, paths = {}, []
  sys.stdout.flush()
  for k in range(n_shards):
    path = os.path.join(scratch, f"shard{k}.json")
    paths.append(path)
    child = os.fork()
    if child == 0:
      rc = 3
      try:
        os.dup2(devnull, 2)
        shard(pid, subs, tier, seed, k, n_shards, a.scale, deadline, path)
        rc = 0
      finally:
        os._exit(rc)
    pids[child] = path
  results, violated, died = {}, None, False
  while pids:
    child, status = os.wait()
    if child not in pids:
      continue
    path = pids.pop(child)
    if not os.path.exists(path):
      if violated is None:
        died = True
      continue
    with open(path) as f:
      results[path] = json.load(f)
    if results[path]["violation"] and violated is None:
      violated = results[path]["violation"]
      for other in pids:
        os.kill(other, signal.SIGKILL)

  labels, per_sub, hashes, samples = {}, {}, set(), []
  evaluations, harness, cut = 0, None, False
  for path in paths:
    r = results.get(path)
    if r is None:
      continue
    evaluations += r["evaluations"]
    cut = cut or r["cut"]
    harness = harness or r["harness"]
    hashes.update(r["hashes"])
    for name, (n, m) in r["per_sub"].items():
      x = per_sub.setdefault(name, [0, 0])
      x[0] += n
      x[1] += m
    for label, n in r["labels"].items():
      labels[label] = labels.get(label, 0) + n
    for s in r["samples"]:
      if sum(x["check"] == s["check"] for x in samples) < 2:
        samples.append(s)

  evidence = {
      "property": pid,
      "tier": tier,
      "seed": seed,
      "level": "exploration",
      "coverage": {
          "evaluations": evaluations,
          "distinct_nontrivial": len(hashes),
          "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
          "samples": samples,
          "cases_per_check": {k: {"cases": v[0], "nontrivial": v[1]} for k, v in per_sub.items()},
          "classes": labels,
          "cut_by_time": cut,
      },
      "assumptions": [
          "the oracles in pbt/ state the property correctly",
          "numpy, scipy.stats.t/binom/kstest and pandas primitives used by the oracles are right",
      ],
      "wall_s": round(time.time() - t0, 2),
      "violations": 1 if violated else 0,
  }
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
    json.dump(evidence, f, indent=1)

  if a.labels:
    for label in sorted(labels):
      say(f"  {label}: {labels[label]}")
  if violated:
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    name = f"{pid}-{seed_of(core.dumps(violated)) % 10**8:08d}.json"
    path = os.path.join(HERE, "replay", name)
    with open(path, "w") as f:
      json.dump(dict(property=pid, **violated), f, indent=1)
    say(f"check {violated['check']}: {violated['message']}")
    say(f"case: {core.dumps(violated['case'])[:3000]}")
    say(f"VIOLATION property={pid} replay={path}")
    return 1
  if harness or died:
    say(f"HARNESS-ERROR {harness or 'a shard died'}")
    return 2
  if not hashes:
    say("HARNESS-ERROR no non-trivial case was generated")
    return 2
  say(
      f"held: {pid} {evaluations} cases, {len(hashes)} distinct non-trivial,"
      f" {time.time() - t0:.1f} s" + (" (cut by time)" if cut else "")
  )
  return 0


if __name__ == "__main__":
  sys.exit(main())
