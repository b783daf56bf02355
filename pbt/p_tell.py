"""C39: the user is told about data that the analysis cannot use well."""
import contextlib
import io
import re

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from pbt import data
from pbt.core import check, require
from pbt.data import SEEDS, rarely
from feedx import data_preparation as dp
from feedx import experiment_design as ed
from feedx import statistics as fs


def told(ctx, f, *args, **kwargs):
  """What is printed, and what is returned."""
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    result = ctx.sut(f, *args, **kwargs)
  return out.getvalue(), result


def warned(text):
  return "warning" in text.lower()


# ---- constant samples


@st.composite
def constant_case(draw):
  n = draw(rarely(st.integers(3, 40), st.integers(40, 2000)))
  return {
      "n": n,
      "rows": draw(st.lists(st.fixed_dictionaries({
          "kind": st.sampled_from(["varies", "varies", "varies", "constant", "first differs", "last differs", "one differs", "ends differ", "half"]),
          "level": st.sampled_from([0.0, 1.0, -3.5, 1e6, 0.1, 123.456, 1e-3]),
          "step": st.sampled_from([1.0, -1.0, 0.5, 40.0]),
      }), min_size=1, max_size=3)),
      "q": draw(data.quantile(n, min_kept=2)),
      "int": draw(st.booleans()),
      "s": draw(SEEDS),
  }


@check("C39", "constant", constant_case, quick=6000, rule="a row is constant before or after trimming, or nearly so")
def c39_constant(case, ctx):
  n = case["n"]
  rng = np.random.default_rng(case["s"])
  rows = []
  for r in case["rows"]:
    v = np.full(n, r["level"])
    step = r["step"] * max(abs(r["level"]), 1.0)
    if r["kind"] == "varies":
      v = v + step * rng.permutation(n)
    elif r["kind"] == "first differs":
      v[0] += step
    elif r["kind"] == "last differs":
      v[-1] += step
    elif r["kind"] == "one differs":
      v[rng.integers(0, n)] += step
    elif r["kind"] == "ends differ":
      k = int(rng.integers(1, max(2, n // 3)))
      order = rng.permutation(n)
      v[order[:k]] += step
      v[order[-k:]] -= step
    elif r["kind"] == "half":
      v[rng.permutation(n)[: n // 2]] += step
    rows.append(np.round(v) if case["int"] else v)
  x = np.array(rows)
  if case["int"]:
    x = x.astype(int)
  given = x[0] if len(rows) == 1 else x
  text, t = told(ctx, fs.TrimmedArray, given, case["q"])
  before = any(len(set(r.tolist())) == 1 for r in x)
  after = any(len(set(r.tolist())) == 1 for r in np.atleast_2d(t.values_trimmed))
  what = f"rows {[r['kind'] for r in case['rows']]}, quantile {case['q']}"
  if before or after:
    require(warned(text), f"{what}: there is no warning that the {'sample' if before else 'trimmed sample'} is constant")
  else:
    require(not warned(text), f"{what}: there is a warning, but nothing is constant: {text}")
  if after and not before:
    require("trimm" in text.lower(), f"{what}: the warning does not say that trimming made it constant: {text}")
  # the tests warn as well
  if len(rows) == 1 and len(t) > 3:
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
      ctx.sut(fs.yuens_t_test_ind, x[0], np.arange(n) + 1.0, trimming_quantile=case["q"], alternative="two-sided")
    require(warned(out.getvalue()) == (before or after), f"{what}: the test prints {out.getvalue()!r}")
  ctx.label("constant" if before else "constant after trimming" if after else "varies")
  ctx.nontrivial = before or after or any(r["kind"] != "varies" for r in case["rows"])


# ---- flags


@st.composite
def flags_case(draw):
  return {
      "n": draw(rarely(st.integers(1, 15), st.integers(100, 2000))),
      "kinds": draw(st.lists(st.sampled_from(["zero", "positive", "negative", "mixed", "one positive", "one zero", "zero or less", "missing"]), min_size=1, max_size=4)),
      "use": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
      "int": draw(st.booleans()),
      "s": draw(SEEDS),
  }


@check("C39", "flags", flags_case, quick=5000, rule="a flag is constant")
def c39_flags(case, ctx):
  n = case["n"]
  rng = np.random.default_rng(case["s"])
  cols = {}
  for j, kind in enumerate(case["kinds"]):
    v = {"zero": np.zeros(n), "positive": rng.integers(1, 9, n), "negative": -rng.integers(1, 9, n), "mixed": rng.integers(-3, 4, n),
         "one positive": np.zeros(n), "one zero": np.ones(n), "zero or less": -rng.integers(0, 3, n), "missing": np.zeros(n)}[kind].astype(float)
    k = int(rng.integers(0, n))
    if kind == "one positive":
      v[k] = 0.25 if not case["int"] else 1
    elif kind == "one zero":
      v[k] = 0
    elif kind == "missing":
      v[k] = np.nan
    cols[f"m{j}"] = v.astype(int) if case["int"] and kind != "missing" else v
  names = {f"m{j}": f"flag_of_{j}" for j in range(len(cols)) if case["use"][j]}
  text, got = told(ctx, dp.add_at_least_one_metrics, pd.DataFrame(cols), dict(names))
  some = False
  for metric, flag in names.items():
    constant = len({int(x > 0) for x in cols[metric].tolist()}) == 1
    lines = [line for line in text.splitlines() if warned(line) and re.search(rf"\b{flag}\b", line)]
    require(bool(lines) == constant, f"{flag} of {cols[metric].tolist()[:10]} is {'' if constant else 'not '}constant, but this is printed: {text!r}")
    some = some or constant
  require(warned(text) == some, f"a warning, but no flag is constant: {text!r}")
  ctx.label("constant" if some else "not constant")
  ctx.nontrivial = some


# ---- items without performance


@st.composite
def lost_case(draw):
  n = draw(rarely(st.integers(51, 80), st.integers(900, 1600), 60))
  return {
      "n": n,
      "lost": draw(st.one_of(st.just(0), st.integers(0, n - 2), st.just(1))),
      "others": draw(st.integers(0, 5)),
      "ids": draw(st.sampled_from(["int", "str", "padded", "long", "mixed"])),
      "names": draw(st.sampled_from([["item_id", "date", "treatment_assignment"], ["sku", "day", "arm"]])),
      "daily": draw(st.booleans()),
      "sparse": draw(st.booleans()),
      "twice": draw(st.booleans()),
      "s": draw(SEEDS),
  }


@check("C39", "lost_items", lost_case, quick=600, rule="items are lost")
def c39_lost(case, ctx):
  n, lost = case["n"], case["lost"]
  rng = np.random.default_rng(case["s"])
  kind = "int" if case["ids"] == "mixed" else case["ids"]
  ids = [data.ident(kind, i) for i in range(n + case["others"])]
  order = rng.permutation(n)
  seen = [ids[i] for i in sorted(order[lost:])] + ids[n:]
  days = pd.date_range("2024-01-01", periods=14 if case["daily"] else 2, freq="D" if case["daily"] else "7D")
  item, date, arm = case["names"]
  rows = [(i, d.strftime("%Y-%m-%d"), float(rng.poisson(3))) for i in seen for d in days if not case["sparse"] or d == days[0] or rng.uniform() < 0.8]
  # every date is there
  rows += [(seen[0], d.strftime("%Y-%m-%d"), 1.0) for d in days]
  performance = pd.DataFrame(rows, columns=[item, date, "clicks"]).drop_duplicates([item, date])
  performance = performance.iloc[rng.permutation(len(performance))].reset_index(drop=True)
  salt = "salt"
  flips = [int(ed.Coinflip(salt)(str(i))) for i in ids[:n]]
  assigned = pd.DataFrame({item: [str(i) for i in ids[:n]] if case["ids"] == "mixed" else ids[:n], arm: flips})
  if case["twice"]:
    assigned["note"] = "x"
  design = ed.ExperimentDesign(
      n_items_before_trimming=n, primary_metric="clicks", is_crossover=False, runtime_weeks=2, pretest_weeks=0,
      pre_trim_top_percentile=0.0, pre_trim_bottom_percentile=0.0, post_trim_percentile=0.0, alpha=0.05, coinflip_salt=salt)
  # chance may have made the groups unequal
  text, got = told(
      ctx, dp.prepare_and_validate_experiment_data, daily_performance_data=performance, treatment_assignment_data=assigned, design=design,
      experiment_start_date="2024-01-01", item_id_column=item, date_column=date, treatment_assignment_column=arm, clicks_column="clicks",
      skip_validation_checks=["no_sample_ratio_mismatch"])
  lines = [line for line in text.splitlines() if warned(line) and "no_sample_ratio_mismatch" not in line]
  if lost:
    right = [line for line in lines if {f"{lost:,}", f"{n:,}"} <= set(re.findall(r"\d[\d,]*", line))]
    require(right, f"{lost} of {n} assigned items have no performance, but the warnings are {lines}")
  else:
    require(not lines, f"every assigned item has performance, but there is a warning: {lines}")
  require(got["item_id"].nunique() == n, "items")
  ctx.nontrivial = lost > 0
