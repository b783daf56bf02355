"""C21-C26: time periods, pivoting, the analysis and its table."""
import collections
import html.parser
import math
import types

from hypothesis import strategies as st
import numpy as np
import pandas as pd
from scipy import stats

from pbt import core, data, designs, p_stats
from pbt.core import allclose, check, close, require, unchanged
from pbt.data import SEEDS
from pbt.p_prep import DAYS, day, ident, period_of
from pbt.p_stats import Trim
from feedx import experiment_analysis as ea

PERIOD_NAMES = st.sampled_from(["time_period", "time_period", "period", "Phase", "test", "columns"])


def weeks_by_period(design):
  """How many weeks the design gives to each period."""
  out = collections.Counter()
  for w in range(-design.pretest_weeks, design.runtime_weeks):
    out[period_of(design, w)] += 1
  return out


# ---------------------------------------------------------------- C21


@st.composite
def period_case(draw):
  return {
      "design": draw(data.rarely(designs.valid(max_pretest=8, max_half=8), designs.valid(max_pretest=70, max_half=60), 15)),
      "start": draw(st.one_of(st.just(0), st.integers(-30, 60))),
      "weeks": draw(st.lists(data.rarely(st.integers(-12, 24), st.integers(-200, 200), 10), max_size=25)),
      "full": draw(st.booleans()),
      "reps": draw(st.integers(1, 3)),
      "s": draw(SEEDS),
      "week": draw(st.sampled_from(["week_id", "wk"])),
      "name": draw(st.one_of(st.none(), PERIOD_NAMES)),
      "index": draw(st.sampled_from(["range", "shifted", "text"])),
      "dtype": draw(st.sampled_from(["int64", "int64", "int32", "float64"])),
  }


@check("C21", "periods", period_case, quick=12000, rule="rows in at least two periods")
def c21(case, ctx):
  design = designs.make(case["design"])
  rng = np.random.default_rng(case["s"])
  weeks = list(case["weeks"])
  if case["full"]:
    weeks += list(range(-design.pretest_weeks - 2, design.runtime_weeks + 3)) * case["reps"]
  weeks = [weeks[j] for j in rng.permutation(len(weeks))]
  n = len(weeks)
  ids = np.array([w + case["start"] for w in weeks], dtype=case["dtype"])
  frame = pd.DataFrame({"item": [f"i{j}" for j in range(n)], case["week"]: ids, "x": rng.normal(size=n)})
  frame.index = {"range": np.arange(n), "shifted": rng.permutation(n) * 3 + 5,
                 "text": [f"r{j}" for j in range(n)]}[case["index"]]
  before = frame.copy(deep=True)
  name = case["name"] or "time_period"
  kw = dict(design=design, start_week_id=case["start"], week_id_column=case["week"])
  if case["name"]:
    kw["time_period_column"] = name
  got = ctx.sut(ea.add_time_period_column, frame.copy(deep=True), **kw)
  require(sorted(got.columns) == sorted(list(before.columns) + [name]), f"columns {list(got.columns)}")
  unchanged(before, got[list(before.columns)], "another column")
  seen = set()
  for w, have in zip(weeks, got[name].tolist()):
    want = period_of(design, w)
    seen.add(want)
    ok = have == want if want is not None else not isinstance(have, str) and (have is None or have != have)
    require(ok, f"week {w} after the start is {have!r}, want {want!r}")
  ctx.rejects("an existing period column", ea.add_time_period_column, got, **kw)
  ctx.rejects("a missing week column", ea.add_time_period_column, before.drop(columns=case["week"]), **kw)
  ctx.nontrivial = len(seen) > 1
  ctx.label("crossover" if design.is_crossover else "regular")
  if design.is_crossover and case["full"]:
    ctx.label(f"washout {min(design.crossover_washout_weeks, 2)}")


# ---------------------------------------------------------------- experiments

KINDS = ["gamma", "gamma", "poisson", "poisson", "sparse", "tiny", "huge", "profit", "ones", "heavy"]
COLUMNS = ["clicks", "impressions", "total_cost", "x y", "m.1", "umsatz", "Clicks", "conversions", "zz"]


@st.composite
def experiment_case(draw, crossover=None, pretest=None, missing=False, trims=None):
  n1 = draw(data.rarely(st.one_of(st.integers(4, 15), st.integers(4, 70)), st.integers(100, 700), 50))
  n0 = draw(st.one_of(st.integers(4, 15), st.just(n1), st.integers(4, 70)))
  design = draw(designs.valid(
      max_n=5000, crossover=crossover, pre=False, post=False, max_pretest=4, max_half=4, pretest=pretest))
  smallest = n1 + n0 if design["is_crossover"] else min(n1, n0)
  quantiles = st.one_of(st.just(0.0), st.just(0.0), data.quantile(smallest, min_kept=3))
  q = draw(quantiles) if trims is None else trims
  while True:
    n = design["n_items_before_trimming"]
    if n - 2 * math.floor(q * n) > 50:
      break
    design["n_items_before_trimming"] = n * 2
  design["post_trim_percentile"] = q
  many = draw(st.integers(0, 4)) == 0
  n_columns = draw(st.integers(6, 9) if many else st.integers(1, 4))
  names = draw(st.permutations(COLUMNS))[:n_columns]
  metrics = []
  for j in range(n_columns if many else draw(st.integers(1, 4))):
    column = names[j] if many else draw(st.sampled_from(names))
    ratio = n_columns > 1 and draw(st.integers(0, 2)) == 0
    metrics.append({
        "name": draw(st.sampled_from(["Clicks", "clicks", "Click rate", "CTR", "$", "m", "0"])) + ("" if j == 0 else f" {j}"),
        "column": column,
        "den": draw(st.sampled_from([c for c in names if c != column])) if ratio else None,
        "q": draw(st.one_of(st.just(0.0), data.quantile(smallest, min_kept=3))) if trims is None and draw(
            st.integers(0, 3)) == 0 else None,
    })
  return {
      "design": design,
      "n1": n1, "n0": n0,
      "columns": [[c, draw(st.sampled_from(KINDS))] for c in names],
      "metrics": metrics,
      "s": draw(SEEDS),
      "shared": draw(st.booleans()),
      "noise": draw(st.sampled_from([0.05, 0.3, 1.0])),
      "effect": draw(st.sampled_from([0.0, 0.0, 0.1, -0.2, 1.0])),
      "season": draw(st.sampled_from([0.0, 0.2, 1.0])),
      "daily": draw(st.integers(0, 2)) == 0,
      # an experiment that is still running or was ended early
      "unfinished": draw(st.sampled_from([0, 0, 0, 1, 2])),
      "outside": draw(st.sampled_from([[0, 0], [0, 0], [1, 0], [0, 2], [2, 1]])),
      "missing": draw(st.sampled_from([0.0, 0.1, 0.5])) if missing else 0.0,
      "ids": draw(st.sampled_from(data.ID_KINDS)),
      "groups": draw(st.sampled_from(["int", "int", "int", "float", "bool"])),
      "names": draw(st.sampled_from([
          ["item_id", "week_id", "treatment_assignment"], ["item_id", "week_id", "treatment_assignment"],
          ["sku", "wk", "arm"], ["Item", "Week", "variable"], ["id", "w", "treatment"]])),
      "order": draw(st.sampled_from(["shuffled", "sorted", "reversed"])),
      "extra": draw(st.booleans()),
      "int": draw(st.booleans()),
      # categorical columns, with a category that does not occur
      "cat": draw(st.sampled_from([[], [], [], [], ["item"], ["arm"], ["item", "arm"]])),
      # nullable data types
      "null": draw(st.integers(0, 6)) == 0,
  }


def column_values(kind, rng, level, shape, noise):
  z = level[:, None] * rng.lognormal(sigma=noise, size=shape)
  if kind == "gamma":
    return z
  if kind == "poisson":
    return rng.poisson(3 * z).astype(float)
  if kind == "sparse":
    return z * (rng.uniform(size=shape) < 0.2)
  if kind == "tiny":
    return z * 1e-5
  if kind == "huge":
    return z * 1e6
  if kind == "profit":
    return z - 2.0 * rng.exponential(size=shape)
  if kind == "ones":
    return np.ones(shape)
  if kind == "heavy":
    return z * (1 + 50 * (rng.uniform(size=shape) < 0.02))
  raise ValueError(kind)


class Experiment:
  """The data of one case, as arrays and as a table."""

  def __init__(self, case, start=0):
    self.case = case
    rng = np.random.default_rng(case["s"])
    self.design = design = designs.make(case["design"])
    n = case["n1"] + case["n0"]
    group = np.array([1] * case["n1"] + [0] * case["n0"])[rng.permutation(n)]
    per = 7 if case["daily"] else 1
    lo = -design.pretest_weeks - case["outside"][0]
    hi = design.runtime_weeks + case["outside"][1]
    gone = self.unfinished()
    if gone:
      hi = design.runtime_weeks - gone
    self.weeks = np.repeat(np.arange(lo, hi), per)
    units = len(self.weeks)
    self.periods = [period_of(design, int(w)) for w in self.weeks]
    self.group, self.n, self.start = group, n, start
    self.ids = [ident(case["ids"], int(i)) for i in rng.permutation(3 * n)[:n]]
    season = 1.0 + case["season"] * rng.uniform(size=units)
    first = np.array([p in ("test", "test_1", "washout_1") for p in self.periods])
    second = np.array([p in ("test_2", "washout_2") for p in self.periods])
    treated = (group[:, None] == 1) & first[None, :] | (group[:, None] == 0) & second[None, :]
    self.treated = treated
    level0 = rng.lognormal(sigma=0.8, size=n)
    self.x = {}
    for name, kind in case["columns"]:
      level = level0 if case["shared"] else rng.lognormal(sigma=0.8, size=n)
      v = column_values(kind, rng, level, (n, units), case["noise"])
      if kind != "ones":
        v = v * season[None, :] * np.where(treated, 1.0 + case["effect"], 1.0)
      if kind == "poisson":
        v = np.round(v)
      self.x[name] = v
    keep = rng.uniform(size=(n, units)) >= case["missing"]
    # every item has a row within the design, every week has some rows
    inside = [j for j, p in enumerate(self.periods) if p is not None]
    keep[np.arange(n), rng.choice(inside, size=n)] = True
    for j in range(units):
      keep[rng.integers(0, n), j] = True
    self.keep = keep
    rows = np.argwhere(keep)
    if case["order"] == "shuffled":
      rows = rows[rng.permutation(len(rows))]
    elif case["order"] == "reversed":
      rows = rows[::-1]
    self.rows = rows
    self.rng = rng

  def unfinished(self):
    """How many of the last weeks of the design have no data: every period has some."""
    d = self.design
    last = d.runtime_weeks if not d.is_crossover else d.runtime_weeks // 2 - d.crossover_washout_weeks
    return min(self.case.get("unfinished", 0), last - 1)

  def frame(self, rows=None, ids=None, group=None, values=None):
    case = self.case
    rows = self.rows if rows is None else rows
    ids = self.ids if ids is None else ids
    group = self.group if group is None else group
    item, week, arm = case["names"]
    i, j = rows[:, 0], rows[:, 1]
    cast = {"int": int, "float": float, "bool": bool}[case["groups"]]
    cols = {}
    if case["extra"]:
      cols["note"] = ["x"] * len(rows)
      cols["junk"] = np.arange(len(rows)) * 1.5
    cols[arm] = np.array([cast(group[a]) for a in i])
    for name, kind in case["columns"]:
      v = (values or self.x)[name][i, j]
      cols[name] = v.astype(int) if kind == "poisson" and case["int"] and np.all(v == np.round(v)) else v
    cols[week] = self.weeks[j] + self.start
    cols[item] = [ids[a] for a in i]
    frame = pd.DataFrame(cols)
    for c in case.get("cat", []):
      c = {"item": item, "arm": arm}[c]
      frame[c] = data.categorical(frame[c])
    return frame.convert_dtypes() if case.get("null") else frame

  def average(self, column, period, values=None):
    """Average per week of each item in one period."""
    w = np.array([p == period for p in self.periods])
    v = np.where(self.keep, (values or self.x)[column], 0.0)[:, w]
    return np.array([math.fsum(r) for r in v]) / weeks_by_period(self.design)[period]

  def metrics(self, specs=None):
    return [
        ea.Metric(name=m["name"], column=m["column"], denominator_column=m["den"], trimming_quantile_override=m["q"])
        for m in (self.case["metrics"] if specs is None else specs)]

  def kw(self):
    item, week, arm = self.case["names"]
    if (item, week, arm) == ("item_id", "week_id", "treatment_assignment"):
      return {}
    return dict(item_id_column=item, week_id_column=week, treatment_assignment_column=arm)

  def analyze(self, ctx, frame=None, specs=None, design=None):
    return ctx.sut(ea.analyze_experiment, self.frame() if frame is None else frame,
                   metrics=self.metrics(specs), design=design or self.design, **self.kw())

  def reference(self, spec):
    """What the analysis of one metric has to give, or None if ties decide."""
    q = self.design.post_trim_percentile if spec["q"] is None else spec["q"]
    g = self.group == 1
    columns = [spec["column"]] + ([spec["den"]] if spec["den"] else [])
    if not self.design.is_crossover:
      parts = []
      for c in columns:
        y = self.average(c, "test")
        if self.design.pretest_weeks:
          y = p_stats.cuped_reference(y, self.average(c, "pretest"), q)
          if y is None:
            return None
        parts.append(y)
      a, b = parts[0][g], parts[0][~g]
      da, db = (parts[1][g], parts[1][~g]) if spec["den"] else (None, None)
      for key in (a, b):
        k = int(math.floor(q * len(key)))
        if spec["den"] and (data.near_ties(key, k, 1e-9 * np.max(np.abs(key)))):
          return None
      if spec["den"] and 0.0 in (Trim([a, da], q).mean(1), Trim([b, db], q).mean(1)):
        return None
      ref = p_stats.ind_arrays(a, b, da, db, q)
    else:
      parts = []
      for c in columns:
        y1, y2 = self.average(c, "test_1"), self.average(c, "test_2")
        control = np.where(g, y2, y1)
        treated = np.where(g, y1, y2)
        if q == 0.0:
          d1, d2 = y1 - math.fsum(y1) / self.n, y2 - math.fsum(y2) / self.n
          c0 = np.where(g, d2, d1)
          shift = math.fsum(control) / self.n - math.fsum(c0) / self.n
          control, treated = c0 + shift, np.where(g, d1, d2) + shift
        parts += [treated, control]
      da, db = (parts[2], parts[3]) if spec["den"] else (None, None)
      key = parts[0] - parts[1]
      if spec["den"]:
        t = Trim([key, da, db], q)
        if 0.0 in (t.mean(1), t.mean(2)):
          return None
      ref = p_stats.paired_arrays(parts[0], parts[1], da, db, q)
      k = int(math.floor(q * self.n))
      if data.near_ties(key, k, 1e-10 * ref["big"]):
        ref["settled"] = False
      if spec["den"] and not ref["settled"]:
        return None
    if not ref["fair"]:
      return None
    if spec["den"]:
      for d in (da, db):
        t = Trim([d], 0.0)
        if abs(t.mean()) < 1e-3 * np.max(np.abs(d)):
          return None
    ref["paired"] = self.design.is_crossover
    ref["corr"] = ref.get("corr", 0.0)
    return ref


def judge_row(ctx, row, ref, design, ratio, what):
  got = types.SimpleNamespace(**row)
  case = dict(alt="two-sided", alpha=design.alpha)
  shown = ref
  if ref["paired"] and not ratio:
    shown = dict(ref, m1=ref["diff"], m2=0.0)
  p_stats.judge_test(ctx, case, got, shown, what)
  diff = shown["m1"] - shown["m2"]
  crit = stats.t.isf(design.alpha / 2, ref["df"])
  tol = 1e-9 * ref["big"] + 1e-6 * crit * ref["se"]
  close(got.absolute_difference_lower_bound, diff - crit * ref["se"], f"{what}: lower bound", 1e-9, tol)
  close(got.absolute_difference_upper_bound, diff + crit * ref["se"], f"{what}: upper bound", 1e-9, tol)
  if not ref["settled"]:
    return
  m1, m2 = ref["m1"], ref["m2"]
  close(got.control_average, m2, f"{what}: control average", 1e-8, 1e-10 * ref["big"])
  parts = [None if x is None or x != x else float(x) for x in (
      got.relative_difference, got.relative_difference_lower_bound, got.relative_difference_upper_bound)]
  if min(abs(m1), abs(m2)) <= 1e-7 * ref["big"]:
    return
  if m1 < 0 or m2 < 0:
    require(parts == [None] * 3, f"{what}: relative results {parts} of negative means {m1!r}, {m2!r}")
    return
  close(parts[0], m1 / m2 - 1, f"{what}: relative difference", 1e-7, 1e-8 * max(1.0, m1 / m2))
  if not np.isfinite(ref["corr"]) or abs(ref["corr"]) > 1 - 1e-6:
    return
  if ref["se"] < 1e-6 * ref["big"] or min(ref["se1"], ref["se2"]) < 1e-9 * ref["big"]:
    return
  want, _ = p_stats.fieller(ref, "two-sided", design.alpha, pad=1e-10)
  p_stats.judge_range(parts[1], want[0], f"{what}: relative lower bound", 1e-6)
  p_stats.judge_range(parts[2], want[1], f"{what}: relative upper bound", 1e-6)


@st.composite
def between_case(draw):
  lo = draw(st.integers(-60, 60))
  return {
      "weeks": draw(st.lists(st.one_of(st.integers(-70, 70), st.sampled_from([lo - 1, lo, lo + 1])), min_size=0, max_size=40)),
      "first": lo,
      "last": lo + draw(st.one_of(st.integers(-3, 6), st.integers(-60, 60))),
      "dtype": draw(st.sampled_from(["int64", "int32", "int8", "float64"])),
      "index": draw(st.sampled_from(["range", "reversed", "text", "equal"])),
  }


@check("C21", "between", between_case, quick=3000, rule="some weeks are in the range and some are not")
def c21_between(case, ctx):
  n = len(case["weeks"])
  index = {"range": list(range(n)), "reversed": list(range(n))[::-1], "text": [f"r{j}" for j in range(n)], "equal": [7] * n}[case["index"]]
  weeks = pd.Series(case["weeks"], index=index, dtype=case["dtype"])
  before = weeks.copy()
  got = ctx.sut(ea.get_weeks_between, weeks, case["first"], case["last"])
  want = [case["first"] <= w <= case["last"] for w in case["weeks"]]
  require([bool(x) for x in got] == want, f"weeks from {case['first']} to {case['last']}: {list(got)}, want {want}")
  require(list(got.index) == index, "the answer has other labels than the weeks")
  require(weeks.equals(before), "the weeks were changed")
  ctx.nontrivial = any(want) and not all(want)


# ---------------------------------------------------------------- C22


@st.composite
def pivot_case(draw):
  case = draw(experiment_case(missing=True))
  case["start"] = draw(st.one_of(st.just(0), st.integers(-9, 30)))
  case["arm"] = draw(st.booleans())
  case["period"] = draw(st.one_of(st.none(), PERIOD_NAMES.filter(lambda x: x != "test")))
  case["drop"] = draw(st.sampled_from(["item", "week", "metric", "arm"]))
  case["cut"] = draw(st.sampled_from([None, None, "washout", "second", "pretest", "first"]))
  return case


@check("C22", "averages", pivot_case, quick=5200, rule="every case has several items and weeks")
def c22(case, ctx):
  e = Experiment(case, case["start"])
  design = e.design
  if case["cut"] and design.is_crossover:
    # an experiment that is still running, or data without some weeks
    gone = {"washout": ["washout_1", "washout_2"], "second": ["test_2"], "pretest": ["pretest"], "first": ["test_1"]}[case["cut"]]
  elif case["cut"] == "pretest":
    gone = ["pretest"]
  else:
    gone = []
  e.rows = np.array([r for r in e.rows if e.periods[r[1]] not in gone]).reshape(-1, 2)
  # items that are left without rows within the design are no items
  alive = sorted({int(r[0]) for r in e.rows if e.periods[r[1]] is not None})
  e.rows = e.rows[np.isin(e.rows[:, 0], alive)]
  if not any(e.periods[j] in ("test", "test_1", "test_2") for _, j in e.rows) or not alive:
    return
  item, week, arm = case["names"]
  frame = e.frame()
  columns = [c for c, _ in case["columns"]]
  kw = dict(design=design, start_week_id=case["start"], metric_columns=list(columns), item_id_column=item, week_id_column=week)
  if case["arm"]:
    kw["treatment_column"] = arm
  if case["period"]:
    kw["time_period_column"] = case["period"]
  before = frame.copy(deep=True)
  got = ctx.sut(ea.pivot_time_assignment, frame, **kw)
  unchanged(before, frame, "the data")
  require(kw["metric_columns"] == columns, "the list of metrics was changed")
  judge_pivot(e, got, alive, case["arm"], columns, "pivoted data")
  require(got.columns.names[-1] == (case["period"] or "time_period"), f"the periods are named {got.columns.names[-1]!r}")
  if case["daily"]:
    keys = [item, week, arm]
    weekly = frame.groupby(keys, as_index=False, observed=True)[columns].sum()
    judge_pivot(e, ctx.sut(ea.pivot_time_assignment, weekly, **kw), alive, case["arm"], columns, "weekly sums")
  name = case["period"] or "time_period"
  ctx.rejects("an existing period column", ea.pivot_time_assignment, frame.assign(**{name: "x"}), **kw)
  gone = {"item": item, "week": week, "metric": columns[-1], "arm": arm if case["arm"] else item}[case["drop"]]
  ctx.rejects(f"data without {gone}", ea.pivot_time_assignment, frame.drop(columns=gone), **kw)
  ctx.nontrivial = True
  ctx.label("crossover" if design.is_crossover else "regular", "daily" if case["daily"] else "weekly",
            f"without {case['cut']}")


def judge_pivot(e, got, alive, with_arm, columns, what):
  item, _, arm = e.case["names"]
  require(list(got.index.names) == ([item, arm] if with_arm else [item]), f"{what}: index {list(got.index.names)}")
  keys = [k if with_arm else (k,) for k in got.index.tolist()]
  require(len(set(keys)) == len(keys), f"{what}: an item has several rows")
  want_keys = {(e.ids[i], int(e.group[i])) if with_arm else (e.ids[i],) for i in alive}
  require({tuple([k[0]] + [int(x) for x in k[1:]]) for k in keys} == want_keys, f"{what}: other items or groups")
  at = {k[0]: r for r, k in enumerate(keys)}
  order = [at[e.ids[i]] for i in alive]
  seen = {e.periods[j] for _, j in e.rows} - {None}
  want_columns = sorted((c, p) for c in columns for p in seen)
  require(sorted(map(tuple, got.columns)) == want_columns, f"{what}: columns {sorted(got.columns)}, want {want_columns}")
  present = np.zeros(e.keep.shape, dtype=bool)
  present[e.rows[:, 0], e.rows[:, 1]] = True
  per = weeks_by_period(e.design)
  for c in columns:
    for p in seen:
      mask = present & np.array([q == p for q in e.periods])[None, :]
      want = np.array([math.fsum(e.x[c][i][mask[i]]) / per[p] for i in alive])
      have = got[(c, p)].values.astype(float)[order]
      allclose(have, want, f"{what}: {c} in {p}", 1e-9, 1e-12 * (np.max(np.abs(want)) or 1.0))


# ---------------------------------------------------------------- C23 and C24


def run_analysis(case, ctx):
  e = Experiment(case)
  frame = e.frame()
  before, design0 = frame.copy(deep=True), str(e.design)
  result = e.analyze(ctx, frame)
  unchanged(before, frame, "the data")
  require(str(e.design) == design0, "the design was changed")
  names = [m["name"] for m in case["metrics"]]
  require(list(result.index) == names, f"rows {list(result.index)}, metrics {names}")
  decided = 0
  for m, row in zip(case["metrics"], result.to_dict("records")):
    ref = e.reference(m)
    if ref is None:
      ctx.label("ties or no variance")
      continue
    decided += 1
    what = f"{m['column']}" + (f" / {m['den']}" if m["den"] else "") + f", trimmed {e.design.post_trim_percentile if m['q'] is None else m['q']}"
    judge_row(ctx, row, ref, e.design, m["den"] is not None, what)
    ctx.label("ratio" if m["den"] else "mean", "trimmed" if ref["k"] else "not trimmed")
    if m["q"] is not None:
      ctx.label("override")
  ctx.label("pretest" if e.design.pretest_weeks else "no pretest")
  ctx.nontrivial = decided > 0
  return e, frame


@check("C23", "procedure", lambda: experiment_case(crossover=False), quick=3600, rule="at least one metric has a decided reference")
def c23(case, ctx):
  e, frame = run_analysis(case, ctx)
  if e.design.pretest_weeks and case["s"] % 8 == 0:
    week = case["names"][1]
    ctx.rejects("data without pretest", ea.analyze_experiment, frame[frame[week] >= 0],
                metrics=e.metrics(), design=e.design, **e.kw())


@check("C24", "procedure", lambda: experiment_case(crossover=True), quick=3600, rule="at least one metric has a decided reference")
def c24(case, ctx):
  e, frame = run_analysis(case, ctx)
  if case["s"] % 8 == 0:
    week = case["names"][1]
    ctx.rejects("data without the second half", ea.analyze_experiment, frame[frame[week] < e.design.runtime_weeks // 2],
                metrics=e.metrics(), design=e.design, **e.kw())


@st.composite
def single_case(draw):
  case = draw(experiment_case())
  case["metrics"] = case["metrics"][:1]
  case["gone"] = draw(st.integers(0, 5))
  return case


def single(case, ctx):
  """The analysis of one pivoted metric."""
  e = Experiment(case)
  item, week, arm = case["names"]
  m = case["metrics"][0]
  columns = [m["column"]] + ([m["den"]] if m["den"] else [])
  names = {}
  per = {}
  for c in columns:
    for p in weeks_by_period(e.design):
      per[(c, p)] = e.average(c, p)
  pivot = pd.DataFrame(per)
  pivot.columns = pd.MultiIndex.from_tuples(list(per))
  pivot.index = pd.MultiIndex.from_arrays([e.ids, e.group], names=[item, arm])
  before = pivot.copy(deep=True)
  kw = dict(design=e.design, metric_name=m["column"], denominator_metric_name=m["den"],
            trimming_quantile_override=m["q"])
  if arm != "treatment_assignment":
    kw["treatment_assignment_index_name"] = arm
  got = ctx.sut(ea.analyze_single_metric, pivot, **kw)
  unchanged(before, pivot, "the pivoted data")
  ref = e.reference(m)
  needed = ["test_1", "test_2"] if e.design.is_crossover else ["test"] + (["pretest"] if e.design.pretest_weeks else [])
  gone = needed[case["gone"] % len(needed)]
  c = columns[case["gone"] % len(columns)]
  rest = pivot.copy()
  rest[(c, "spare")] = 1.0
  rest = rest.drop(columns=[(c, gone)])
  ctx.rejects(f"{c} without {gone}", ea.analyze_single_metric, rest, **kw)
  ctx.rejects("no group", ea.analyze_single_metric, pivot.droplevel(arm), **kw)
  if ref is None:
    return
  judge_row(ctx, vars(got), ref, e.design, m["den"] is not None, "single metric")
  ctx.nontrivial = True


@check("C23", "single_metric", lambda: single_case().filter(lambda c: not c["design"]["is_crossover"]), quick=1500,
       rule="the metric has a decided reference")
def c23_single(case, ctx):
  single(case, ctx)


@check("C24", "single_metric", lambda: single_case().filter(lambda c: c["design"]["is_crossover"]), quick=1500,
       rule="the metric has a decided reference")
def c24_single(case, ctx):
  single(case, ctx)


# ---------------------------------------------------------------- C25


@st.composite
def relation_case(draw):
  case = draw(experiment_case())
  case["kinds"] = draw(st.lists(st.sampled_from([
      "rows", "items", "metrics", "rename", "columns", "weekly", "twice", "swap", "scale", "shift"]),
      min_size=3, max_size=5, unique=True))
  case["factor"] = draw(st.sampled_from([2.0, 1e-4, 1000.0, 3.7]))
  case["shift"] = draw(st.sampled_from([0.5, -0.25, 10.0]))
  case["s2"] = draw(SEEDS)
  return case


FIELDS = ["p_value", "statistic", "absolute_difference", "absolute_difference_lower_bound",
          "absolute_difference_upper_bound", "standard_error", "degrees_of_freedom", "control_average",
          "relative_difference", "relative_difference_lower_bound", "relative_difference_upper_bound"]


def same_row(got, want, ref, what, scale=1.0, skip=()):
  """Equal up to rounding errors; scale is that of the metric."""
  big = ref["big"] * scale
  noise = 1e-9 * ref["big"] / ref["se"]
  require(got["sample_size"] == want["sample_size"], f"{what}: sample size {got['sample_size']}, was {want['sample_size']}")
  require(got["alpha"] == want["alpha"], f"{what}: alpha")
  for f in FIELDS:
    if f in skip:
      continue
    w = want[f]
    if w is not None and (f.startswith("absolute") or f in ("standard_error", "control_average")):
      w = w * scale
    if f.startswith("relative"):
      if min(abs(ref["m1"]), abs(ref["m2"])) <= 1e-6 * ref["big"] or noise > 1e-5:
        continue
      if not ref["settled"] or not np.isfinite(ref["corr"]) or abs(ref["corr"]) > 1 - 1e-6:
        continue
      if min(ref["se1"], ref["se2"]) < 1e-6 * ref["big"]:
        continue
      w = None if w is None or w != w else w
      crit = stats.t.isf(want["alpha"] / 2, ref["df"])
      margin = abs(ref["m2"] ** 2 - (crit * ref["se2"]) ** 2) / (ref["m2"] ** 2 + (crit * ref["se2"]) ** 2)
      if "bound" in f and margin < 1e-3:
        continue
      close(None if got[f] is None or got[f] != got[f] else got[f], w, f"{what}: {f}", 1e-5, 1e-6)
    elif f == "p_value":
      close(got[f], w, f"{what}: {f}", 1e-5 * (1 + abs(want["statistic"])), 1e-8 + 3 * noise)
    elif f == "statistic":
      close(got[f], w, f"{what}: {f}", 1e-5, noise)
    elif f == "control_average" and not ref["settled"]:
      continue
    elif f in ("standard_error", "degrees_of_freedom"):
      close(got[f], w, f"{what}: {f}", 1e-5)
    else:
      close(got[f], w, f"{what}: {f}", 1e-6, 1e-9 * big + 1e-5 * abs(want["standard_error"]) * scale)
  if abs(want["p_value"] - want["alpha"]) > 1e-6 + 10 * noise:
    require(bool(got["is_significant"]) == bool(want["is_significant"]), f"{what}: significance")


@check("C25", "relations", relation_case, quick=1750, rule="at least one metric is decided and one relation applies")
def c25(case, ctx):
  e = Experiment(case)
  rng = np.random.default_rng(case["s2"])
  frame = e.frame()
  base = e.analyze(ctx, frame).to_dict("records")
  refs = [e.reference(m) for m in case["metrics"]]
  specs = case["metrics"]
  if all(r is None for r in refs):
    return
  ctx.nontrivial = True
  item, week, arm = case["names"]
  columns = [c for c, _ in case["columns"]]

  def compare(result, what, **kw):
    rows = result.to_dict("records")
    require(len(rows) == len(specs), f"{what}: {len(rows)} rows")
    for m, row, want, ref in zip(specs, rows, base, refs):
      if ref is not None:
        same_row(row, want, ref, f"{what}, {m['column']}" + (f" / {m['den']}" if m["den"] else ""), **kw)

  for kind in case["kinds"]:
    ctx.label(kind)
    if kind == "rows":
      compare(e.analyze(ctx, frame.iloc[rng.permutation(len(frame))]), "rows reordered")
    elif kind == "items":
      ids = [f"zz{j}" for j in rng.permutation(e.n)]
      compare(e.analyze(ctx, e.frame(ids=ids)), "items renamed")
    elif kind == "metrics":
      order = rng.permutation(len(specs))
      some = order[: max(1, len(order) - int(rng.integers(0, 2)))]
      # results are a list with one row per metric, also when a name is used twice
      extra = {"name": "extra" if rng.integers(2) else specs[some[0]]["name"], "column": columns[0], "den": None, "q": 0.0}
      result = e.analyze(ctx, frame, [specs[j] for j in some] + [extra]).to_dict("records")
      require(len(result) == len(some) + 1, f"{len(result)} results for {len(some) + 1} metrics")
      for j, row in zip(some, result):
        if refs[j] is not None:
          same_row(row, base[j], refs[j], f"metrics reordered, {specs[j]['column']}")
    elif kind == "rename":
      renamed = {c: f"renamed {c}" for c in columns}
      other = [dict(m, name=f"n{j}", column=renamed[m["column"]], den=renamed[m["den"]] if m["den"] else None)
               for j, m in enumerate(specs)]
      result = e.analyze(ctx, frame.rename(columns=renamed), other)
      require(list(result.index) == [f"n{j}" for j in range(len(specs))], "names of the metrics")
      compare(result, "metrics renamed")
    elif kind == "columns":
      more = frame.assign(unrelated=rng.normal(size=len(frame)), words="w", missing=np.nan)
      more = more[[more.columns[j] for j in rng.permutation(more.shape[1])]]
      compare(e.analyze(ctx, more), "unrelated columns")
    elif kind == "weekly":
      weekly = frame.groupby([item, week, arm], as_index=False, observed=True)[columns].sum()
      compare(e.analyze(ctx, weekly), "weekly sums")
    elif kind == "twice":
      before, design0 = frame.copy(deep=True), str(e.design)
      compare(e.analyze(ctx, frame), "analyzed twice")
      unchanged(before, frame, "the data")
      require(str(e.design) == design0, "the design was changed")
    elif kind == "swap" and not e.design.is_crossover:
      rows = e.analyze(ctx, e.frame(group=1 - e.group)).to_dict("records")
      for row, want, ref in zip(rows, base, refs):
        if ref is not None:
          noise = 1e-9 * ref["big"] / ref["se"]
          close(row["absolute_difference"], -want["absolute_difference"], "difference with swapped groups", 1e-6, 1e-9 * ref["big"])
          close(row["standard_error"], want["standard_error"], "standard error with swapped groups", 1e-5)
          close(row["p_value"], want["p_value"], "p-value with swapped groups", 1e-5 * (1 + abs(want["statistic"])), 1e-8 + 3 * noise)
    elif kind == "scale":
      c = columns[int(rng.integers(0, len(columns)))]
      rows = e.analyze(ctx, e.frame(values={**e.x, c: e.x[c] * case["factor"]})).to_dict("records")
      for m, row, want, ref in zip(specs, rows, base, refs):
        if ref is not None:
          f = (case["factor"] if m["column"] == c else 1.0) / (case["factor"] if m["den"] == c else 1.0)
          same_row(row, want, ref, f"{c} times {case['factor']}, {m['column']}", scale=f)
    elif kind == "shift" and not e.unfinished():
      if e.design.is_crossover and case["n1"] != case["n0"] or e.design.pretest_weeks and not e.design.is_crossover:
        continue
      per = 7 if case["daily"] else 1
      part = np.array([p in ("test", "test_1", "test_2") for p in e.periods])
      for m, want, ref in zip(specs, base, refs):
        q = e.design.post_trim_percentile if m["q"] is None else m["q"]
        if m["den"] or q > 0 or ref is None:
          continue
        c = m["column"]
        effect = case["shift"] * ref["big"]
        v = e.x[c] + effect / per * (e.treated & part[None, :])
        row = e.analyze(ctx, e.frame(values={**e.x, c: v}), [m]).to_dict("records")[0]
        close(row["absolute_difference"], want["absolute_difference"] + effect, "difference with added effect", 1e-6, 1e-8 * ref["big"])
        if ref["se"] > 1e-6 * ref["big"]:
          close(row["standard_error"], want["standard_error"], "standard error with added effect", 1e-5)
        ctx.label("shifted")


# ---------------------------------------------------------------- C26


class Table(html.parser.HTMLParser):
  """The cells and styles of a rendered table."""

  def __init__(self, text):
    super().__init__()
    self.rows, self.style, self.cell, self.in_style, self.caption = [], "", None, False, None
    self.feed(text)

  def handle_starttag(self, tag, attrs):
    a = dict(attrs)
    if tag == "tr":
      self.rows.append([])
    elif tag in ("td", "th"):
      self.cell = {"tag": tag, "class": a.get("class", ""), "id": a.get("id", ""), "text": "",
                   "span": int(a.get("colspan", 1))}
      self.rows[-1].append(self.cell)
    elif tag == "style":
      self.in_style = True
    elif tag == "caption":
      self.cell = self.caption = {"text": ""}

  def handle_endtag(self, tag):
    if tag in ("td", "th", "caption"):
      self.cell = None
    elif tag == "style":
      self.in_style = False

  def handle_data(self, text):
    if self.in_style:
      self.style += text
    elif self.cell is not None:
      self.cell["text"] += text

  def header(self, n_levels):
    """One tuple of texts for each shown column."""
    levels = []
    for row in self.rows[:n_levels]:
      texts = []
      for c in row:
        if "col_heading" in c["class"]:
          texts += [c["text"].strip().replace("\xa0", "")] * c["span"]
      levels.append(texts)
    return list(zip(*levels))

  def body(self):
    out = []
    for row in self.rows:
      cells = [c for c in row if c["tag"] == "td"]
      if cells:
        heads = [c["text"].strip() for c in row if "row_heading" in c["class"]]
        out.append((heads, cells))
    return out

  def styles_of(self, cell):
    """The declarations for one cell."""
    out = set()
    for block in self.style.split("}"):
      if "{" not in block:
        continue
      names, rules = block.split("{")
      if any(n.strip() == "#" + cell["id"] for n in names.split(",")):
        out.update("".join(r.split()) for r in rules.split(";") if r.strip())
    return out


NUMBERS = st.one_of(
    st.floats(-2, 2), st.floats(-1e7, 1e7), st.sampled_from([0.0, 1e-9, -1e-9, 123456.789, -0.00012345, 1e12, 0.999999]))


@st.composite
def table_case(draw):
  alpha = draw(st.sampled_from([0.05, 0.1, 0.01, 0.2, 0.001, 0.125, 0.3]))
  p = st.one_of(
      st.floats(0, 1), st.floats(0, 0.02),
      st.sampled_from([0.0, 1.0, 0.001, 0.01, 0.99, 0.995, 0.0005, 0.0099, 0.05, 0.1, 0.2]),
      st.sampled_from([math.nextafter(x, d) for x in (0.001, 0.01, 0.99, 0.05) for d in (0.0, 1.0)]),
      st.sampled_from([alpha, math.nextafter(alpha, 0.0), math.nextafter(alpha, 1.0)]))
  special = st.sampled_from([None, "inf", "-inf"])
  rows = []
  for j in range(draw(st.integers(1, 5))):
    rel = draw(st.sampled_from(["numbers", "numbers", "none", "nan", "inf"]))
    rows.append({
        "p": draw(p), "abs": [draw(NUMBERS) for _ in range(3)],
        "rel": rel, "rels": [draw(st.one_of(st.floats(-1, 10), NUMBERS)) for _ in range(3)],
        "n": draw(st.one_of(st.integers(51, 500), st.integers(51, 10**6))),
        "nan_abs": draw(st.integers(0, 9)) == 0,
    })
  return {
      "alpha": alpha, "rows": rows,
      "all_none": draw(st.integers(0, 7)) == 0,
      "relative": draw(st.sampled_from([None, True, True, False])),
      "absolute": draw(st.sampled_from([None, True, True, False])),
      "projected": draw(st.sampled_from([None, True, True, False])),
      "digits": [draw(st.sampled_from([None, 0, 1, 2, 3, 5])), draw(st.sampled_from([None, 1, 2, 3, 6])),
                 draw(st.sampled_from([None, 0, 1, 3]))],
      "object": draw(st.booleans()),
  }


@check("C26", "numbers", table_case, quick=5400, rule="at least one effect size is shown")
def c26(case, ctx):
  rows = []
  for j, r in enumerate(case["rows"]):
    rel = list(r["rels"])
    if r["rel"] == "none" or case["all_none"]:
      rel = [None] * 3
    elif r["rel"] == "nan":
      rel = [math.nan] * 3
    elif r["rel"] == "inf":
      rel[2] = math.inf
    absolute = list(r["abs"])
    if r["nan_abs"]:
      absolute[1], absolute[2] = -math.inf, math.nan
    rows.append({
        "metric": f"Metric {j}", "is_significant": bool(r["p"] < case["alpha"]), "alpha": case["alpha"], "p_value": r["p"],
        "statistic": 1.0, "absolute_difference": absolute[0], "absolute_difference_lower_bound": absolute[1],
        "absolute_difference_upper_bound": absolute[2], "relative_difference": rel[0],
        "relative_difference_lower_bound": rel[1], "relative_difference_upper_bound": rel[2],
        "standard_error": 0.5, "sample_size": r["n"], "degrees_of_freedom": 99.0, "control_average": 3.0})
  results = pd.DataFrame.from_records(rows).set_index("metric")
  if case["object"]:
    for c in results.columns:
      if c.startswith("relative"):
        results[c] = pd.Series([row[c] for row in rows], index=results.index, dtype=object)
  before = results.copy(deep=True)
  kw = {}
  for key, value in (("include_relative_effect", case["relative"]), ("include_absolute_effect", case["absolute"]),
                     ("include_yearly_projected_effect", case["projected"]),
                     ("relative_effect_decimal_places", case["digits"][0]),
                     ("absolute_effect_significant_figures", case["digits"][1]),
                     ("yearly_projected_effect_decimal_places", case["digits"][2])):
    if value is not None:
      kw[key] = value
  shown = ctx.sut(ea.format_experiment_analysis_results_dataframe, results, **kw)
  unchanged(before, results, "the results")
  table = Table(ctx.sut(shown.to_html))
  d_rel = 2 if case["digits"][0] is None else case["digits"][0]
  d_abs = 3 if case["digits"][1] is None else case["digits"][1]
  d_year = 0 if case["digits"][2] is None else case["digits"][2]
  parts = []
  if case["relative"] is not False:
    parts.append(("Relative", "relative_difference", lambda x, r: ("%+.*f%%" % (d_rel, 100 * x), f"{x:+.{d_rel}%}")))
  if case["absolute"] is not False:
    parts.append(("Absolute", "absolute_difference", lambda x, r: (f"{x:+,.{d_abs}g}",)))
  if case["projected"]:
    parts.append(("Projected", "absolute_difference", lambda x, r: (
        f"{52 * r['sample_size'] * x:+,.{d_year}f}", f"{52 * (r['sample_size'] * x):+,.{d_year}f}")))
  header = table.header(2)
  want_tops = [p[0] for p in parts for _ in range(2)] + ["P-value"]
  require(len(header) == len(want_tops), f"columns {header}")
  for h, top in zip(header, want_tops):
    require(h[0].startswith(top), f"columns {header}")
  level = f"{1.0 - case['alpha']:.0%}"
  for j in range(0, len(header) - 1, 2):
    require("Point" in header[j][1] and header[j + 1][1] == f"{level} CI", f"header {header[j:j + 2]}, want {level}")
  body = table.body()
  require([h for h, _ in body] == [[r["metric"]] for r in rows], f"rows {[h for h, _ in body]}")
  for (_, cells), r in zip(body, rows):
    texts = [c["text"].strip() for c in cells]
    for k, (top, field, form) in enumerate(parts):
      val = lambda f: math.nan if r[f] is None else r[f]
      point, low, high = (form(val(field + end), r) for end in ("", "_lower_bound", "_upper_bound"))
      if not math.isnan(val(field)):
        require(texts[2 * k] in point, f"{top}: point estimate {texts[2 * k]!r}, want {point[0]!r} ({val(field)!r})")
      got = texts[2 * k + 1].split(" to ")
      require(len(got) == 2, f"{top}: interval {texts[2 * k + 1]!r}")
      for g, w, x in ((got[0], low, val(field + "_lower_bound")), (got[1], high, val(field + "_upper_bound"))):
        require(g in w or math.isnan(x) and "nan" in g.lower(), f"{top}: bound {g!r}, want {w[0]!r} ({x!r})")
    p, alpha = r["p_value"], r["alpha"]
    want = "p<0.001" if p < 0.001 else f"p={p:.3f}" if p < 0.01 else f"p={p:.2f}" if p <= 0.99 else "p>0.99"
    require(texts[-1].split(" ")[0] == want, f"p-value {texts[-1]!r}, want {want!r} for {p!r}")
    require(("ignificant" in texts[-1]) == (p < alpha), f"p-value {texts[-1]!r}: {p!r} at alpha {alpha}")
    for c in cells:
      css = table.styles_of(c)
      if not r["is_significant"]:
        ok = "color:grey" in css and not any("background" in x for x in css)
      else:
        color = "lightgreen" if r["absolute_difference"] > 0 else "pink"
        ok = f"background-color:{color}" in css
      require(ok, f"row with p={p!r}, difference {r['absolute_difference']!r} has the style {sorted(css)}")
  ctx.nontrivial = bool(parts)
  ctx.label(f"{len(parts)} effect sizes")
