"""C27-C31: generating designs, estimating and simulating them."""
import collections
import copy
import dataclasses
import itertools
import math

from hypothesis import strategies as st
import numpy as np
import pandas as pd
from scipy import stats

from pbt import core, data, designs, p_stats
from pbt.core import allclose, check, close, require, unchanged
from pbt.data import SEEDS, Trim
from pbt.p_analysis import Table, weeks_by_period
from pbt.p_prep import ident, period_of
from feedx import data_preparation as dp
from feedx import experiment_analysis as ea
from feedx import experiment_design as ed
from feedx import experiment_simulations as es

# ---------------------------------------------------------------- C27

CONTAINERS = {
    "list": list, "tuple": tuple, "set": set, "array": lambda v: v, "frozenset": frozenset,
    "dict": lambda v: dict.fromkeys(v), "reversed": lambda v: list(reversed(v)),
}
FIELDS = ["n_items_before_trimming", "runtime_weeks", "primary_metric", "pretest_weeks", "is_crossover",
          "pre_trim_top_percentile", "pre_trim_bottom_percentile", "post_trim_percentile", "crossover_washout_weeks"]


@st.composite
def designs_case(draw):
  few = lambda values, n: draw(st.lists(values, min_size=1, max_size=n, unique=True))
  mixed = lambda limit: st.one_of(st.just(0.0), st.just(0.0), designs.frac(limit))
  return {
      "n": draw(st.integers(5000, 10**6)),
      "crossover": draw(st.integers(0, 3)) > 0, "regular": draw(st.integers(0, 3)) > 0,
      "runtime": few(st.integers(1, 14), 4), "pretest": few(st.one_of(st.just(0), st.integers(0, 9)), 3),
      "top": few(mixed(0.5), 3), "bottom": few(mixed(0.3), 3), "post": few(mixed(0.45), 3),
      "metric": draw(designs.NAMES),
      "washout": draw(st.sampled_from([0, 1, 2, None, 1, 2, 3, 0, 5])),
      "kinds": [draw(st.sampled_from(sorted(CONTAINERS))) for _ in range(5)],
      "first": draw(st.one_of(st.integers(-60, 200), st.just(0))),
      "slack": draw(st.integers(-3, 4)),
      "s": draw(SEEDS),
      "omit": draw(st.booleans()),
  }


@check("C27", "designs", designs_case, quick=15000, rule="at least two valid designs, or a rejection")
def c27(case, ctx):
  keys = ["runtime", "pretest", "top", "bottom", "post"]
  args = {k: CONTAINERS[kind](case[k]) for k, kind in zip(keys, case["kinds"])}
  washout = case["washout"]
  kw = dict(
      n_items_before_trimming=case["n"], crossover_design_allowed=case["crossover"],
      traditional_design_allowed=case["regular"], candidate_runtime_weeks=args["runtime"],
      candidate_pretest_weeks=args["pretest"], candidate_pre_trim_top_percentiles=args["top"],
      candidate_pre_trim_bottom_percentiles=args["bottom"], candidate_post_trim_percentiles=args["post"],
      primary_metric=case["metric"], crossover_washout_weeks=washout)
  if washout is None and case["omit"]:
    del kw["crossover_washout_weeks"]
  if case["crossover"] and washout is None:
    ctx.rejects("crossover designs without washout weeks", es.generate_all_valid_designs, **kw)
    ctx.label("no washout")
    ctx.nontrivial = True
  else:
    got = ctx.sut(es.generate_all_valid_designs, **kw)
    want = collections.Counter()
    for runtime, pretest, top, bottom, post in itertools.product(*(case[k] for k in keys)):
      if pretest == 0 and (top > 0 or bottom > 0):
        continue
      common = (case["n"], runtime, case["metric"], pretest)
      if case["regular"]:
        want[common + (False, top, bottom, post, None)] += 1
      if case["crossover"] and runtime % 2 == 0 and runtime > 2 * washout:
        want[common + (True, top, bottom, post, washout)] += 1
    have = collections.Counter()
    for d in got:
      require(isinstance(d, ed.ExperimentDesign), f"{d!r} is no design")
      row = [getattr(d, f) for f in FIELDS]
      if not d.is_crossover:
        row[-1] = None
      have[tuple(row)] += 1
      n1, n2 = designs.counts(case["n"], d.pre_trim_top_percentile, d.pre_trim_bottom_percentile, d.post_trim_percentile)
      require((d.n_items_after_pre_trim, d.n_items_after_post_trim) == (n1, n2), f"item counts of {d!r}")
      require((d.alpha, d.power, d.coinflip_salt) == (0.05, 0.8, None), f"defaults of {d!r}")
    if have != want:
      raise core.Violation(f"missing designs {list((want - have).items())[:3]}, unexpected ones {list((have - want).items())[:3]}")
    require(len({d.design_id for d in got}) == len(got), "two designs have the same id")
    ctx.nontrivial = len(got) > 1
    ctx.label("crossover" if case["crossover"] else "", "regular" if case["regular"] else "", f"{min(len(got), 20)} designs")
  # the earliest start week
  runtime, pretest = max(case["runtime"]), max(case["pretest"])
  weeks = runtime + pretest + case["slack"]
  if weeks < 1:
    return
  ids = list(range(case["first"], case["first"] + weeks))
  rng = np.random.default_rng(case["s"])
  if case["s"] % 2:
    # only some of the weeks, in any order, with repetitions
    inner = [w for w in ids if rng.uniform() < 0.5]
    ids = [ids[0], ids[-1]] + inner + inner[:3]
    ids = [ids[j] for j in rng.permutation(len(ids))]
  history = [list, set, np.array, pd.Series][case["s"] // 2 % 4](ids)
  kw = dict(candidate_runtime_weeks=args["runtime"], candidate_pretest_weeks=args["pretest"], historical_week_ids=history)
  if weeks < runtime + pretest:
    ctx.rejects(f"{weeks} weeks for {runtime} + {pretest}", es.calculate_minimum_start_week_id, **kw)
    ctx.label("too few weeks")
  else:
    start = ctx.sut(es.calculate_minimum_start_week_id, **kw)
    require(start == case["first"] + pretest, f"start week {start}, want {case['first'] + pretest}")
    ctx.label("exactly enough weeks" if case["slack"] == 0 else "enough weeks")
  for key in list(kw):
    ctx.rejects(f"empty {key}", es.calculate_minimum_start_week_id, **dict(kw, **{key: []}))


# ---------------------------------------------------------------- history

HIST_KINDS = ["gamma", "gamma", "normal", "poisson", "sparse", "tiny", "huge", "profit", "counts", "constant_before"]


@st.composite
def history_case(
    draw, crossover=None, pretest=None, pre=None, post=True, max_n=160, missing=True, max_extra=3, max_half=3,
    kinds=HIST_KINDS,
):
  design = draw(designs.valid(
      max_n=max_n, crossover=crossover, pretest=pretest, pre=pre, post=post, max_pretest=4, max_half=max_half,
      text=st.sampled_from(["clicks", "impressions", "total_cost", "x y", "my_metric", "my__metric", "_m"])))
  return {
      "design": design,
      "kind": draw(st.sampled_from(kinds)),
      "s": draw(SEEDS),
      "first": draw(st.one_of(st.just(0), st.integers(-20, 300))),
      "before": draw(st.integers(0, 2)),
      "extra": draw(st.integers(0, max_extra)),
      "daily": draw(st.integers(0, 4)) == 0,
      "season": draw(st.sampled_from([0.0, 0.3, 2.0])),
      "noise": draw(st.sampled_from([0.1, 0.5, 1.0])),
      "missing": draw(st.sampled_from([0.0, 0.0, 0.1])) if missing else 0.0,
      "ids": draw(st.sampled_from(data.ID_KINDS)),
      "names": draw(st.sampled_from([
          ["item_id", "week_id"], ["item_id", "week_id"], ["sku", "wk"], ["Item", "Week"], ["my item", "week_nr"], ["item__id", "week_"]])),
      "order": draw(st.sampled_from(["shuffled", "sorted", "reversed"])),
      "columns": draw(st.booleans()),
      "period": draw(st.sampled_from([None, None, "phase", "p"])),
      "arm": draw(st.sampled_from([None, None, "group", "is_treated"])),
      "cat": draw(st.integers(0, 6)) == 0,
      "null": draw(st.integers(0, 6)) == 0,
  }


class History:
  """Historical data for a design, as an array and as a table."""

  def __init__(self, case):
    self.case = case
    rng = np.random.default_rng(case["s"])
    self.design = d = designs.make(case["design"])
    n = self.n = d.n_items_before_trimming
    per = 7 if case["daily"] else 1
    first = case["first"]
    self.min_start = first + case["before"] + d.pretest_weeks
    self.max_start = self.min_start + case["extra"]
    self.starts = list(range(self.min_start, self.max_start + 1))
    self.weeks = np.repeat(np.arange(first, self.max_start + d.runtime_weeks), per)
    units = len(self.weeks)
    kind = case["kind"]
    level = rng.lognormal(sigma=0.8, size=n)
    noise = rng.lognormal(sigma=case["noise"], size=(n, units))
    x = level[:, None] * noise * (1.0 + case["season"] * rng.uniform(size=units))[None, :]
    if kind == "normal":
      x = 10.0 + level[:, None] + rng.normal(size=(n, units)) * case["noise"]
    elif kind == "poisson":
      x = rng.poisson(20 * x).astype(float)
    elif kind == "counts":
      x = rng.poisson(x).astype(float)
    elif kind == "sparse":
      x = x * (rng.uniform(size=(n, units)) < 0.15)
    elif kind == "tiny":
      x = x * 1e-6
    elif kind == "huge":
      x = x * 1e7
    elif kind == "profit":
      x = x - 1.5
    elif kind == "constant_before":
      x[:, self.weeks < self.min_start] = 2.0
    self.x = x
    keep = rng.uniform(size=(n, units)) >= case["missing"]
    self.keep = keep
    item, week = case["names"]
    rows = np.argwhere(keep)
    if case["order"] == "shuffled":
      rows = rows[rng.permutation(len(rows))]
    elif case["order"] == "reversed":
      rows = rows[::-1]
    self.ids = [ident(case["ids"], int(i)) for i in rng.permutation(3 * n)[:n]]
    i, j = rows[:, 0], rows[:, 1]
    cols = {}
    if case["columns"]:
      cols["note"] = ["x"] * len(rows)
      cols["other"] = rng.normal(size=len(rows))
    v = x[i, j]
    cols[week] = self.weeks[j]
    cols[d.primary_metric] = v.astype(int) if kind in ("poisson", "counts") and case["s"] % 2 else v
    cols[item] = [self.ids[a] for a in i]
    self.frame = pd.DataFrame(cols)
    if case.get("cat"):
      self.frame[item] = data.categorical(self.frame[item])
    if case.get("null"):
      self.frame = self.frame.convert_dtypes()
    if case["order"] == "shuffled":
      self.frame.index = rng.permutation(len(rows)) + 3

  def average(self, start, period):
    w = np.array([period_of(self.design, int(k) - start) == period for k in self.weeks])
    v = np.where(self.keep, self.x, 0.0)[:, w]
    return np.array([math.fsum(r) for r in v]) / weeks_by_period(self.design)[period]

  def present(self, start):
    """Items with a row in the weeks of the design."""
    d = self.design
    inside = (self.weeks >= start - d.pretest_weeks) & (self.weeks < start + d.runtime_weeks)
    return self.keep[:, inside].any(axis=1)

  def rows_at(self, start):
    """The average of each item in every period, as columns."""
    return {p: self.average(start, p) for p in weeks_by_period(self.design)}

  def analysis(self, seed=0, frame=None, **kw):
    case = self.case
    if case["period"]:
      kw["time_period_column"] = case["period"]
    if case["arm"]:
      kw["treatment_column"] = case["arm"]
    return es.SimulationAnalysis(
        design=self.design, historical_data=self.frame if frame is None else frame,
        item_id_column=case["names"][0], week_id_column=case["names"][1],
        minimum_start_week_id=self.min_start, rng=np.random.default_rng(seed), **kw)


def week_stats(h, start):
  """Average, variance and how sure this is for one start week."""
  d = h.design
  rows = h.rows_at(start)
  sure = True
  kept = np.arange(h.n)
  if d.pretest_weeks:
    key = rows["pretest"]
    top = int(math.floor(d.pre_trim_top_percentile * h.n))
    bottom = int(math.floor(d.pre_trim_bottom_percentile * h.n))
    order = np.argsort(key, kind="stable")
    s = key[order]
    big = float(np.max(np.abs(key))) or 1.0
    if top and s[h.n - top] - s[h.n - top - 1] <= 1e-10 * big:
      sure = False
    if bottom and s[bottom] - s[bottom - 1] <= 1e-10 * big:
      sure = False
    kept = np.sort(order[bottom : h.n - top])
  q = d.post_trim_percentile
  if d.is_crossover:
    y1, y2 = rows["test_1"][kept], rows["test_2"][kept]
    t = Trim([y1 - y2, y1, y2], q)
    big = float(np.max(np.abs(np.stack([y1, y2])))) or 1.0
    if data.near_ties(y1 - y2, t.k, 1e-10 * big) and not t.settled:
      sure = False
    if data.near_ties(y1 - y2, t.k, 1e-10 * big):
      sure = False
    m1, m2 = t.mean(1), t.mean(2)
    average, variance = 0.5 * (m1 + m2), t.var(0, ddof=1)
    if q > 0:
      variance += (m1 - m2) ** 2
  else:
    y = rows["test"][kept]
    big = float(np.max(np.abs(y))) or 1.0
    if d.pretest_weeks:
      y = p_stats.cuped_reference(y, rows["pretest"][kept], q)
      if y is None:
        return None, None, False, big
    t = Trim([y], q)
    average, variance = t.mean(0), t.var(0, ddof=1)
  return average, variance, sure, big


# ---------------------------------------------------------------- C28


@st.composite
def estimate_case(draw):
  many = draw(st.integers(0, 19)) == 0
  case = draw(history_case(max_n=draw(st.sampled_from([80, 160, 400] + [1500] * many)), max_extra=3))
  if draw(st.integers(0, 9)) == 0:
    case["extra"] = draw(st.integers(4, 30))
    case["daily"] = False
  case["seeds"] = [draw(st.integers(0, 1000)), draw(st.integers(1001, 2000))]
  case["drop"] = draw(st.sampled_from([None, None, None, "item", "more"]))
  return case


@check("C28", "estimate", estimate_case, quick=1050, rule="every start week has a decided reference")
def c28(case, ctx):
  h = History(case)
  d = h.design
  before = h.frame.copy(deep=True)
  first = ctx.sut(h.analysis, case["seeds"][0])
  for name in ("minimum_detectable_effect", "relative_minimum_detectable_effect", "primary_metric_average",
               "primary_metric_standard_deviation"):
    require(getattr(first, name) is None, f"{name} is set before the estimation")
  item, week = case["names"]
  # all of the weeks have to be in the data, in spite of missing rows
  seen = h.frame[week]
  if seen.max() != h.weeks.max():
    return
  require(list(first.valid_start_week_ids) == h.starts, f"start weeks {first.valid_start_week_ids}, want {h.starts}")
  require(int(first.maximum_start_week_id) == h.max_start, f"last start week {first.maximum_start_week_id}")
  complete = all(h.present(s).all() for s in h.starts)
  # is every period present at every start?
  if complete:
    ctx.sut(first.estimate_minimum_detectable_effect)
  else:
    try:
      ctx.sut_called = True
      first.estimate_minimum_detectable_effect()
    except RuntimeError:
      ctx.label("items without rows")
      return
    raise core.Violation("accepted historical data with fewer items than the design in some weeks")
  unchanged(before, h.frame, "the historical data")
  fields = ("minimum_detectable_effect", "relative_minimum_detectable_effect", "primary_metric_average",
            "primary_metric_standard_deviation")
  have = [float(getattr(first, f)) for f in fields]
  again = ctx.sut(h.analysis, case["seeds"][0])
  ctx.sut(again.estimate_minimum_detectable_effect)
  for f, v in zip(fields, have):
    close(getattr(again, f), v, f"{f} of a repetition", 0.0)
  require(first.aa_simulation_results is None and first.ab_simulation_results is None, "there are simulation results")
  # a design with another number of items is rejected
  if case["drop"]:
    if case["drop"] == "item":
      other = h.frame[h.frame[item] != h.ids[case["s"] % h.n]]
    else:
      spare = h.frame[h.frame[item] == h.ids[case["s"] % h.n]].copy()
      spare[item] = 10**7 if case["ids"] in ("int", "float", "long") else "another"
      other = pd.concat([h.frame, spare])
    if set(other[week]) >= set(h.weeks.tolist()):
      bad = ctx.sut(h.analysis, 0, frame=other)
      try:
        bad.estimate_minimum_detectable_effect()
      except RuntimeError:
        pass
      except Exception as e:
        raise core.Violation(f"raised {e!r} for another number of items") from e
      else:
        raise core.Violation("accepted historical data with another number of items than the design")
  parts = [week_stats(h, s) for s in h.starts]
  if not all(p[2] for p in parts):
    ctx.label("undecided")
    return
  other = ctx.sut(h.analysis, case["seeds"][1])
  ctx.sut(other.estimate_minimum_detectable_effect)
  big = max(p[3] for p in parts)
  for f, v in zip(fields[2:], have[2:]):
    close(getattr(other, f), v, f"{f} with another random generator", 1e-9, 1e-9 * big)
  average = math.fsum(p[0] for p in parts) / len(parts)
  sd = math.sqrt(max(0.0, math.fsum(p[1] for p in parts) / len(parts)))
  close(have[2], average, "average", 1e-8, 1e-10 * big)
  close(have[3], sd, "standard deviation", 1e-7, 1e-7 * big)
  n2 = designs.counts(h.n, d.pre_trim_top_percentile, d.pre_trim_bottom_percentile, d.post_trim_percentile)[1]
  kind = "paired" if d.is_crossover else "ind"
  close(have[0], mde := p_stats.mde_reference(kind, sd, n2, "two-sided", d.power, d.alpha), "MDE", 1e-6, 1e-7 * big)
  if abs(average) > 1e-6 * big:
    close(have[1], mde / average, "relative MDE", 1e-6, 1e-7 * big / abs(average))
  ctx.nontrivial = True
  ctx.label(
      "crossover" if d.is_crossover else "regular", "daily" if case["daily"] else "weekly",
      f"pretest {bool(d.pretest_weeks)}", f"pre-trim {d.n_items_after_pre_trim < h.n}",
      f"post-trim {d.n_items_after_post_trim < d.n_items_after_pre_trim}", f"{len(h.starts)} starts")


# ---------------------------------------------------------------- C29


RESULT_FIELDS = ["is_significant", "alpha", "p_value", "statistic", "absolute_difference", "absolute_difference_lower_bound",
                 "absolute_difference_upper_bound", "standard_error", "sample_size", "degrees_of_freedom", "control_average"]


@st.composite
def simulate_case(draw):
  many = draw(st.integers(0, 19)) == 0
  case = draw(history_case(max_n=draw(st.sampled_from([70, 110, 300] + [1500] * many)), missing=False,
                           post=draw(st.booleans()), pre=draw(st.sampled_from([None, False]))))
  case["sims"] = draw(st.integers(1, 4))
  case["seed"] = draw(SEEDS)
  case["effect"] = draw(st.sampled_from([None, None, 0.0, 0.5, -0.3, 10.0]))
  case["bar"] = draw(st.integers(0, 5)) == 0
  case["again"] = draw(st.integers(1, 3))
  case["new_effect"] = draw(st.sampled_from([None, 0.25, -2.0]))
  return case


class Spy:
  """Keeps copies of what the simulations analyse."""

  def __init__(self):
    self.calls = []
    self.real = ea.analyze_single_metric

  def __enter__(self):
    def stand_in(*args, **kwargs):
      seen = copy.deepcopy((args, kwargs))
      out = self.real(*args, **kwargs)
      self.calls.append((seen, out))
      return out

    ea.analyze_single_metric = stand_in
    return self

  def __exit__(self, *unused):
    ea.analyze_single_metric = self.real

  def captured(self, aa, ab, metric, arm):
    """The analysed data of each simulation, if it is certain."""
    at = {}
    for (args, kwargs), out in self.calls:
      frames = [a for a in list(args) + list(kwargs.values()) if isinstance(a, pd.DataFrame)]
      if len(frames) != 1 or not isinstance(frames[0].index, pd.MultiIndex) or arm not in frames[0].index.names:
        return None
      if not isinstance(frames[0].columns, pd.MultiIndex) or metric not in frames[0].columns.get_level_values(0):
        return None
      for name, table in (("aa", aa), ("ab", ab)):
        for j in range(len(table)):
          if float(table["p_value"].iloc[j]) == out.p_value and float(table["absolute_difference"].iloc[j]) == out.absolute_difference:
            at.setdefault((name, j), []).append(frames[0])
    if len(self.calls) != len(aa) + len(ab) or len(at) != len(aa) + len(ab) or any(len(v) != 1 for v in at.values()):
      return None
    return {k: v[0] for k, v in at.items()}


def judge_resample(h, frame, metric, arm, what):
  """Every analysed row is an item of the history at one and the same start."""
  d = h.design
  item = h.case["names"][0]
  require(frame.index.is_unique, f"{what}: repeated items in the index")
  require(len(frame) == d.n_items_after_pre_trim, f"{what}: {len(frame)} items, want {d.n_items_after_pre_trim}")
  groups = frame.index.get_level_values(arm)
  require(set(groups) <= {0, 1}, f"{what}: groups {set(groups)}")
  periods = ["test_1", "test_2"] if d.is_crossover else ["test"]
  if d.pretest_weeks:
    periods.append("pretest")
  got = np.stack([frame[(metric, p)].values.astype(float) for p in periods])
  best = None
  for s in h.starts:
    rows = h.rows_at(s)
    ref = np.stack([rows[p] for p in periods])
    tol = 1e-9 * np.max(np.abs(ref))
    far = np.max(np.abs(got[:, :, None] - ref[:, None, :]), axis=0)
    hit = (far <= tol).any(axis=1)
    if best is None or hit.sum() > best[0]:
      best = (int(hit.sum()), s, far.argmin(axis=1))
  require(best[0] == len(frame), f"{what}: {len(frame) - best[0]} rows are no item of the history at start {best[1]}")
  del item
  return best[2]


@check("C29", "simulations", simulate_case, quick=625, rule="the A/A and A/B results are compared")
def c29(case, ctx):
  h = History(case)
  d = h.design
  before = h.frame.copy(deep=True)
  item, week = case["names"]
  metric = d.primary_metric
  arm = case["arm"] or "treatment"
  runs = []
  captured = None
  for r in range(2):
    sim = ctx.sut(h.analysis, case["seed"])
    if r == 0:
      try:
        sim.validate_design(n_simulations=1, progress_bar=False)
      except RuntimeError:
        pass
      except Exception as e:
        raise core.Violation(f"validation before estimation raised {e!r}") from e
      else:
        raise core.Violation("validation before estimation is accepted")
      sim = ctx.sut(h.analysis, case["seed"])
    ctx.sut(sim.estimate_minimum_detectable_effect)
    if case["effect"] is not None:
      sim.minimum_detectable_effect = case["effect"] * (abs(sim.primary_metric_average) or 1.0)
    with Spy() as spy:
      ctx.sut(sim.validate_design, n_simulations=case["sims"], progress_bar=case["bar"])
    runs.append(sim)
    if r == 0:
      captured = spy.captured(sim.aa_simulation_results, sim.ab_simulation_results, metric, arm)
  unchanged(before, h.frame, "the historical data")
  sim = runs[0]
  aa, ab = sim.aa_simulation_results, sim.ab_simulation_results
  mde = float(sim.minimum_detectable_effect)
  for name, table in (("A/A", aa), ("A/B", ab)):
    require(isinstance(table, pd.DataFrame) and len(table) == case["sims"], f"{name} results {table!r}")
    for f in RESULT_FIELDS:
      require(f in table.columns, f"{name} results have no {f}")
    require((table["alpha"] == d.alpha).all(), f"{name} alphas {table['alpha'].tolist()}, want {d.alpha}")
    require(((table["p_value"] < d.alpha) == table["is_significant"]).all(), f"{name} significance")
    require((table["sample_size"] == d.n_items_after_post_trim).all() or not d.is_crossover and (
        (table["sample_size"] - d.n_items_after_post_trim).abs() <= 2).all(),
            f"{name} sample sizes {table['sample_size'].tolist()}, want {d.n_items_after_post_trim}")
    want_df = d.n_items_after_post_trim - 1 if d.is_crossover else None
    if want_df:
      require((table["degrees_of_freedom"] == want_df).all(), f"{name} degrees of freedom")
    sd = table["absolute_difference"].std()
    if case["sims"] > 1 and sim.primary_metric_standard_deviation > 1e-6 * abs(sim.primary_metric_average) and case["kind"] != "sparse":
      require(sd > 0, f"{name} simulations are all the same")
  require(frame_same(aa, runs[1].aa_simulation_results) and frame_same(ab, runs[1].ab_simulation_results),
          "the same seed gives other results")
  untrimmed = d.post_trim_percentile * d.n_items_after_pre_trim < 1
  big = float(np.max(np.abs(h.x))) + abs(mde)
  gap = ab["absolute_difference"].values - aa["absolute_difference"].values
  exact = (not d.is_crossover and d.pretest_weeks == 0) or (d.is_crossover and d.post_trim_percentile == 0.0)
  if exact and (untrimmed or not d.is_crossover):
    n = d.n_items_after_pre_trim
    for j, g in enumerate(gap):
      if not d.is_crossover:
        # every observation moves alike, so trimming does not matter either
        close(g, mde, f"simulation {j}: A/B minus A/A", 1e-7, 1e-9 * big)
        close(ab["standard_error"][j], aa["standard_error"][j], f"simulation {j}: standard error", 1e-6, 1e-9 * big)
        close(ab["control_average"][j], aa["control_average"][j], f"simulation {j}: control average", 1e-7, 1e-9 * big)
      else:
        factor = g / mde if mde else 1.0
        shares = [4 * k * (n - k) / n**2 for k in range(n + 1)]
        require(mde == 0 and abs(g) <= 1e-9 * big or any(abs(g - mde * s) <= 1e-9 * big + 1e-7 * abs(mde) for s in shares),
                f"simulation {j}: A/B minus A/A is {g!r}, {factor:.4f} of the effect {mde!r}")
        require(mde == 0 or factor > 0.3 - 1e-8 * big / abs(mde), f"simulation {j}: {factor:.4f} of the effect")
    ctx.nontrivial = True
    ctx.label("exact difference")
  if d.is_crossover and mde:
    k = 1e-9 * big
    require((gap * np.sign(mde) > -k).all(), f"effect {mde!r} moved estimates by {gap.tolist()}")
  if captured is not None:
    ctx.label("captured")
    ctx.nontrivial = True
    for j in range(case["sims"]):
      one, two = captured["aa", j], captured["ab", j]
      drawn = judge_resample(h, one, metric, arm, f"A/A simulation {j}")
      distinct = len({tuple(r) for r in h.rows_at(h.starts[0])[("test_1" if d.is_crossover else "test")].reshape(-1, 1)})
      if distinct == h.n and d.n_items_after_pre_trim > 40:
        require(len(set(drawn.tolist())) < len(one), f"A/A simulation {j} drew no item twice")
      g1 = np.asarray(one.index.get_level_values(arm), dtype=int)
      g2 = np.asarray(two.index.get_level_values(arm), dtype=int)
      require(one.shape == two.shape and (g1 == g2).all() and one.index.equals(two.index), f"simulation {j}: other items or groups")
      for c in one.columns:
        add = np.zeros(len(one))
        if c == (metric, "test") and not d.is_crossover or c == (metric, "test_1") and d.is_crossover:
          add[g1 == 1] = mde
        elif c == (metric, "test_2") and d.is_crossover:
          add[g1 == 0] = mde
        allclose(two[c].values.astype(float), one[c].values.astype(float) + add, f"simulation {j}: A/B data in {c}", 1e-9, 1e-10 * big)
  ctx.label("crossover" if d.is_crossover else "regular")
  # validating again replaces the results
  sim = runs[1]
  if case.get("new_effect") is not None:
    sim.minimum_detectable_effect = mde = case["new_effect"] * (abs(sim.primary_metric_average) or 1.0)
    big = float(np.max(np.abs(h.x))) + abs(mde)
  ctx.sut(sim.validate_design, n_simulations=case.get("again", 2), progress_bar=False)
  aa2, ab2 = sim.aa_simulation_results, sim.ab_simulation_results
  require(len(aa2) == len(ab2) == case.get("again", 2),
          f"{len(aa2)} and {len(ab2)} results of {case.get('again', 2)} simulations after earlier ones")
  if sim.primary_metric_standard_deviation > 1e-6 * abs(sim.primary_metric_average) and case["kind"] != "sparse":
    old = set(aa["absolute_difference"]) - {0.0}
    require(not old or not old & set(aa2["absolute_difference"]), "old results are kept on validating again")
  if not d.is_crossover and d.pretest_weeks == 0:
    for j in range(case.get("again", 2)):
      close(ab2["absolute_difference"].iloc[j] - aa2["absolute_difference"].iloc[j], mde,
            f"simulation {j} of the second validation: A/B minus A/A", 1e-7, 1e-9 * big)
  # column names that are taken
  for name, kw in ((case["period"] or "time_period", {}),):
    if name not in h.frame:
      clash = h.frame.copy()
      clash[name] = 1
      bad = ctx.sut(h.analysis, 0, frame=clash)
      ctx.rejects("the period column exists", bad.estimate_minimum_detectable_effect)


def frame_same(a, b):
  try:
    pd.testing.assert_frame_equal(a, b, check_exact=True)
    return True
  except AssertionError:
    return False


@st.composite
def starts_case(draw):
  case = draw(history_case(max_n=60, missing=False, post=False, pre=False, max_half=2, pretest=draw(st.integers(0, 1)),
                           kinds=["normal"]))
  case.update(extra=draw(st.sampled_from([1, 1, 2, 3, 6])), daily=False, season=0.0, noise=0.1)
  case["seed"] = draw(SEEDS)
  case["each"] = draw(st.sampled_from([100, 100, 20, 5, 1]))
  case["fresh"] = draw(st.booleans())
  return case


@check("C29", "sampling", starts_case, quick=24, thorough=300, rule="the drawn weeks and items are counted")
def c29_starts(case, ctx):
  h = History(case)
  d = h.design
  sims = 100
  arm = case["arm"] or "treatment"
  frames, sim = [], None
  each = case.get("each", sims)
  for r in range(sims // each):
    if sim is None or case["fresh"]:
      sim = ctx.sut(h.analysis, case["seed"] + r)
      sim.minimum_detectable_effect = 0.25
    with Spy() as spy:
      ctx.sut(sim.validate_design, n_simulations=each, progress_bar=False)
    captured = spy.captured(sim.aa_simulation_results, sim.ab_simulation_results, d.primary_metric, arm)
    if captured is None:
      ctx.label("not captured")
      return
    frames += [captured["aa", j] for j in range(each)]
  ctx.label(f"{each} at a time")
  period = "test_1" if d.is_crossover else "test"
  refs = {s: h.rows_at(s)[period] for s in h.starts}
  weeks, items, treated, pairs, where = collections.Counter(), np.zeros(h.n), 0, [0, 0], collections.Counter()
  rows = 0
  spread = 0.0
  for j in range(sims):
    one = frames[j]
    v = one[(d.primary_metric, period)].values
    far = {s: np.abs(v[:, None] - r[None, :]) for s, r in refs.items()}
    start = min(far, key=lambda s: far[s].min(axis=1).max())
    weeks[start] += 1
    drawn = far[start].argmin(axis=1)
    np.add.at(items, drawn, 1)
    g = np.asarray(one.index.get_level_values(arm), dtype=int)
    treated += int(g.sum())
    rows += len(g)
    spread += (g.sum() - len(g) / 2) ** 2 / (len(g) / 4)
    # copies of one item are assigned independently
    for i in np.unique(drawn):
      copies = g[drawn == i]
      if len(copies) == 2:
        pairs[int(copies[0] == copies[1])] += 1
  p = stats.chisquare([weeks[s] for s in h.starts]).pvalue
  require(p > 1e-7, f"start weeks {dict(weeks)}")
  p = stats.chisquare(items).pvalue
  require(p > 1e-7, "items are not drawn with equal frequency", p)
  require(p < 1 - 1e-9, "items are drawn too regularly", p)
  require(stats.binomtest(treated, rows).pvalue > 1e-7, f"{treated} of {rows} are treated")
  require(min(stats.chi2.sf(spread, sims), stats.chi2.cdf(spread, sims)) > 1e-8,
          f"the sizes of the groups vary {spread / sims:.3f} times as much as those of independent items")
  require(stats.binomtest(pairs[1], sum(pairs)).pvalue > 1e-7, f"copies of an item: {pairs[1]} of {sum(pairs)} in the same group")
  ctx.nontrivial = True


@st.composite
def assign_case(draw):
  return {
      "n": draw(st.one_of(st.integers(1, 12), st.integers(1, 300))),
      "periods": draw(st.sampled_from([["test"], ["test", "pretest"], ["test_1", "test_2"], ["test_1", "test_2", "washout_1", "pretest"]])),
      "metrics": draw(st.lists(st.sampled_from(["clicks", "total_cost", "x y", "a_b_c", "m.1", "impressions", "_x", "y_", "a__b"]), min_size=1, max_size=3, unique=True)),
      "item": draw(st.sampled_from(["item_id", "sku", "my item", "index", "product_item_id", "_id", "sku__1"])),
      "arm": draw(st.sampled_from([None, "treatment", "group_1", "is treated"])),
      "ids": draw(st.sampled_from(data.ID_KINDS)),
      "copies": draw(st.sampled_from([1, 1, 2, 3])),
      "s": draw(SEEDS),
      "effect": draw(st.one_of(st.sampled_from([0.0, 1.0, -2.5]), st.floats(-100, 100))),
      "metric": draw(st.integers(0, 5)),
      "int": draw(st.booleans()),
      "order": draw(st.booleans()),
  }


@check("C29", "assignment", assign_case, quick=3125, rule="both groups occur")
def c29_assign(case, ctx):
  rng = np.random.default_rng(case["s"])
  n = case["n"]
  index = pd.MultiIndex.from_product([case["metrics"], case["periods"]], names=[None, None] if case["s"] % 2 else [None, "time_period"])
  values = rng.normal(size=(n * case["copies"], len(index)))
  if case["int"]:
    values = np.round(values * 10).astype(int)
  ids = [ident(case["ids"], i) for i in range(n)] * case["copies"]
  ids = [ids[j] for j in rng.permutation(len(ids))]
  frame = pd.DataFrame(values, columns=index, index=pd.Index(ids, name=case["item"]))
  if case["order"]:
    frame = frame[frame.columns[rng.permutation(len(index))]]
  flat = frame.reset_index()
  before = flat.copy(deep=True)
  arm = case["arm"] or "treatment"
  kw = {"treatment_column": case["arm"]} if case["arm"] else {}
  run = lambda seed, x=flat: ctx.sut(
      es.apply_random_treatment_assignment, x, rng=np.random.default_rng(seed), item_id_column=case["item"], **kw)
  got = run(case["s"])
  unchanged(before, flat, "the input")
  require(list(got.index.names) == [case["item"], arm], f"index {list(got.index.names)}")
  require(got.index.get_level_values(0).tolist() == ids, "the items changed")
  require(set(map(tuple, got.columns)) == set(map(tuple, frame.columns)), f"columns {list(got.columns)}")
  for c in frame.columns:
    allclose(got[tuple(c)].values, frame[c].values, f"values of {c}", 0.0)
  groups = [int(x) for x in got.index.get_level_values(1)]
  require(set(groups) <= {0, 1}, f"groups {set(groups)}")
  of = {}
  for i, g in zip(ids, groups):
    require(of.setdefault(i, g) == g, f"item {i} is in both groups")
  require(frame_same(got, run(case["s"])), "the same seed assigns differently")
  if n >= 70:
    k = sum(of.values())
    require(stats.binomtest(k, n).pvalue > 1e-9, f"{k} of {n} are treated")
    if case["s"] % 4 == 0:
      ks = [sum(dict(zip(ids, map(int, run(case["s"] + k).index.get_level_values(1)))).values()) for k in range(2, 14)]
      require(len(set(ks)) > 1, f"the number of treated items is always {ks[0]} of {n}")
    require([int(x) for x in run(case["s"] + 1).index.get_level_values(1)] != groups, "another seed assigns the same")
  ctx.rejects("a missing item column", es.apply_random_treatment_assignment, flat.drop(columns=case["item"], level=0),
              rng=rng, item_id_column=case["item"], **kw)
  taken = flat.copy()
  taken[(arm, "")] = 1
  ctx.rejects("an existing treatment column", es.apply_random_treatment_assignment, taken, rng=rng, item_id_column=case["item"], **kw)
  ctx.nontrivial = len(set(groups)) == 2
  # the effect
  crossover = case["periods"][0] == "test_1"
  design = designs.make(dict(
      n_items_before_trimming=100, runtime_weeks=4, primary_metric="clicks", pretest_weeks=2, is_crossover=crossover,
      pre_trim_top_percentile=0.0, pre_trim_bottom_percentile=0.0, post_trim_percentile=0.0, crossover_washout_weeks=1))
  metric = case["metrics"][case["metric"] % len(case["metrics"])]
  base = got.astype(float)
  kw = dict(metric_name=metric, design=design, effect_size=case["effect"], treatment_assignment_index_name=arm)
  out = ctx.sut(es.apply_synthetic_treatment_effect, base.copy(deep=True), **kw)
  require(out.index.equals(base.index) and list(out.columns) == list(base.columns), "the effect changed labels")
  g = np.array(groups)
  for c in base.columns:
    add = np.zeros(len(g))
    if c == (metric, "test") or c == (metric, "test_1"):
      add[g == 1] = case["effect"]
    elif c == (metric, "test_2"):
      add[g == 0] = case["effect"]
    allclose(out[c].values, base[c].values + add, f"{c} with the effect", 1e-12, 1e-12)
  for c in [(metric, p) for p in case["periods"] if p.startswith("test")]:
    ctx.rejects(f"no {c}", es.apply_synthetic_treatment_effect, base.assign(**{}).drop(columns=[c]), **kw)
  ctx.rejects("no group level", es.apply_synthetic_treatment_effect, base.droplevel(1), **kw)
  ctx.rejects("an unknown metric", es.apply_synthetic_treatment_effect, base, **dict(kw, metric_name="unknown"))


# ---------------------------------------------------------------- C30


@st.composite
def robust_case(draw):
  return {
      "designs": [draw(designs.valid(max_n=2000, max_half=4, max_pretest=4)) for _ in range(draw(st.integers(1, 4)))],
      "same": draw(st.lists(st.sampled_from(["n_items_before_trimming", "runtime_weeks", "primary_metric", "alpha", "power", "is_crossover",
                                            "pretest_weeks", "pre_trim_top_percentile", "pre_trim_bottom_percentile", "post_trim_percentile"]), max_size=6)),
      "states": [draw(st.sampled_from(["new", "estimated", "validated", "validated", "validated"])) for _ in range(4)],
      "all_validated": draw(st.booleans()),
      "n": [draw(st.one_of(st.integers(2, 30), st.integers(2, 300))) for _ in range(4)],
      "p": [draw(st.sampled_from(["uniform", "uniform", "low", "high", "edge", "zero_one", "middle"])) for _ in range(8)],
      "shift": [draw(st.sampled_from([0.0, 0.0, 0.05, 0.5, -2.0])) for _ in range(8)],
      "mde": [draw(st.one_of(st.floats(1e-4, 50), st.sampled_from([0.5, 1.0]))) for _ in range(4)],
      "rel": [draw(st.floats(-2, 2)) for _ in range(4)],
      "threshold": draw(st.sampled_from([None, None, 0.05, 0.5, 1e-12, 0.9])),
      "s": draw(SEEDS),
      "sort": draw(st.sampled_from([None, None, None, "minimum_detectable_effect", "n_items_before_trimming", "power", "alpha", "runtime_weeks",
                                    "post_trim_percentile", "pre_trim_top_percentile", "simulated_false_positive_rate",
                                    "simulated_power_at_minimum_detectable_effect"])),
      "columns": draw(st.sampled_from([None, True, False])),
      "tuple": draw(st.booleans()),
  }


PASSES = ["null_p_value", "power", "false_positive_rate", "aa_point_estimate", "ab_point_estimate"]
FIGURES = ["simulated_false_positive_rate", "simulated_power_at_minimum_detectable_effect"]


def p_values(kind, rng, n, alpha):
  if kind == "uniform":
    return rng.uniform(size=n)
  if kind == "low":
    return rng.uniform(size=n) ** 3
  if kind == "high":
    return 1 - rng.uniform(size=n) ** 2
  if kind == "edge":
    return rng.choice([alpha, math.nextafter(alpha, 0), math.nextafter(alpha, 1), 0.5], size=n)
  if kind == "middle":
    return 0.3 + 0.4 * rng.uniform(size=n)
  return rng.integers(0, 2, size=n).astype(float)


def t_test(x, mu):
  x = np.asarray(x, dtype=float)
  n = len(x)
  m = math.fsum(x) / n
  sd = math.sqrt(math.fsum((x - m) ** 2) / (n - 1))
  return 2 * stats.t.sf(abs(m - mu) / (sd / math.sqrt(n)), n - 1)


def binomial_tail(k, n, p, greater):
  ks = range(k, n + 1) if greater else range(0, k + 1)
  return min(1.0, math.fsum(math.exp(
      math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p)) for i in ks))


@check("C30", "figures", robust_case, quick=1800, rule="at least one analysis is validated")
def c30(case, ctx):
  rng = np.random.default_rng(case["s"])
  specs = [dict(d) for d in case["designs"]]
  base = specs[0]
  analyses, wants, made = [], [], []
  for j, spec in enumerate(specs):
    shared = {k: base[k] for k in case["same"]}
    for attempt in ({**spec, **shared}, spec):
      try:
        design = designs.make(attempt)
        break
      except ValueError:
        continue
    state = "validated" if case["all_validated"] else case["states"][j]
    frame = pd.DataFrame({"i": [1], "w": [50], design.primary_metric: [1.0]})
    kw = {} if case["threshold"] is None else {"robustness_p_value_threshold": case["threshold"]}
    limit = 0.0001 if case["threshold"] is None else case["threshold"]
    a = ctx.sut(es.SimulationAnalysis, design=design, historical_data=frame, item_id_column="i", week_id_column="w",
                minimum_start_week_id=8, rng=np.random.default_rng(0), **kw)
    mde = case["mde"][j]
    want = dict.fromkeys(FIGURES + [f"{p}_robustness_p_value" for p in PASSES] + [f"{p}_robustness_check_pass" for p in PASSES]
                         + ["all_robustness_checks_pass", "minimum_detectable_effect", "relative_minimum_detectable_effect"])
    if state != "new":
      a.minimum_detectable_effect = want["minimum_detectable_effect"] = mde
      a.relative_minimum_detectable_effect = want["relative_minimum_detectable_effect"] = case["rel"][j]
    if state == "validated":
      n = case["n"][j]
      pa = p_values(case["p"][2 * j], rng, n, design.alpha)
      pb = p_values(case["p"][2 * j + 1], rng, n, design.alpha)
      da = mde * (case["shift"][2 * j] + rng.normal(size=n))
      db = mde * (1 + case["shift"][2 * j + 1] + rng.normal(size=n))
      index = rng.permutation(n) if case["s"] % 2 else None
      a.aa_simulation_results = pd.DataFrame({"p_value": pa, "absolute_difference": da, "is_significant": pa < design.alpha}, index=index)
      a.ab_simulation_results = pd.DataFrame({"absolute_difference": db, "is_significant": pb < design.alpha, "p_value": pb})
      ka, kb = int(sum(pa < design.alpha)), int(sum(pb < design.alpha))
      s = np.sort(pa)
      dist = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
      ps = [min(1.0, max(0.0, stats.kstwo.sf(dist, n))), binomial_tail(kb, n, design.power, False),
            binomial_tail(ka, n, design.alpha, True), t_test(da, 0.0), t_test(db, mde)]
      want[FIGURES[0]], want[FIGURES[1]] = ka / n, kb / n
      for name, p in zip(PASSES, ps):
        want[f"{name}_robustness_p_value"] = p
        close_call = abs(p - limit) <= 1e-6 * limit
        want[f"{name}_robustness_check_pass"] = "any" if close_call else p >= limit
      passes = [want[f"{name}_robustness_check_pass"] for name in PASSES]
      want["all_robustness_checks_pass"] = "any" if "any" in passes else all(passes)
      ctx.nontrivial = True
      ctx.label("all pass" if want["all_robustness_checks_pass"] is True else "some fail")
    ctx.label(state)
    for name, w in want.items():
      try:
        g = getattr(a, name)
      except Exception as e:
        raise core.Violation(f"{name} of a {state} analysis raised {e!r}") from e
      if w is None:
        require(g is None, f"{name} of a {state} analysis is {g!r}")
      elif w == "any" and not isinstance(w, float):
        want[name] = bool(g)
      elif isinstance(w, (bool, np.bool_)):
        require(bool(g) == bool(w) and g is not None, f"{name} is {g!r}, want {w}")
      else:
        close(g, w, name, 1e-6, 1e-12)
        want[name] = g
    if state == "validated" and all(want[f"{name}_robustness_p_value"] > 0 for name in PASSES):
      # thresholds that equal a p-value or just exceed it
      name = PASSES[case["s"] % len(PASSES)]
      p = float(getattr(a, f"{name}_robustness_p_value"))
      for level, passes in ((p, True), (math.nextafter(p, 2.0), False)):
        a.robustness_p_value_threshold = level
        require(bool(getattr(a, f"{name}_robustness_check_pass")) == passes, f"{name} with {p!r} at the threshold {level!r}")
      a.robustness_p_value_threshold = limit
    # the summary of one analysis
    kept = dataclasses.asdict(design)
    summary = ctx.sut(a.summary_dict)
    require(dataclasses.asdict(design) == kept, f"the summary changes the design from {kept} to {dataclasses.asdict(design)}")
    expected = {k: v for k, v in dataclasses.asdict(design).items() if k != "coinflip_salt"}
    expected["design_id"] = design.design_id
    for k, v in want.items():
      if not k.endswith("p_value"):
        expected[k] = v
    require(set(summary) == set(expected), f"summary keys {sorted(set(summary) ^ set(expected))}")
    for k, v in expected.items():
      g = summary[k]
      ok = g is None if v is None else g == v
      require(ok, f"summary: {k} is {g!r}, want {v!r}")
    analyses.append(a)
    wants.append(expected)
  # the table
  given = tuple(analyses) if case["tuple"] else analyses
  kw = {"sort_by": case["sort"]} if case["sort"] else {}
  kept = [dataclasses.asdict(a.design) for a in analyses]
  table = ctx.sut(es.make_analysis_summary_dataframe, given, **kw)
  require([dataclasses.asdict(a.design) for a in analyses] == kept, "the table of summaries changes the designs")
  require(table.index.name == "design_id" and len(table) == len(analyses), f"index {table.index!r}")
  require(set(table.columns) == set(wants[0]) - {"design_id"}, f"columns {sorted(set(table.columns) ^ set(wants[0]))}")
  missing = lambda x: x is None or isinstance(x, float) and x != x
  have = [{**{c: table[c].iloc[r] for c in table.columns}, "design_id": table.index[r]} for r in range(len(table))]
  left = list(wants)
  for row in have:
    for w in left:
      if all(missing(row[k]) if v is None else (not missing(row[k]) and row[k] == v) for k, v in w.items()):
        left.remove(w)
        break
    else:
      raise core.Violation(f"the summary has the row {row}, which is none of {left}")
  by = case["sort"] or "relative_minimum_detectable_effect"
  keys = [math.inf if missing(r[by]) else r[by] for r in have]
  require(keys == sorted(keys), f"{by} is in the order {keys}")
  judge_display(ctx, case, table, have, missing)


DESIGN_COLUMNS = [
    "primary_metric", "alpha", "power", "n_items_before_trimming", "n_items_after_pre_trim", "n_items_after_post_trim",
    "runtime_weeks", "pretest_weeks", "pre_trim_top_percentile", "pre_trim_bottom_percentile", "post_trim_percentile", "is_crossover"]
PERCENT = ["relative_minimum_detectable_effect", "pre_trim_top_percentile", "pre_trim_bottom_percentile", "post_trim_percentile"] + FIGURES


def judge_display(ctx, case, table, have, missing):
  if table.index.duplicated().any():
    return  # pandas cannot style those
  before = table.copy(deep=True)
  kw = {} if case["columns"] is None else {"with_validation_columns": case["columns"]}
  shown = ctx.sut(es.format_analysis_summary_dataframe, table, **kw)
  unchanged(before, table, "the summary")
  html = Table(ctx.sut(shown.to_html))
  header = ["_".join(h[0].lower().split()) for h in html.header(1)]
  constant = [c for c in DESIGN_COLUMNS if len({str(r[c]) for r in have}) == 1]
  want = [c for c in table.columns if c not in constant]
  if case["columns"] is False:
    want = [c for c in want if not c.endswith("_pass") and not c.startswith("simulated_")]
  require(header == want, f"the display has the columns {header}, want {want}")
  caption = html.caption["text"]
  named = dict(x.split(" = ") for x in caption[caption.rindex(":") + 1 :].split(",") if " = " in x)
  named = {k.strip(): v.strip() for k, v in named.items()}
  require(sorted(named) == sorted(constant), f"the caption names {sorted(named)}, want {sorted(constant)}")
  for c in constant:
    v = have[0][c]
    if isinstance(v, str) or isinstance(v, (bool, np.bool_)):
      require(named[c] == str(v), f"the caption says {c} = {named[c]}, want {v}")
    else:
      close(float(named[c]), float(v), f"{c} in the caption", 1e-9)
  body = html.body()
  require([h for h, _ in body] == [[r["design_id"]] for r in have], "the display has other rows")
  for (_, cells), row in zip(body, have):
    for c, cell in zip(want, cells):
      v, text = row[c], cell["text"].strip()
      css = html.styles_of(cell)
      if missing(v):
        require(any(x.startswith("opacity:0") for x in css) or text in ("", "nan", "None", "NaN", "nan%") and not c.endswith("_pass"),
                f"a missing {c} is shown as {text!r} with {sorted(css)}")
        require(not any("lightgreen" in x or "darkred" in x for x in css), f"a missing {c} has the style {sorted(css)}")
      elif c in PERCENT:
        require(text == f"{float(v):.2%}", f"{c} is shown as {text!r}, want {float(v):.2%}")
      elif c.endswith("_pass"):
        require(text == str(bool(v)), f"{c} is shown as {text!r}, want {v}")
        color = "background-color:" + ("lightgreen" if v else "darkred")
        require(color in css, f"{c} = {v} has the style {sorted(css)}")
      elif isinstance(v, (str, bool, np.bool_)):
        require(text == str(v), f"{c} is shown as {text!r}, want {v}")
      else:
        close(float(text), float(v), f"{c} in the display", 1e-4, 1e-6)
  ctx.label("displayed")


# ---------------------------------------------------------------- C31


@st.composite
def promise_case(draw, pre=False, max_n=400):
  crossover = draw(st.booleans())
  half = draw(st.integers(1, 2))
  pretest = draw(st.integers(1, 3)) if pre else draw(st.sampled_from([0, 1, 3]))
  n = draw(st.integers(180, max_n))
  top = draw(st.sampled_from([0.0, 0.1, 0.2])) if pre else 0.0
  bottom = draw(st.sampled_from([0.0, 0.15])) if pre else 0.0
  post_trim = draw(st.sampled_from([0.0, 0.1, 0.02, 0.0, 0.2, 0.01]))
  # Trimmed crossovers are documented not to remove the period means. Their
  # differences then have two modes, and heavy trimming takes from both, which
  # no estimate of the variance around one mode can foresee.
  trends = [0.0] if crossover and post_trim > 0.02 else [0.0, 0.0, 0.3, -1.0]
  return {
      "design": {
          "n_items_before_trimming": n, "primary_metric": "clicks", "is_crossover": crossover,
          "runtime_weeks": 2 * half if crossover else draw(st.integers(1, 3)),
          "crossover_washout_weeks": draw(st.integers(0, half - 1)) if crossover else None,
          "pretest_weeks": pretest, "pre_trim_top_percentile": top, "pre_trim_bottom_percentile": bottom,
          "post_trim_percentile": post_trim,
          "alpha": draw(st.sampled_from([0.05, 0.1, 0.2])), "power": draw(st.sampled_from([0.5, 0.7, 0.8, 0.9])),
      },
      "levels": draw(st.sampled_from(["normal", "gamma", "same"])),
      "noise": draw(st.sampled_from([0.5, 1.0, 3.0])),
      "trend": draw(st.sampled_from(trends)),
      "order": draw(st.sampled_from([0, 0, 1, -1])),
      "s": draw(SEEDS),
  }


REPEATS = 2500


class Panel:
  """A fixed set of items with stationary weekly values around a common trend."""

  def __init__(self, case):
    self.case, self.design = case, designs.make(case["design"])
    self.rng = rng = np.random.default_rng(case["s"])
    n = self.n = self.design.n_items_before_trimming
    self.level = {"normal": lambda: rng.normal(scale=2.0, size=n), "gamma": lambda: rng.gamma(2.0, size=n),
                  "same": lambda: np.zeros(n)}[case["levels"]]() + 30.0
    if case.get("order"):
      self.level = np.sort(self.level)[:: case["order"]]

  def weekly(self, weeks):
    weeks = np.asarray(weeks)
    noise = self.rng.normal(size=(self.n, len(weeks))) * self.case["noise"]
    return self.level[:, None] + noise + self.case["trend"] * (weeks - weeks[0])[None, :]

  def effect(self, ctx):
    """The estimated minimum detectable effect."""
    d = self.design
    total = d.pretest_weeks + d.runtime_weeks + 40
    weeks = np.arange(total)
    v = self.weekly(weeks)
    i, j = np.indices(v.shape)
    frame = pd.DataFrame({"item_id": i.ravel(), "week_id": weeks[j.ravel()], "clicks": v.ravel()})
    sim = ctx.sut(es.SimulationAnalysis, design=d, historical_data=frame, item_id_column="item_id", week_id_column="week_id",
                  minimum_start_week_id=d.pretest_weeks, rng=np.random.default_rng(1))
    ctx.sut(sim.estimate_minimum_detectable_effect)
    self.sim = sim
    return float(sim.minimum_detectable_effect)

  def judge(self, ctx, effect, results, slack=1.0):
    """results: for no effect and the effect, a list of (significant, estimate, low, high)."""
    d = self.design
    n = len(results[0])
    for truth, rows in zip((0.0, effect), results):
      hits = sum(bool(r[0]) for r in rows)
      estimates = np.array([float(r[1]) for r in rows])
      covered = sum(float(r[2]) <= truth <= float(r[3]) for r in rows)
      if truth == 0.0:
        lo, hi, what = d.alpha - slack * (0.2 * d.alpha + 0.005), d.alpha + slack * (0.2 * d.alpha + 0.01), "false positives"
      else:
        lo, hi, what = d.power - 0.05 * slack, d.power + 0.05 * slack, "true positives"
      low_p, high_p = stats.binom.cdf(hits, n, max(lo, 0.0)), stats.binom.sf(hits - 1, n, min(hi, 1.0))
      require(min(low_p, high_p) > 1e-7, f"{hits} of {n} {what}, with alpha {d.alpha} and power {d.power}")
      goal = 1 - d.alpha
      low_p = stats.binom.cdf(covered, n, goal - slack * (0.2 * d.alpha + 0.01))
      high_p = stats.binom.sf(covered - 1, n, min(1.0, goal + slack * (0.2 * d.alpha + 0.005)))
      require(min(low_p, high_p) > 1e-7, f"{covered} of {n} intervals cover the effect {truth:.4g}, with alpha {d.alpha}")
      se = estimates.std(ddof=1) / math.sqrt(n)
      require(abs(estimates.mean() - truth) < 5.6 * se + slack * 0.012 * abs(truth), f"estimates average {estimates.mean():.5g}, the effect is {truth:.5g} (error {se:.3g})")
    ctx.nontrivial = True
    ctx.label("crossover" if d.is_crossover else "regular", f"pretest {bool(d.pretest_weeks)}", f"post-trim {bool(d.post_trim_percentile)}")


@check("C31", "analysis", promise_case, quick=40, thorough=600, rule="error rates are counted over 2500 experiments")
def c31(case, ctx):
  panel = Panel(case)
  d = panel.design
  effect = panel.effect(ctx)
  weeks = np.arange(-d.pretest_weeks, d.runtime_weeks)
  periods = np.array([str(period_of(d, int(w))) for w in weeks])
  results = [[], []]
  for r in range(REPEATS):
    v = panel.weekly(weeks)
    g = panel.rng.integers(0, 2, size=panel.n)
    averages = {p: v[:, periods == p].mean(axis=1) for p in set(periods)}
    for k, e in enumerate((0.0, effect)):
      cols = {("clicks", p): a.copy() for p, a in averages.items()}
      for p, arm in (("test", 1), ("test_1", 1), ("test_2", 0)):
        if p in averages:
          cols[("clicks", p)][g == arm] += e
      pivot = pd.DataFrame(cols)
      pivot.index = pd.MultiIndex.from_arrays([np.arange(panel.n), g], names=["item_id", "treatment_assignment"])
      out = ctx.sut(ea.analyze_single_metric, pivot, design=d, metric_name="clicks")
      results[k].append((out.is_significant, out.absolute_difference, out.absolute_difference_lower_bound, out.absolute_difference_upper_bound))
  panel.judge(ctx, effect, results, slack=0.5)


@check("C31", "pipeline", lambda: promise_case(pre=True, max_n=260), quick=16, thorough=160, rule="error rates are counted over 150 experiments")
def c31_pipeline(case, ctx):
  panel = Panel(case)
  d = panel.design
  effect = panel.effect(ctx)
  first = 20
  weeks = np.arange(first - d.pretest_weeks, first + d.runtime_weeks)
  periods = np.array([str(period_of(d, int(w) - first)) for w in weeks])
  i, j = np.indices((panel.n, len(weeks)))
  i, j = i.ravel(), j.ravel()
  metric = ea.Metric(name="Clicks", column="clicks")
  results, rejected = [[], []], 0
  for r in range(150):
    v = panel.weekly(weeks)
    frame = pd.DataFrame({"item_id": i, "week_id": weeks[j], "clicks": v.ravel()})
    design = dataclasses.replace(d, coinflip_salt=f"{case['s']}-{r}")
    try:
      arms = dp.perform_treatment_assignment(frame[frame["week_id"] < first], design=design,
                                             rng=np.random.default_rng(r), item_id_column="item_id", week_id_column="week_id")
    except ValueError as e:
      # one in a thousand assignments has a sample ratio mismatch
      rejected += 1
      require(rejected < 8, f"assignments are rejected: {e!r}")
      continue
    arms = dict(zip(arms["item_id"], arms["treatment_assignment"]))
    arm = np.array([arms.get(a, -1) for a in i])
    treated = (arm == 1) & np.isin(periods[j], ["test", "test_1", "washout_1"]) | (arm == 0) & np.isin(periods[j], ["test_2", "washout_2"])
    frame["treatment_assignment"] = arm
    for k, e in enumerate((0.0, effect)):
      data_ = frame.copy()
      data_["clicks"] += e * treated
      data_["week_id"] -= first
      out = ctx.sut(ea.analyze_experiment, data_[arm >= 0], metrics=[metric], design=design).iloc[0]
      results[k].append((out["is_significant"], out["absolute_difference"], out["absolute_difference_lower_bound"], out["absolute_difference_upper_bound"]))
  panel.judge(ctx, effect, results)


@check("C31", "validation", promise_case, quick=24, thorough=240, rule="every case validates a sound design")
def c31_validate(case, ctx):
  panel = Panel(case)
  effect = panel.effect(ctx)
  sims = 120
  sim = panel.sim
  ctx.sut(sim.validate_design, n_simulations=sims, progress_bar=False)
  rows = []
  for table in (sim.aa_simulation_results, sim.ab_simulation_results):
    rows.append(list(zip(table["is_significant"], table["absolute_difference"], table["absolute_difference_lower_bound"], table["absolute_difference_upper_bound"])))
  panel.judge(ctx, effect, rows)
  require(sim.null_p_value_robustness_p_value > 1e-9, "p-values of A/A simulations", sim.null_p_value_robustness_p_value)
