"""C35: the whole workflow, from the raw tables to the results."""
import io
import math
import os
import tempfile

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from pbt import core, data, designs
from pbt.core import check, require, unchanged
from pbt.data import SEEDS
from pbt.p_analysis import Experiment, judge_row
from pbt.p_design import parity, srm_p
from pbt.p_prep import DAYS, STANDARD, day, ident, period_of
from feedx import data_preparation as dp
from feedx import experiment_analysis as ea
from feedx import experiment_design as ed
from feedx import experiment_simulations as es

OTHERS = ["profit", "my value"]
# text that reading a CSV file would take for something else
SHEET_ONLY = {"padded", "tricky"}


SALT = st.one_of(st.text("abcdef0123456789", min_size=1, max_size=20), st.text(" aAbB9_-.é日", min_size=1, max_size=12))


@st.composite
def flow_case(draw):
  primary = draw(st.sampled_from(["clicks", "clicks", "conversions", "total_cost", "my value"]))
  spec = draw(designs.valid(max_n=150, max_pretest=3, max_half=2, text=st.just(primary),
                            salts=st.one_of(st.none(), SALT)))
  spec["alpha"], spec["power"] = 0.05, 0.8
  if draw(st.booleans()):
    spec["alpha"] = draw(st.one_of(st.sampled_from([0.01, 0.1, 0.2]), st.floats(0.005, 0.3)))
    spec["power"] = draw(st.one_of(st.just(0.8), st.floats(0.5, 0.95)))
  files = draw(st.sampled_from(["csv", "sheet", "frame"]))
  kinds = [k for k in data.ID_KINDS if k not in SHEET_ONLY or files != "csv"]
  weekly = draw(st.integers(0, 5)) == 0
  more = [m for m in STANDARD if m != primary and draw(st.integers(0, 2)) == 0]
  return {
      "design": spec,
      "ids": draw(st.sampled_from(kinds)),
      "files": files,
      "s": draw(SEEDS),
      "history_first": draw(DAYS),
      "history_weekly": draw(st.integers(0, 3)) == 0,
      "history_extra": draw(st.integers(0, 3)),
      "history_tail": draw(st.sampled_from([0, 0, 1, 6])),
      "later": draw(st.integers(0, 30)),
      "weekly": weekly,
      "density": draw(st.sampled_from([0.15, 0.5, 0.9, 1.0])),
      "cut": 0 if weekly else draw(st.sampled_from([0, 0, 0, 1, 3, 6, 9])),
      "unseen": draw(st.sampled_from([0, 0, 0.02, 0.1])),
      "strangers": draw(st.sampled_from([0, 0, 7])),
      "metrics": more,
      "effect": draw(st.sampled_from([0.0, 0.0, 0.1, -0.3])),
      "values": [draw(st.sampled_from(["int", "int", "float"])) for _ in range(7)],
      "flag": draw(st.booleans()),
      "override": draw(st.sampled_from([None, None, 0.0, 0.1])),
      "names": draw(st.sampled_from([
          ["item_id", "date", "treatment_assignment", "{}"], ["Item ID", "Day", "Treatment Assignment", "{} raw"],
          ["product_id", "data_date", "arm", "{}"]])),
      "moved": draw(st.booleans()),
  }


def as_text(frame):
  """The table as a Google sheet gives it: nothing but text."""
  out = {}
  for c in frame.columns:
    out[c] = [v.strftime("%Y-%m-%d") if isinstance(v, pd.Timestamp) else str(v) for v in frame[c].tolist()]
  return pd.DataFrame(out)


def through(files, frame):
  """The table after it was stored and read again."""
  if files == "csv":
    return pd.read_csv(io.StringIO(frame.to_csv(index=False)))
  if files == "sheet":
    return as_text(frame)
  return frame.copy()


def draw_values(kind, rng, level):
  if kind == "int":
    return rng.poisson(2.0 * level)
  return np.round(level * rng.exponential(size=len(level)), 5)


class Flow(Experiment):
  """The experiment as a naive reading of the raw rows gives it."""

  def __init__(self, design, group, values, days):  # pylint: disable=super-init-not-called
    self.design, self.group, self.x = design, np.array(group), values
    self.n = len(group)
    self.periods = [period_of(design, math.floor(d / 7)) for d in days]
    self.keep = np.ones((self.n, len(days)), dtype=bool)


@check("C35", "raw_tables_to_results", flow_case, quick=1050,
       rule="at least one metric has a decided reference and rows are missing, items trimmed or files used")
def c35(case, ctx):
  rng = np.random.default_rng(case["s"])
  spec, files = dict(case["design"]), case["files"]
  primary = spec["primary_metric"]
  item, date, arm, form = case["names"]
  n, pretest = spec["n_items_before_trimming"], spec["pretest_weeks"]
  tricky = case["ids"] == "tricky"
  number = rng.permutation(n + case["strangers"] if tricky else 3 * n + 20)[: n + case["strangers"]]
  raw_ids = [ident(case["ids"], i) for i in number]
  ids = [str(i) for i in raw_ids]
  level = np.round(rng.lognormal(sigma=0.7, size=len(ids)), 6) + 0.05

  # ---- the first session: history, design, assignment
  step = 7 if case["history_weekly"] else 1
  weeks = max(2, pretest + case["history_extra"])
  length = weeks if step == 7 else 7 * weeks + case["history_tail"]
  keep = rng.uniform(size=(n, length)) < case["density"]
  keep[np.arange(n), rng.integers(0, length, size=n)] = True
  keep[rng.integers(0, n, size=length), np.arange(length)] = True
  cells = np.argwhere(keep)
  cells = cells[rng.permutation(len(cells))]
  column = form.format(primary)
  if primary not in STANDARD:
    column = primary
  v = draw_values(case["values"][0], rng, level[cells[:, 0]])
  history = through(files, pd.DataFrame({
      item: [raw_ids[i] for i in cells[:, 0]], "campaign": ["x"] * len(cells),
      date: [day(case["history_first"] + step * int(d)) for d in cells[:, 1]], column: v}))
  history0 = history.copy(deep=True)
  prepared = ctx.sut(
      dp.prepare_and_validate_historical_data, history, item_id_column=item, date_column=date,
      primary_metric=primary if primary in STANDARD else "other", primary_metric_column=column,
      rng=np.random.default_rng(case["s"]))
  unchanged(history0, history, "the raw history")
  require(prepared["item_id"].nunique() == n, f"{prepared['item_id'].nunique()} items in the history, want {n}")
  require(sorted(prepared["week_id"].unique()) == list(range(weeks)), "weeks of the history")

  crossover = spec["is_crossover"]
  found = ctx.sut(
      es.generate_all_valid_designs, n_items_before_trimming=prepared["item_id"].nunique(),
      crossover_design_allowed=crossover, traditional_design_allowed=not crossover,
      candidate_runtime_weeks=[spec["runtime_weeks"]], candidate_pretest_weeks=[pretest],
      candidate_pre_trim_top_percentiles=[spec["pre_trim_top_percentile"]],
      candidate_pre_trim_bottom_percentiles=[spec["pre_trim_bottom_percentile"]],
      candidate_post_trim_percentiles=[spec["post_trim_percentile"]],
      primary_metric=primary, crossover_washout_weeks=spec["crossover_washout_weeks"])
  require(len(found) == 1, f"{len(found)} designs for one combination that can be run")
  want_design = designs.make(dict(
      spec, alpha=0.05, power=0.8, crossover_washout_weeks=spec["crossover_washout_weeks"] if crossover else None))
  require(found[0].design_id == want_design.design_id, f"the design is {found[0]!r}, want {want_design!r}")
  design = found[0] if (spec["alpha"], spec["power"]) == (0.05, 0.8) else designs.make(spec)
  for attempt in range(6):
    design.coinflip_salt = spec["coinflip_salt"] if attempt == 0 else (None if not spec["coinflip_salt"] else f"s{attempt}")
    ctx.sut_called = True
    try:
      assignment = dp.perform_treatment_assignment(
          prepared, design=design, rng=np.random.default_rng(case["s"]), item_id_column="item_id",
          week_id_column="week_id")
      break
    except ValueError as e:
      # one of thousand salts gives a lopsided assignment
      if attempt > 4:
        raise core.Violation(f"no salt gives an assignment: {e}") from e
  salt = design.coinflip_salt
  chosen = assignment["item_id"].tolist()

  # ---- which items they have to be: totals of the last complete weeks
  def count(f):
    return int(math.floor(f * n))

  top, bottom = count(spec["pre_trim_top_percentile"]), count(spec["pre_trim_bottom_percentile"])
  require(len(set(chosen)) == len(chosen) == n - top - bottom, f"{len(chosen)} items, want {n - top - bottom}")
  require(set(chosen) <= set(ids[:n]), "an assigned item is not in the history")
  if top or bottom:
    total = np.zeros(n)
    for (i, d), x in zip(cells, v):
      if weeks - pretest <= d * step // 7 < weeks:
        total[i] += x
    s = np.sort(total)
    eps = 1e-9 * max(s[-1], 1e-9)
    lo, hi = (s[bottom] if bottom else -1.0), (s[n - top - 1] if top else math.inf)
    for i, t in zip(ids[:n], total):
      if i in set(chosen):
        require(lo - eps <= t <= hi + eps, f"item {i!r} with {primary} {t} should have been trimmed, kept are [{lo}, {hi}]")
      else:
        require(not lo + eps < t < hi - eps, f"item {i!r} with {primary} {t} is missing, kept are [{lo}, {hi}]")
  for i, g in zip(chosen, assignment["treatment_assignment"].tolist()):
    require(g == parity(salt, i), f"item {i!r} is in group {g!r}")

  # ---- stored and loaded in another session
  fd, path = tempfile.mkstemp(suffix=".yaml", dir=os.environ.get("VERIF_SCRATCH"))
  os.close(fd)
  try:
    ctx.sut(design.write_to_yaml, path)
    loaded = ctx.sut(ed.ExperimentDesign.load_from_yaml, path)
  finally:
    os.unlink(path)
  require(loaded.design_id == design.design_id and str(loaded) == str(design), "the loaded design differs")
  for field in spec:
    require(getattr(loaded, field) == getattr(design, field), f"{field} of the loaded design is {getattr(loaded, field)!r}, want {getattr(design, field)!r}")
  stored = through(files, assignment.rename(columns={"item_id": item, "treatment_assignment": arm}))

  # ---- the performance during the experiment
  group = dict(zip(chosen, (parity(salt, i) for i in chosen)))
  step = 7 if case["weekly"] else 1
  days = list(range(-7 * pretest, 7 * spec["runtime_weeks"], step))
  concluded = True
  if case["cut"]:
    half = spec["runtime_weeks"] // 2
    last = 7 * (half - (spec["crossover_washout_weeks"] or 0)) if crossover else 7 * spec["runtime_weeks"]
    cut = min(case["cut"], last - 1)
    days = days[: len(days) - cut]
    concluded = cut < 7 and case["s"] % 2 == 0
  start = case["history_first"] + 7 * weeks + case["later"]
  keep = rng.uniform(size=(len(ids), len(days))) < case["density"]
  keep[rng.uniform(size=len(ids)) < case["unseen"]] = False
  if tricky and case["unseen"]:
    keep[(number < len(data.TRICKY)) & (rng.uniform(size=len(ids)) < 0.5)] = False
  keep[rng.integers(0, len(ids), size=len(days)), np.arange(len(days))] = True
  cells = np.argwhere(keep)
  cells = cells[rng.permutation(len(cells))]
  names = [primary] + case["metrics"]
  others = [m for m in names if m not in STANDARD]
  raw_names = {m: m if m in others else form.format(m) for m in names}
  periods = [period_of(design, math.floor(d / 7)) for d in days]
  treated = np.array([[
      1.0 if i in group and ((group[i] == 1 and p in ("test", "test_1")) or (group[i] == 0 and p == "test_2")) else 0.0
      for p in periods] for i in ids])
  boost = 1.0 + case["effect"] * treated
  x = {}
  for j, m in enumerate(names):
    x[m] = draw_values(case["values"][j], rng, (level[:, None] * boost)[keep])
  # the values above are in the order of the mask, the rows are not
  grid = {m: np.zeros(keep.shape) for m in names}
  for m in names:
    grid[m][keep] = x[m]
  columns = {date: [day(start + d) for d in np.array(days)[cells[:, 1]]], item: [raw_ids[i] for i in cells[:, 0]]}
  for j, m in enumerate(names):
    values = grid[m][cells[:, 0], cells[:, 1]]
    columns[raw_names[m]] = values.astype(int) if case["values"][j] == "int" else values
  performance = through(files, pd.DataFrame(columns))
  kw = dict(
      design=loaded, experiment_start_date=day(start).strftime("%Y-%m-%d"), item_id_column=item, date_column=date,
      treatment_assignment_column=arm, experiment_has_concluded=concluded)
  for m in names:
    if m in STANDARD:
      kw[f"{m}_column"] = raw_names[m]
  if others:
    kw["other_metric_columns"] = others
  if case["flag"]:
    kw["at_least_one_metrics"] = {primary: f"at_least_one_{primary}"}
  performance0, stored0 = performance.copy(deep=True), stored.copy(deep=True)
  experiment = ctx.sut(dp.prepare_and_validate_experiment_data, daily_performance_data=performance,
                       treatment_assignment_data=stored, **kw)
  unchanged(performance0, performance, "the performance data")
  unchanged(stored0, stored, "the assignment")

  # ---- the analysis
  flow = Flow(design, [group[i] for i in chosen], {}, days)
  row_of = {i: r for r, i in enumerate(ids)}
  pick = [row_of[i] for i in chosen]
  flow.x = {m: grid[m][pick] for m in names}
  specs = [{"name": f"M {m}", "column": m, "den": None, "q": case["override"] if m != primary else None} for m in names]
  if len(names) > 1:
    specs.append({"name": "rate", "column": primary, "den": names[1], "q": None})
  if case["flag"]:
    flow.x[f"at_least_one_{primary}"] = (flow.x[primary] > 0).astype(float)
    specs.append({"name": "any", "column": f"at_least_one_{primary}", "den": None, "q": 0.0})
  metrics = [ea.Metric(name=s["name"], column=s["column"], denominator_column=s["den"],
                       trimming_quantile_override=s["q"]) for s in specs]
  by = "period" if case["moved"] else None
  table = experiment.rename(columns={"time_period": by}) if by else experiment.drop(columns="time_period")
  result = ctx.sut(ea.analyze_experiment, table, design=loaded, metrics=metrics, week_id_column="week_id",
                   treatment_assignment_column="treatment_assignment", item_id_column="item_id")
  require(list(result.index) == [s["name"] for s in specs], f"rows {list(result.index)}")
  decided = 0
  smallest = min(sum(group.values()), len(group) - sum(group.values())) if not crossover else len(group)
  for s, row in zip(specs, result.to_dict("records")):
    q = loaded.post_trim_percentile if s["q"] is None else s["q"]
    if smallest - 2 * math.floor(q * smallest) < 4:
      continue
    ref = flow.reference(s)
    if ref is None:
      ctx.label("ties or no variance")
      continue
    decided += 1
    judge_row(ctx, row, ref, design, s["den"] is not None, s["name"])
  first = ctx.sut(ea.analyze_experiment, table, design=design, metrics=metrics)
  require(core.frame_equal(first, result), "the design of the first session gives another result than the loaded one")
  html = ctx.sut(lambda: ea.format_experiment_analysis_results_dataframe(result).to_html())
  for s in specs:
    require(s["name"] in html, f"{s['name']} is not in the displayed table")
  ctx.nontrivial = decided > 0 and (files != "frame" or len(chosen) < n or case["density"] < 1)
  ctx.label(files, "crossover" if crossover else "regular", "pre-trimmed" if top or bottom else "all items",
            "concluded" if concluded else "running", f"{case['ids']} ids")
