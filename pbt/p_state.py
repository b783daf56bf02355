"""C36 and C38: what histories of calls return, and what they do to their arguments."""
import copy
import dataclasses
import functools
import inspect
import json
import math
import os
import random
import re
import struct
import tempfile

from hypothesis import strategies as st
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from pbt import core
from pbt.core import check, require
from feedx import data_preparation
from feedx import experiment_analysis
from feedx import experiment_design as ed
from feedx import experiment_simulations
from feedx import plotting as feedx_plotting
from feedx import statistics as feedx_statistics


# ---- the functions that are called, under observation for C38

WATCH = []  # what the calls did to their arguments, if somebody looks
WATCHING = [False]
# these are documented to work on the table they get
IN_PLACE = {"add_at_least_one_metrics", "add_time_period_column", "add_week_id_and_week_start", "apply_synthetic_treatment_effect"}


class Watched:
  """A module; while somebody looks, its functions are followed."""

  def __init__(self, module):
    self.module = module

  def __getattr__(self, name):
    f = getattr(self.module, name)
    if not WATCHING[0] or not inspect.isfunction(f) or name in IN_PLACE:
      return f

    @functools.wraps(f)
    def call(*args, **kwargs):
      given = [(str(k), a) for k, a in list(enumerate(args)) + sorted(kwargs.items()) if not isinstance(a, np.random.Generator)]
      before = [(k, portrait(a)) for k, a in given]
      try:
        return f(*args, **kwargs)
      finally:
        for (k, b), (_, a) in zip(before, given):
          after = portrait(a)
          if name == "perform_treatment_assignment" and k == "design" and '"coinflip_salt": null' in json.dumps(b):
            # an unsalted design is given its salt
            after["ExperimentDesign"]["coinflip_salt"] = None
          if after != b:
            WATCH.append(f"{name} changes its argument {k} from {str(b)[:300]} to {str(after)[:300]}")

    return call


dp = Watched(data_preparation)
ea = Watched(experiment_analysis)
es = Watched(experiment_simulations)
plotting = Watched(feedx_plotting)
statistics = Watched(feedx_statistics)


# ---- results as plain values


def canon(x):
  """The result of a call as JSON."""
  if x is None or isinstance(x, (bool, int, str)):
    return x
  if isinstance(x, (np.bool_, np.integer)):
    return x.item()
  if isinstance(x, (float, np.floating)):
    return {"f": repr(float(x))}
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return {"objects": [canon(v) for v in x.ravel().tolist()], "shape": list(x.shape)}
    return {"array": [canon(v) for v in x.ravel().tolist()], "shape": list(x.shape), "kind": x.dtype.kind}
  if isinstance(x, pd.DataFrame):
    return {"frame": [[str(c), str(x.dtypes.iloc[j]), [canon(v) for v in x.iloc[:, j].tolist()]] for j, c in enumerate(x.columns)],
            "index": [canon(v) for v in x.index.tolist()], "names": [str(n) for n in x.index.names]}
  if isinstance(x, pd.Series):
    return {"series": [canon(v) for v in x.tolist()], "index": [canon(v) for v in x.index.tolist()]}
  if isinstance(x, pd.io.formats.style.Styler):
    return x.to_html(table_uuid="u", cell_ids=False)
  if dataclasses.is_dataclass(x):
    return {type(x).__name__: {f.name: canon(getattr(x, f.name)) for f in dataclasses.fields(x)}}
  if isinstance(x, dict):
    return {"dict": [[str(k), canon(v)] for k, v in x.items()]}
  if isinstance(x, (list, tuple)):
    return [canon(v) for v in x]
  return str(x)


def portrait(x):
  """An argument as JSON, down to its types, labels and flags."""
  if isinstance(x, np.ndarray):
    return [canon(x), str(x.dtype), x.flags.writeable]
  if isinstance(x, pd.DataFrame):
    return [canon(x), str(x.columns.dtype), canon(list(x.columns.names)), str(x.index.dtype), str(x.attrs)]
  if isinstance(x, pd.Series):
    return [canon(x), str(x.dtype), canon(x.name), str(x.index.dtype)]
  if isinstance(x, (list, tuple)):
    return [type(x).__name__] + [portrait(v) for v in x]
  if isinstance(x, dict):
    return [[str(k), portrait(v)] for k, v in x.items()]
  if isinstance(x, experiment_simulations.SimulationAnalysis):
    return portrait(x.historical_data)
  return canon(x)


def same(a, b):
  """Equal up to the noise of floating point sums."""
  if type(a) is not type(b):
    return False
  if isinstance(a, list):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict):
    if a.keys() != b.keys():
      return False
    if "f" in a and len(a) == 1:
      x, y = float(a["f"]), float(b["f"])
      return x == y or (x != x and y != y) or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-12)
    return all(same(a[k], b[k]) for k in a)
  return a == b


def picture(fig):
  """What is drawn: the numbers and texts of all artists."""
  out = []
  for ax in fig.axes:
    out.append([
        ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), canon(np.array(ax.get_xlim())), canon(np.array(ax.get_ylim())),
        [[str(l.get_label()), str(l.get_color()), canon(np.asarray(l.get_ydata(), dtype=float))] for l in ax.get_lines()],
        [canon(np.asarray(p.vertices)) for c in ax.collections for p in c.get_paths()][:20],
        sorted(str(t.get_text()) for t in ax.texts), len(ax.patches),
        [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None,
    ])
  return out


# ---- inputs; small and few, so that different calls have much in common

IDS = [lambda i: f"item_{i}", lambda i: i, lambda i: f"{i:04d}"]


class Inputs:
  """Builds the arguments of the calls.

  own: new ones for every object; shared: built only once; edited: one array,
  table or design of each sort, whose owner changes what is in it.
  """

  def __init__(self, mode):
    self.mode, self.cache = mode, {}

  def get(self, make, *key):
    if self.mode == "edited":
      return self.edit(make.__name__, make(*key))
    if self.mode != "shared":
      return make(*key)
    k = (make.__name__, repr(key))
    if k not in self.cache:
      self.cache[k] = make(*key)
    return self.cache[k]

  def edit(self, k, new):
    old = self.cache.get(k)
    if isinstance(new, np.ndarray):
      if old is not None and old.shape == new.shape:
        old[...] = new
        return old
    elif isinstance(new, pd.DataFrame):
      if old is not None and old.shape == new.shape and old.columns.equals(new.columns) and old.index.equals(new.index):
        for c in new:
          old[c] = new[c].array
        return old
    elif old is not None:
      for f in dataclasses.fields(new):
        setattr(old, f.name, getattr(new, f.name))
      return old
    self.cache[k] = new
    return new


DESIGNS = [
    dict(is_crossover=False, pretest_weeks=0, runtime_weeks=2),
    dict(is_crossover=False, pretest_weeks=2, runtime_weeks=2),
    dict(is_crossover=True, pretest_weeks=1, runtime_weeks=4, crossover_washout_weeks=1),
    dict(is_crossover=True, pretest_weeks=0, runtime_weeks=2, crossover_washout_weeks=0),
    dict(is_crossover=False, pretest_weeks=1, runtime_weeks=2, pre_trim_top_percentile=0.05, post_trim_percentile=0.05),
]


def design_of(k, n, post, alpha, salt):
  spec = dict(n_items_before_trimming=n, primary_metric="clicks", pre_trim_top_percentile=0.0, pre_trim_bottom_percentile=0.0,
              post_trim_percentile=post, alpha=alpha, coinflip_salt=salt)
  spec.update(DESIGNS[k])
  return ed.ExperimentDesign(**spec)


def sample(s, n, rows, kind):
  rng = np.random.default_rng(100 + s)
  v = rng.gamma(2.0, size=(rows, n)) if kind else rng.normal(size=(rows, n)) + 10.0
  return v[0] if rows == 1 else v


def raw_table(s, n, weeks, ids, missing):
  """Daily rows; the first week has negative numbers."""
  rng = np.random.default_rng(200 + s)
  days = pd.date_range("2024-01-01", periods=7 * weeks)
  i, d = np.indices((n, 7 * weeks))
  i, d = i.ravel(), d.ravel()
  frame = pd.DataFrame({
      "sku": [IDS[ids](int(k)) for k in i], "day": days[d].strftime("%Y-%m-%d"),
      "clicks": rng.poisson(3.0, size=len(i)).astype(float), "cost": rng.gamma(2.0, size=len(i)).round(3)})
  keep = rng.uniform(size=len(i)) >= missing
  keep[d == 0] = True
  return frame[keep].reset_index(drop=True)


def history(s, n, weeks, kind):
  rng = np.random.default_rng(300 + s)
  i, w = np.indices((n, weeks))
  v = rng.gamma(2.0, size=n)[:, None] + rng.gamma(2.0, size=(n, weeks)) * (1 + kind)
  return pd.DataFrame({"item_id": i.ravel(), "week_id": w.ravel(), "week_start": pd.Timestamp("2024-01-01") + pd.to_timedelta(7 * w.ravel(), unit="D"),
                       "clicks": v.ravel(), "cost": 2 * v.ravel() + 1})


def experiment(k, s, n, defect):
  """Weekly data of an experiment with design k."""
  d = DESIGNS[k]
  rng = np.random.default_rng(400 + s)
  weeks = np.arange(-d["pretest_weeks"], d["runtime_weeks"])
  i, w = np.indices((n, len(weeks)))
  i, w = i.ravel(), weeks[w.ravel()]
  arm = np.array([int(ed.Coinflip("salt")(f"item_{j}")) for j in range(n)])
  frame = pd.DataFrame({
      "item_id": [f"item_{j}" for j in i], "week_id": w,
      "date": (pd.Timestamp("2024-03-04") + pd.to_timedelta(7 * w, unit="D")),
      "treatment_assignment": arm[i], "clicks": rng.gamma(2.0, size=len(i)) * (1 + 0.1 * arm[i]), "cost": rng.gamma(3.0, size=len(i)) + 0.5})
  if defect == 1:
    frame.loc[3, "clicks"] = np.nan
  elif defect == 2:
    frame.loc[5, "clicks"] = -1.0
  elif defect == 3:
    frame = frame.drop(index=2)
  elif defect == 4:
    frame["cost"] = frame["cost"].map("{:.3f} EUR".format)
  elif defect == 5:
    frame["week_id"] -= 20
  elif defect == 6:
    frame["clicks"] = frame["clicks"].astype(object)
    frame.loc[7, "clicks"] = "-"
  return frame


def performance(k, s, n, missing, daily):
  """Raw rows of an experiment with design k and of items that are not in it."""
  d = DESIGNS[k]
  rng = np.random.default_rng(600 + s)
  first, last = -7 * d["pretest_weeks"], 7 * d["runtime_weeks"]
  days = np.arange(first, last, 1 if daily else 7)
  i, t = np.indices((n + 3, len(days)))
  i, t = i.ravel(), days[t.ravel()]
  frame = pd.DataFrame({"sku": i, "day": (pd.Timestamp("2024-03-04") + pd.to_timedelta(t, unit="D")).strftime("%Y-%m-%d"),
                        "Klicks": rng.poisson(2.0, size=len(i)), "profit": rng.normal(size=len(i)).round(3)})
  keep = rng.uniform(size=len(i)) >= missing
  keep[i == 0] = True
  return frame[keep].reset_index(drop=True)


def assignment(k, s, n):
  return pd.DataFrame({"sku": [str(j) for j in range(n)], "arm": [int(ed.Coinflip("salt")(str(j))) for j in range(n)]})


def results_table(s, n):
  rng = np.random.default_rng(500 + s)
  r = rng.normal(size=n) * 0.1
  return pd.DataFrame({"relative_difference": r, "relative_difference_lower_bound": r - 0.1, "relative_difference_upper_bound": r + 0.1,
                       "is_significant": rng.uniform(size=n) < 0.5}, index=["clicks"] + [f"m{j}" for j in range(1, n)])


# ---- things that are called

SMALL = {"s": st.integers(0, 2), "n": st.sampled_from([60, 60, 61])}
Q = st.sampled_from([0.0, 0.1, 0.25])
ALT = st.sampled_from(["two-sided", "less", "greater", "none"])
ALPHA = st.sampled_from([0.05, 0.1])
DESIGN = {"k": st.integers(0, len(DESIGNS) - 1), "n": st.sampled_from([60, 60, 61]), "post": st.sampled_from([0.0, 0.0, 0.02]),
          "alpha": ALPHA, "salt": st.sampled_from(["salt", "salt", "pepper"])}
KINDS = {}


def kind(params, steps):
  def wrap(cls):
    KINDS[cls.__name__] = (cls, params, steps)
    return cls
  return wrap


def get_design(inputs, p):
  return inputs.get(design_of, p["k"], p["n"], p["post"], p["alpha"], p["salt"])


@kind(dict(SMALL, q=Q, rows=st.integers(1, 3), kind=st.integers(0, 1)),
      {"mean": {}, "winsorized_mean": {}, "cov": {"ddof": st.integers(0, 1)}, "var": {"ddof": st.integers(0, 1)}, "std": {"ddof": st.integers(0, 1)},
       "trimmed": {}})
class Trimmed:

  def __init__(self, inputs, p):
    self.t = statistics.TrimmedArray(inputs.get(sample, p["s"], p["n"], p["rows"], p["kind"]), p["q"])

  def step(self, name, a):
    if name == "trimmed":
      return [self.t.values_trimmed, len(self.t), self.t.n_trim, repr(self.t)]
    return getattr(self.t, name)(**a)


@kind(dict(SMALL, kind=st.integers(0, 1)),
      {"ind": {"q": Q, "alternative": ALT, "alpha": ALPHA, "equal_var": st.booleans(), "ratio": st.integers(0, 2)},
       "paired": {"q": Q, "alternative": ALT, "alpha": ALPHA, "ratio": st.integers(0, 2)},
       "cuped": {"q": Q}, "intervals": {"alternative": ALT, "alpha": ALPHA}, "mde": {"alternative": ALT, "alpha": ALPHA, "paired": st.booleans()}})
class Tests:

  def __init__(self, inputs, p):
    self.x = inputs.get(sample, p["s"], p["n"], 4, p["kind"])

  def step(self, name, a):
    x = self.x
    if name == "intervals":
      kw = dict(mean_1=x[0].mean(), mean_2=x[1].mean(), standard_error_1=x[2].std(), standard_error_2=x[3].std() * 0.1, corr=0.0,
                degrees_of_freedom=20.0, alternative=a["alternative"], alpha=a["alpha"])
      return [statistics.absolute_difference_confidence_interval(**kw), statistics.relative_difference_confidence_interval(**kw)]
    if name == "cuped":
      return statistics.apply_cuped_adjustment(x[0], x[1], a["q"])
    if name == "mde":
      if a["paired"]:
        return statistics.yuens_t_test_paired_minimum_detectable_effect(
            difference_standard_deviation=x[0].std(), sample_size=len(x[0]), alternative=a["alternative"], alpha=a["alpha"])
      return statistics.yuens_t_test_ind_minimum_detectable_effect(
          standard_deviation=x[0].std(), sample_size=len(x[0]), alternative=a["alternative"], alpha=a["alpha"])
    kw = dict(trimming_quantile=a["q"], alternative=a["alternative"], alpha=a["alpha"])
    if a["ratio"]:
      kw["denom_values1"] = x[2]
    if a["ratio"] == 1:
      kw["denom_values2"] = x[3]
    if name == "ind":
      return statistics.yuens_t_test_ind(x[0], x[1], equal_var=a["equal_var"], **kw)
    return statistics.yuens_t_test_paired(x[0], x[1], **kw)


@kind({"salt": st.sampled_from(["salt", "pepper", "sal"])}, {"flip": {"ids": st.integers(0, 2), "first": st.sampled_from([0, 0, 1])}})
class Flips:

  def __init__(self, inputs, p):
    self.flip = ed.Coinflip(salt=p["salt"])

  def step(self, name, a):
    return [int(self.flip(IDS[a["ids"]](i))) for i in range(a["first"], 30)]


@kind(DESIGN, {"id": {}, "text": {}, "counts": {}, "files": {}, "salt": {"salt": st.sampled_from(["new", "salt", None])},
               "alpha": {"alpha": ALPHA}, "broken": {"n": st.integers(10, 60)}, "bad_file": {}})
class Design:

  def __init__(self, inputs, p):
    # designs can be changed by their owner, so this one is never shared
    self.d = design_of(p["k"], p["n"], p["post"], p["alpha"], p["salt"])

  def step(self, name, a):
    d = self.d
    if name == "id":
      return d.design_id
    if name == "text":
      return str(d)
    if name == "counts":
      return [d.n_items_after_pre_trim, d.n_items_after_post_trim]
    if name == "salt":
      d.coinflip_salt = a["salt"]
      return None
    if name == "alpha":
      return dataclasses.replace(d, alpha=a["alpha"]).design_id
    if name == "broken":
      return dataclasses.replace(d, n_items_before_trimming=a["n"])
    fd, path = tempfile.mkstemp(suffix=".yaml", dir=os.environ.get("VERIF_SCRATCH"))
    os.close(fd)
    try:
      d.write_to_yaml(path)
      if name == "bad_file":
        text = open(path).read()
        with open(path, "w") as f:
          f.write(re.sub(r"n_items_after_pre_trim: \d+", "n_items_after_pre_trim: 7", text))
      return ed.ExperimentDesign.load_from_yaml(path)
    finally:
      os.unlink(path)


@kind(dict(s=st.integers(0, 2), n=st.sampled_from([60, 61]), weeks=st.sampled_from([2, 2, 3]), ids=st.integers(0, 2), missing=st.sampled_from([0.0, 0.3])),
      {"standardize": {"column": st.sampled_from(["clicks", "cost", "nothing"])}, "history": {"fraction": st.sampled_from([1.0, 0.5, 2.0]), "seed": st.integers(0, 1), "metric": st.sampled_from(["clicks", "impressions", "other", "what"])},
       "weeks": {"start": st.sampled_from([None, "2024-01-08"])}, "fill": {}, "group": {"start": st.sampled_from([None, "2024-01-03"])},
       "sample": {"seed": st.integers(0, 1)}, "flags": {}})
class Raw:

  def __init__(self, inputs, p):
    self.t = inputs.get(raw_table, p["s"], p["n"], p["weeks"], p["ids"], p["missing"])

  def table(self):
    return dp.standardize_column_names_and_types(self.t, item_id_column="sku", date_column="day", clicks_column="clicks", total_cost_column="cost")

  def step(self, name, a):
    if name == "standardize":
      return dp.standardize_column_names_and_types(self.t, item_id_column="sku", date_column="day", clicks_column=a["column"])
    if name == "history":
      return dp.prepare_and_validate_historical_data(
          self.t, item_id_column="sku", date_column="day", primary_metric=a["metric"], primary_metric_column="clicks",
          rng=np.random.default_rng(a["seed"]), item_sample_fraction=a["fraction"])
    if name == "sample":
      return dp.downsample_items(self.t, 0.3, "sku", np.random.default_rng(a["seed"]))
    if name == "flags":
      # this one adds the column to the table it is given
      return dp.add_at_least_one_metrics(self.t.copy(), {"clicks": "any"})
    table = dp.fill_missing_rows_with_zeros(self.table())
    if name == "fill":
      return table
    table = dp.add_week_id_and_week_start(table, "date", a["start"])
    if name == "weeks":
      return table
    return dp.group_data_to_complete_weeks(table, date_column="date", item_id_column="item_id", week_id_column="week_id", week_start_column="week_start")


@kind(dict(DESIGN, s=st.integers(0, 2), defect=st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6])),
      {"validate": {"skip": st.sampled_from([None, "no_nulls", "x", "no_negatives"]), "negative": st.booleans()},
       "single": {"q": st.sampled_from([None, 0.1]), "ratio": st.booleans()}, "ratio_mismatch": {"p": st.sampled_from([0.001, 0.9])}, "between": {"first": st.integers(-1, 1)},
       "periods": {}, "pivot": {"arm": st.booleans(), "column": st.sampled_from(["clicks", "cost"])}, "analyze": {"metrics": st.integers(0, 3)},
       "table": {"metrics": st.integers(0, 3), "places": st.integers(0, 2), "projected": st.booleans()},
       "over_time": {"cuped": st.booleans()}, "synthetic_effect": {"e": st.sampled_from([0.0, 1.0])},
       "demo_effects": {"clicks": st.sampled_from([0.1, 0.0, None])}})
class Experiment:

  def __init__(self, inputs, p):
    self.d = get_design(inputs, p)
    self.t = inputs.get(experiment, p["k"], p["s"], p["n"], p["defect"])

  def metrics(self, k):
    return [[ea.Metric(name="Clicks", column="clicks")], [ea.Metric(name="Clicks", column="cost")],
            [ea.Metric(name="Clicks", column="clicks"), ea.Metric(name="CPC", column="cost", denominator_column="clicks")],
            [ea.Metric(name="Clicks", column="clicks", trimming_quantile_override=0.1), ea.Metric(name="x", column="gone")]][k]

  def step(self, name, a):
    d, t = self.d, self.t
    if name == "validate":
      return dp.validate_experiment_data(
          t, design=d, item_id_column="item_id", date_column="date", week_id_column="week_id", treatment_assignment_column="treatment_assignment",
          metric_columns=["clicks", "cost"], experiment_start_date="2024-03-04",
          can_be_negative_metric_columns=["clicks"] if a["negative"] else None, skip_validation_checks=[a["skip"]] if a["skip"] else None)
    if name == "ratio_mismatch":
      return dp.validate_no_sample_ratio_mismatch(t, "item_id", "treatment_assignment", p_value_threshold=a["p"])
    if name == "between":
      return ea.get_weeks_between(t["week_id"], a["first"], 1)
    if name == "single":
      columns = ["clicks", "cost"]
      p = ea.pivot_time_assignment(t, design=d, start_week_id=0, metric_columns=columns, item_id_column="item_id", week_id_column="week_id",
                                   treatment_column="treatment_assignment")
      return ea.analyze_single_metric(p, design=d, metric_name="clicks", denominator_metric_name="cost" if a["ratio"] else None,
                                      trimming_quantile_override=a["q"])
    if name in ("analyze", "table"):
      r = ea.analyze_experiment(t, metrics=self.metrics(a["metrics"]), design=d)
      if name == "analyze":
        return r
      return ea.format_experiment_analysis_results_dataframe(
          r, include_yearly_projected_effect=a["projected"], relative_effect_decimal_places=a["places"])
    if name == "pivot":
      return ea.pivot_time_assignment(t, design=d, start_week_id=0, metric_columns=[a["column"]], item_id_column="item_id", week_id_column="week_id",
                                      treatment_column="treatment_assignment" if a["arm"] else None)
    if name == "synthetic_effect":
      p = ea.pivot_time_assignment(t, design=d, start_week_id=0, metric_columns=["clicks"], item_id_column="item_id", week_id_column="week_id",
                                   treatment_column="treatment_assignment")
      return es.apply_synthetic_treatment_effect(p, metric_name="clicks", design=d, effect_size=a["e"], treatment_assignment_index_name="treatment_assignment")
    # this one adds the column to the table it is given
    periods = ea.add_time_period_column(t.copy(), design=d, start_week_id=0, week_id_column="week_id")
    if name == "periods":
      return periods
    if name == "demo_effects":
      kw = {} if a["clicks"] is None else {"clicks_relative_effect": a["clicks"]}
      more = periods.assign(impressions=100.0, conversions=2.0, total_cost=1.0, total_conversion_value=3.0)
      return dp.add_relative_effects_to_synthetic_data_for_demo(
          more, time_period_column="time_period", treatment_assignment_column="treatment_assignment", **kw)
    fig, _ = plotting.plot_metric_over_time(
        periods, metric_column="clicks", item_id_column="item_id", time_period_column="time_period",
        treatment_assignment_column="treatment_assignment", date_column="date", design=d, apply_cuped_adjustment=a["cuped"])
    return picture(fig)


@kind(dict(DESIGN, s=st.integers(0, 2), missing=st.sampled_from([0.0, 0.3]), daily=st.booleans()),
      {"prepare": {"concluded": st.booleans(), "flag": st.booleans(), "profit": st.sampled_from([None, "positive", "any"]),
                   "skip": st.sampled_from([None, None, "all_metrics_are_non_negative", "x"]), "start": st.sampled_from(["2024-03-04"] * 4 + ["2024-03-11"])}})
class Performance:

  def __init__(self, inputs, p):
    self.d = get_design(inputs, p)
    self.t = inputs.get(performance, p["k"], p["s"], p["n"], p["missing"], p["daily"])
    self.arms = inputs.get(assignment, p["k"], p["s"], p["n"])

  def step(self, name, a):
    return dp.prepare_and_validate_experiment_data(
        daily_performance_data=self.t, treatment_assignment_data=self.arms, design=self.d, experiment_start_date=a["start"], item_id_column="sku",
        date_column="day", treatment_assignment_column="arm", clicks_column="Klicks", other_metric_columns=["profit"] if a["profit"] else None,
        can_be_negative_metric_columns=["profit"] if a["profit"] == "any" else None, at_least_one_metrics={"clicks": "any"} if a["flag"] else None,
        experiment_has_concluded=a["concluded"], skip_validation_checks=[a["skip"]] if a["skip"] else None)


@kind(dict(DESIGN, s=st.integers(0, 2), weeks=st.sampled_from([6, 7]), kind=st.integers(0, 1), seed=st.integers(0, 1)),
      {"estimate": {}, "validate": {"sims": st.integers(2, 4)}, "run": {"sims": st.integers(2, 4)}, "run_and_plot": {}, "figures": {}, "summary": {}, "display": {"all": st.booleans()}, "weeks": {},
       "deep_dive": {}})
class Simulation:

  def __init__(self, inputs, p):
    self.a = es.SimulationAnalysis(
        design=get_design(inputs, p), historical_data=inputs.get(history, p["s"], p["n"], p["weeks"], p["kind"]), item_id_column="item_id",
        week_id_column="week_id", minimum_start_week_id=p["weeks"] - DESIGNS[p["k"]]["runtime_weeks"] - 1, rng=np.random.default_rng(p["seed"]))

  def step(self, name, a):
    x = self.a
    if name == "estimate":
      x.estimate_minimum_detectable_effect()
      return [x.minimum_detectable_effect, x.relative_minimum_detectable_effect, x.primary_metric_average, x.primary_metric_standard_deviation]
    if name in ("run", "run_and_plot"):
      x.estimate_minimum_detectable_effect()
    if name == "run_and_plot":
      x.validate_design(n_simulations=2, progress_bar=False)
    elif name in ("validate", "run"):
      x.validate_design(n_simulations=a["sims"], progress_bar=False)
      return [x.aa_simulation_results, x.ab_simulation_results]
    if name == "figures":
      return [getattr(x, n) for n in (
          "simulated_false_positive_rate", "simulated_power_at_minimum_detectable_effect", "null_p_value_robustness_p_value",
          "power_robustness_p_value", "aa_point_estimate_robustness_p_value", "ab_point_estimate_robustness_p_value",
          "false_positive_rate_robustness_p_value", "all_robustness_checks_pass", "minimum_detectable_effect")]
    if name == "summary":
      return x.summary_dict()
    if name == "weeks":
      return [int(w) for w in x.valid_start_week_ids]
    if name == "display":
      return es.format_analysis_summary_dataframe(es.make_analysis_summary_dataframe([x]), with_validation_columns=a["all"])
    return picture(plotting.plot_deep_dive(x)[0].figure)


@kind(dict(s=st.integers(0, 2), n=st.sampled_from([60, 61]), weeks=st.sampled_from([5, 6]), kind=st.integers(0, 1)),
      {"assign": {"design": st.fixed_dictionaries(DESIGN), "unsalted": st.booleans(), "seed": st.integers(0, 1)}, "trim": {"top": st.sampled_from([0.0, 0.1]), "bottom": st.sampled_from([0.0, 0.2, 0.95]), "seed": st.integers(0, 1)},
       "random": {"seed": st.integers(0, 1), "column": st.sampled_from(["treatment", "arm", "clicks"])}, "validate": {"metric": st.sampled_from(["clicks", "cost", "none"]), "skip": st.sampled_from([None, "x", "no_nulls"])},
       "plot": {"metric": st.sampled_from(["clicks", "cost"])}})
class History:

  def __init__(self, inputs, p):
    self.t = inputs.get(history, p["s"], p["n"], p["weeks"], p["kind"])

  def step(self, name, a):
    if name == "assign":
      p = a["design"]
      if a["unsalted"]:
        d = design_of(p["k"], self.t["item_id"].nunique(), p["post"], p["alpha"], None)
        try:
          dp.perform_treatment_assignment(self.t, design=d, rng=np.random.default_rng(a["seed"]), item_id_column="item_id", week_id_column="week_id")
        except ValueError as e:
          # one of thousand random salts has a sample ratio mismatch
          if "sample_ratio_mismatch" not in str(e):
            raise
        return bool(d.coinflip_salt)
      return dp.perform_treatment_assignment(
          self.t, design=design_of(p["k"], self.t["item_id"].nunique(), p["post"], p["alpha"], p["salt"]), rng=np.random.default_rng(a["seed"]), item_id_column="item_id",
          week_id_column="week_id")
    if name == "trim":
      return dp.trim_outliers(self.t, "clicks", a["top"], a["bottom"], np.random.default_rng(a["seed"]))
    if name == "random":
      p = ea.pivot_time_assignment(self.t, design=design_of(0, 60, 0.0, 0.05, None), start_week_id=0, metric_columns=["clicks"], item_id_column="item_id",
                                   week_id_column="week_id").reset_index()
      return es.apply_random_treatment_assignment(p, rng=np.random.default_rng(a["seed"]), item_id_column="item_id", treatment_column=a["column"])
    if name == "validate":
      return dp.validate_historical_data(self.t, item_id_column="item_id", date_column="week_start", week_id_column="week_id",
                                         primary_metric_column=a["metric"], skip_validation_checks=[a["skip"]] if a["skip"] else None)
    return picture(plotting.plot_metric_history(self.t, a["metric"])[0].figure)


@kind({}, {"designs": {"n": st.sampled_from([60, 61]), "runtimes": st.sampled_from([[2], [2, 3], [4]]), "pretests": st.sampled_from([[0], [1], [0, 1]]),
                       "washout": st.sampled_from([None, 0, 1])},
           "start": {"weeks": st.integers(3, 9), "runtimes": st.sampled_from([[2], [2, 3], [4]])},
           "synthetic": {"seed": st.integers(0, 1), "n": st.sampled_from([5, 6]), "before": st.integers(0, 1), "start": st.sampled_from(["2023-01-01", "2024-02-01"]), "ctr": st.sampled_from([0.02, 0.3, 1.5])},
           "effects": {"s": st.integers(0, 2), "n": st.integers(1, 4), "metric": st.integers(0, 1)},
           "text": {"salt": st.sampled_from(["", "a", "b"])}, "random_salt": {"length": st.sampled_from([10, 1])}})
class Plans:

  def __init__(self, inputs, p):
    self.inputs = inputs

  def step(self, name, a):
    if name == "designs":
      found = es.generate_all_valid_designs(
          n_items_before_trimming=a["n"], crossover_design_allowed=a["washout"] is not None, traditional_design_allowed=True,
          candidate_runtime_weeks=a["runtimes"], candidate_pretest_weeks=a["pretests"], candidate_pre_trim_top_percentiles=[0.0, 0.01],
          candidate_pre_trim_bottom_percentiles=[0.0], candidate_post_trim_percentiles=[0.0, 0.02], primary_metric="clicks",
          crossover_washout_weeks=a["washout"])
      return [[d, d.design_id] for d in found]
    if name == "start":
      return es.calculate_minimum_start_week_id(a["runtimes"], [0, 1], np.arange(a["weeks"]))
    if name == "synthetic":
      return dp.generate_synthetic_data(np.random.default_rng(a["seed"]), n_items=a["n"], weeks_before_start_date=a["before"], weeks_after_start_date=1,
                                        ctr_average=a["ctr"], start_date=a["start"])
    if name == "text":
      return int(ed.Coinflip(salt=a["salt"])("x"))
    if name == "random_salt":
      return len(ed.Coinflip.with_random_salt(salt_length=a["length"]).salt) > 0
    d = dataclasses.replace(design_of(0, 60, 0.0, 0.05, None), primary_metric=["clicks", "m1"][a["metric"]])
    return picture(plotting.plot_effects(self.inputs.get(results_table, a["s"], a["n"]), d)[0].figure)


# ---- programs


def attempt(f, *args):
  try:
    return canon(f(*args))
  except Exception as e:  # pylint: disable=broad-except
    return {"raised": type(e).__name__, "text": re.sub(r"/\S+|0x[0-9a-f]+", "", str(e))[:300]}


def run_program(objects, steps, mode):
  """The results of all steps, in order."""
  inputs = Inputs(mode)
  fleeting = mode in ("fleeting", "edited")
  live, out = {}, []
  for k, name, args in steps:
    if k not in live or fleeting:
      # the old object and its arguments go before the new ones come
      live.pop(k, None)
      cls, params = objects[k]
      try:
        live[k] = KINDS[cls][0](inputs, params)
      except ValueError as e:
        live[k] = str(e)
    out.append({"not made": live[k]} if isinstance(live[k], str) else attempt(live[k].step, name, args))
    if fleeting:
      del live[k]
  plt.close("all")
  return out


def run_and_watch(objects, steps, mode):
  """The results, and what the steps changed around them."""
  before = surroundings()
  out = run_program(objects, steps, mode)
  after = surroundings()
  changed = []
  for k, b in before.items():
    if b != after[k]:
      changed.append(k + (f" {[n for n in b if b[n] != after[k].get(n)]}" if isinstance(b, dict) else ""))
  return out, changed


class Room:
  """A process in which feedx has not been called, which answers by forks."""

  def __init__(self):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(w1)
      os.close(r2)
      try:
        self.serve(os.fdopen(r1, "rb"), os.fdopen(w2, "wb"))
      finally:
        os._exit(0)
    os.close(r1)
    os.close(w2)
    self.owner, self.send, self.receive = os.getpid(), os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

  def serve(self, requests, answers):
    while True:
      head = requests.read(4)
      if len(head) < 4:
        return
      objects, steps, mode = json.loads(requests.read(struct.unpack("I", head)[0]))
      child = os.fork()
      if child == 0:
        data = json.dumps(run_and_watch(objects, steps, mode)).encode()
        answers.write(struct.pack("I", len(data)) + data)
        answers.flush()
        os._exit(0)
      if os.waitpid(child, 0)[1]:
        answers.write(struct.pack("I", 4) + b"null")
        answers.flush()

  def ask(self, objects, steps, mode):
    data = json.dumps([objects, steps, mode]).encode()
    self.send.write(struct.pack("I", len(data)) + data)
    self.send.flush()
    head = self.receive.read(4)
    answer = json.loads(self.receive.read(struct.unpack("I", head)[0])) if len(head) == 4 else None
    if answer is None:
      raise core.HarnessError("the clean room gave no answer")
    return answer


ROOM = None


def room():
  global ROOM
  if ROOM is None or ROOM.owner != os.getpid():
    ROOM = Room()
  return ROOM


def surroundings():
  """What a call has to leave alone."""
  return {
      "numpy's global generator": canon(list(np.random.get_state(legacy=True))),
      "Python's global generator": canon(random.getstate()),
      "numpy's error handling": canon(np.geterr()),
      "numpy's print options": str(np.get_printoptions()),
      "pandas' options": {k: str(v) for k, v in sorted(flat_options(pd.options.d))},
      "matplotlib's settings": {k: str(matplotlib.rcParams._get(k)) for k in matplotlib.rcParams},  # pylint: disable=protected-access
      "the environment": dict(os.environ),
      "the working directory": os.getcwd(),
  }


def flat_options(d, prefix=""):
  for k, v in d.items():
    if isinstance(v, dict):
      yield from flat_options(v, prefix + k + ".")
    else:
      yield prefix + k, v


MODES = ["own", "shared", "fleeting", "edited", "edited"]


@st.composite
def twins(draw):
  """The same calls for two objects that differ in one argument."""
  k = draw(st.sampled_from(sorted(k for k in KINDS if KINDS[k][1]) + ["Simulation", "Experiment"]))
  params = {name: draw(s) for name, s in KINDS[k][1].items()}
  # mostly the data
  name = "s" if "s" in params and draw(st.booleans()) else draw(st.sampled_from(sorted(params)))
  other = dict(params)
  other[name] = draw(KINDS[k][1][name].filter(lambda v: v != params[name]))
  options = KINDS[k][2]
  steps = []
  for _ in range(draw(st.integers(1, 3))):
    call = draw(st.sampled_from(sorted(options)))
    args = {a: draw(s) for a, s in options[call].items()}
    steps += [[0, call, args], [1, call, args]]
  if draw(st.booleans()):
    steps.append(steps[0])
  return {"objects": [[k, params], [k, other]], "steps": steps, "mode": draw(st.sampled_from(MODES))}


@st.composite
def program(draw):
  if draw(st.booleans()):
    return draw(twins())
  n = draw(st.integers(1, 4))
  kinds = sorted(KINDS)
  some = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=2))
  objects = []
  for _ in range(n):
    # mostly of one kind, so that what they remember could be mixed up
    k = draw(st.sampled_from(some))
    if objects and draw(st.booleans()):
      first = draw(st.sampled_from(objects))
      params = dict(first[1])
      k = first[0]
      if params and draw(st.booleans()):
        name = draw(st.sampled_from(sorted(params)))
        params[name] = draw(KINDS[k][1][name])
    else:
      params = {name: draw(s) for name, s in KINDS[k][1].items()}
    objects.append([k, params])
  steps = []
  for _ in range(draw(st.integers(2, 12))):
    again = draw(st.integers(0, 3)) == 3 and steps
    k = draw(st.integers(0, n - 1))
    if again:
      # the same call, perhaps on another object
      twin = draw(st.sampled_from(steps))
      if objects[k][0] != objects[twin[0]][0]:
        k = twin[0]
      steps.append([k, twin[1], twin[2]])
      continue
    options = KINDS[objects[k][0]][2]
    name = draw(st.sampled_from(sorted(options)))
    steps.append([k, name, {a: draw(s) for a, s in options[name].items()}])
  return {"objects": objects, "steps": steps, "mode": draw(st.sampled_from(MODES))}


@check("C36", "programs", program, quick=1500, rule="at least two steps return a value, and one of them comes after another call")
def c36(case, ctx):
  clean = room()
  objects, steps, mode = case["objects"], case["steps"], case["mode"]
  ctx.sut_called = True
  got, changed = clean.ask(objects, steps, mode)
  require(not changed, f"the calls change {', '.join(changed)}")
  if mode in ("fleeting", "edited"):
    groups = [[j] for j in range(len(steps))]
  else:
    groups = [[j for j, s in enumerate(steps) if s[0] == k] for k in sorted({s[0] for s in steps})]
  fine = 0
  for mine in groups:
    k = steps[mine[0]][0]
    want, _ = clean.ask([objects[k]], [[0, steps[j][1], steps[j][2]] for j in mine], "own")
    for j, w in zip(mine, want):
      require(same(got[j], w), f"step {j}, {objects[k][0]}.{steps[j][1]}({steps[j][2]}): got {str(got[j])[:400]}, but alone it is {str(w)[:400]}")
      failed = isinstance(w, dict) and ("raised" in w or "not made" in w)
      fine += not failed
      ctx.label(f"{objects[k][0]}.{steps[j][1]}" + (" (rejected)" if failed else ""))
  ctx.nontrivial = fine > 1
  ctx.label(f"{mode} arguments")


# ---------------------------------------------------------------- C38


def disguise(table, how):
  """The same rows in an unusual table."""
  if not isinstance(table, pd.DataFrame):
    return table
  table = table.copy()
  rng = np.random.default_rng(how["s"])
  if how["rows"] == "shuffled":
    table = table.iloc[rng.permutation(len(table))]
  elif how["rows"] == "reversed":
    table = table.iloc[::-1]
  if how["columns"] == "reversed":
    table = table[list(table)[::-1]]
  if how["extra"]:
    table.insert(int(rng.integers(0, table.shape[1] + 1)), "note", [f"n{k}" for k in rng.integers(0, 9, size=len(table))])
  # results have the names of their metrics there
  if how["index"] == "range" and "relative_difference" not in table:
    table.index = pd.RangeIndex(len(table))
  elif how["index"] == "named":
    table.index.name = "row"
  elif how["index"] == "text" and "relative_difference" not in table:
    table.index = [f"r{k}" for k in range(len(table))]
  if how["dates"] == "text" and "date" in table:
    table["date"] = table["date"].dt.strftime("%Y-%m-%d")
  if how["numbers"] == "float32":
    table = table.astype({c: np.float32 for c in table if table[c].dtype == np.float64})
  elif how["numbers"] == "int" and "relative_difference" not in table:
    table = table.astype({c: int for c in table if table[c].dtype == np.float64 and table[c].notna().all()})
  elif how["numbers"] == "missing":
    for c in table:
      if table[c].dtype == np.float64:
        table[c] = table[c].mask(rng.uniform(size=len(table)) < 0.03)
  table.attrs = {"source": "a test"}
  return table


class Shown(Inputs):
  """Inputs that are used by all objects, in disguise."""

  def __init__(self, how):
    super().__init__("shared")
    self.how, self.before = how, {}

  def get(self, make, *key):
    k = (make.__name__, repr(key))
    if k not in self.cache:
      self.cache[k] = disguise(make(*key), self.how)
      self.before[k] = portrait(self.cache[k])
    return self.cache[k]

  def changed(self):
    return [k for k, b in self.before.items() if portrait(self.cache[k]) != b]


DISGUISES = st.fixed_dictionaries({
    "s": st.integers(0, 99), "rows": st.sampled_from(["same", "shuffled", "shuffled", "reversed"]), "columns": st.sampled_from(["same", "reversed"]),
    "extra": st.booleans(), "index": st.sampled_from(["same", "range", "named", "text"]), "dates": st.sampled_from(["same", "text"]),
    "numbers": st.sampled_from(["same", "same", "float32", "int", "missing"])})


@st.composite
def shown_program(draw):
  case = draw(program())
  del case["mode"]
  case["how"] = draw(DISGUISES)
  return case


def frames_in(x):
  if isinstance(x, pd.DataFrame):
    yield x
  elif isinstance(x, (list, tuple)):
    for v in x:
      yield from frames_in(v)


def scribble(table):
  """Writes into every column, as the owner of the table might."""
  for j in range(table.shape[1]):
    v = table.iloc[:, j]
    if not len(v):
      continue
    new = v.iloc[::-1].to_numpy(copy=True)
    if pd.api.types.is_float_dtype(v.dtype):
      new = np.asarray(new, dtype=float) * 2 + 3
    elif pd.api.types.is_integer_dtype(v.dtype):
      new = new + 5
    table.isetitem(j, table.iloc[:, j])
    try:
      table.iloc[:, j] = new
    except (TypeError, ValueError):
      pass
  if not isinstance(table.index, pd.MultiIndex):
    table.index.name = "mine"


@check("C38", "arguments", shown_program, quick=2500, rule="at least one step is given a table, array or design and returns a value")
def c38(case, ctx):
  inputs = Shown(case["how"])
  live, good = {}, 0
  WATCH.clear()
  WATCHING[0] = True
  ctx.sut_called = True
  try:
    for j, (k, name, args) in enumerate(case["steps"]):
      what = f"step {j}, {case['objects'][k][0]}.{name}({args})"
      if k not in live:
        cls, params = case["objects"][k]
        try:
          live[k] = KINDS[cls][0](inputs, params)
        except ValueError:
          live[k] = None
        changed = inputs.changed()
        require(not changed, f"making {cls}({params}) changes {changed}")
      if live[k] is None:
        ctx.label("object not made")
        continue
      given = copy.deepcopy(args)
      result, failed = None, ""
      try:
        result = live[k].step(name, given)
        good += 1
      except Exception as e:  # pylint: disable=broad-except
        failed = " (rejected)"
      require(not WATCH, f"{what}: {WATCH}")
      changed = inputs.changed()
      require(not changed, f"{what} changes {changed}")
      for table in frames_in(result) if name != "trim" else []:
        scribble(table)
        changed = inputs.changed()
        require(not changed, f"writing into the table returned by {what} changes {changed}")
      ctx.label(f"{case['objects'][k][0]}.{name}{failed}")
  finally:
    WATCHING[0] = False
    plt.close("all")
  ctx.nontrivial = good > 0 and bool(inputs.before)
