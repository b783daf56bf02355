"""C32-C34: synthetic data and plots."""
import math
import os

os.environ["MPLBACKEND"] = "Agg"

from hypothesis import strategies as st
import matplotlib

matplotlib.use("Agg")
from matplotlib import colors
from matplotlib import container
from matplotlib import patches
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from scipy import stats

from pbt import core, data, designs, p_stats
from pbt.core import allclose, check, close, require, unchanged
from pbt.data import SEEDS
from pbt.p_prep import DAY, DAYS, day, ident, period_of
from feedx import data_preparation as dp
from feedx import experiment_simulations as es
from feedx import plotting

# ---------------------------------------------------------------- C32

COUNTS = ["impressions", "clicks", "conversions"]
METRICS = COUNTS + ["total_cost", "total_conversion_value"]


@st.composite
def synthetic_case(draw):
  mean = st.sampled_from([0.02, 0.5, 1.0, 3.0, 80.0])
  rate = st.one_of(st.sampled_from([0.02, 0.1, 0.5, 0.9, 0.001]), st.floats(0.001, 0.999))
  rates = {}
  for name in ("ctr", "conversion_rate"):
    m = draw(rate)
    limit = math.sqrt(m * (1 - m))
    rates[f"{name}_average"] = m
    rates[f"{name}_standard_deviation"] = limit * draw(st.sampled_from([0.01, 0.1, 0.5, 0.8, 0.95]))
  kw = {
      "impressions_average": draw(st.sampled_from([0.5, 5.0, 50.0, 1000.0, 5000.0])),
      "impressions_standard_deviation": draw(st.sampled_from([0.1, 5.0, 100.0, 50000.0])),
      "cpc_average": draw(mean), "cpc_item_level_standard_deviation": draw(mean),
      "cpc_daily_level_standard_deviation": draw(mean),
      "conversion_value_average": draw(mean), "conversion_value_item_level_standard_deviation": draw(mean),
      "conversion_value_daily_level_standard_deviation": draw(mean), **rates,
  }
  for k in draw(st.lists(st.sampled_from(sorted(kw)), max_size=8)):
    kw.pop(k, None)
  for name in ("ctr", "conversion_rate"):
    # the other one of the pair may not fit the default
    pair = [f"{name}_average", f"{name}_standard_deviation"]
    if any(p not in kw for p in pair):
      for p in pair:
        kw.pop(p, None)
  return {
      "kw": kw, "n": draw(st.integers(1, 30)), "before": draw(st.integers(0, 6)), "after": draw(st.integers(0, 6)),
      "start": draw(DAYS), "s": draw(SEEDS),
      "bad": draw(st.sampled_from([
          ["impressions_average", 0.0], ["impressions_standard_deviation", 0.0], ["ctr_average", 0.0], ["ctr_average", 1.0],
          ["ctr_average", 1.5], ["ctr_standard_deviation", 0.0], ["ctr_standard_deviation", 1.0], ["cpc_average", -1.0],
          ["cpc_item_level_standard_deviation", 0.0], ["cpc_daily_level_standard_deviation", -0.5],
          ["conversion_rate_average", -0.1], ["conversion_rate_average", 1.0], ["conversion_rate_standard_deviation", -0.2],
          ["conversion_value_average", 0.0], ["conversion_value_item_level_standard_deviation", -3.0],
          ["conversion_value_daily_level_standard_deviation", 0.0], ["ctr_standard_deviation", 0.999],
          ["conversion_rate_standard_deviation", 0.6]])),
  }


@check("C32", "structure", synthetic_case, quick=4800, rule="there are rows with clicks")
def c32(case, ctx):
  start = day(case["start"])
  kw = dict(case["kw"], n_items=case["n"], weeks_before_start_date=case["before"], weeks_after_start_date=case["after"],
            start_date=start.strftime("%Y-%m-%d"))
  run = lambda seed: ctx.sut(dp.generate_synthetic_data, np.random.default_rng(seed), **kw)
  got = run(case["s"])
  require(set(got.columns) == {"date", "item_id", *METRICS}, f"columns {list(got.columns)}")
  days = [start + k * DAY for k in range(-7 * case["before"], 7 * case["after"])]
  require(len(got) == case["n"] * len(days), f"{len(got)} rows for {case['n']} items and {len(days)} days")
  if len(got):
    dates = pd.to_datetime(got["date"])
    require(sorted(pd.Timestamp(d) for d in dates.unique()) == days, "other dates")
    require(got["item_id"].nunique() == case["n"], f"{got['item_id'].nunique()} items")
    require(not pd.DataFrame({"i": got["item_id"], "d": dates}).duplicated().any(), "an item occurs twice on a date")
    x, c, v = (got[k].values for k in COUNTS)
    for k in COUNTS:
      require(np.issubdtype(got[k].dtype, np.integer) or (got[k] == got[k].round()).all(), f"{k} are no counts")
    require((v >= 0).all() and (v <= c).all() and (c <= x).all(), "not 0 <= conversions <= clicks <= impressions")
    cost, value = got["total_cost"].values, got["total_conversion_value"].values
    require(np.isfinite(cost).all() and np.isfinite(value).all(), "infinite costs or values")
    require(((cost > 0) == (c > 0)).all() and (cost >= 0).all(), "costs and clicks do not agree")
    require(((value > 0) == (v > 0)).all() and (value >= 0).all(), "values and conversions do not agree")
    require(core.frame_equal(got, run(case["s"])), "the same seed gives other data")
    if x.sum() > 100:
      require(not core.frame_equal(got, run(case["s"] + 1)), "another seed gives the same data")
    ctx.nontrivial = bool(c.sum())
  name, value = case["bad"]
  both = {k: w for k, w in kw.items() if not k.startswith("ctr") and not k.startswith("conversion_rate")}
  ctx.rejects(f"{name} = {value}", dp.generate_synthetic_data, np.random.default_rng(0), **dict(both, **{name: value}))


@st.composite
def averages_case(draw):
  spread = lambda lo, hi: draw(st.floats(lo, hi).map(lambda x: round(x, 3)))
  out = {"n": draw(st.integers(1500, 3000)), "days": draw(st.sampled_from([7, 14])), "before": draw(st.booleans()), "s": draw(SEEDS)}
  out["impressions"] = [draw(st.sampled_from([3e3, 1e4, 1e5])), spread(0.1, 1.2)]
  for name in ("ctr", "rate"):
    m = draw(st.sampled_from([0.2, 0.3, 0.5, 0.7]))
    out[name] = [m, round(math.sqrt(m * (1 - m)) * spread(0.05, 0.5), 4)]
  for name in ("cpc", "value"):
    out[name] = [draw(st.sampled_from([0.05, 0.5, 2.0, 100.0])), spread(0.1, 0.4), spread(0.05, 0.3)]
  return out


def lognormal_parameters(mean, cv):
  s2 = math.log1p(cv * cv)
  return math.log(mean) - 0.5 * s2, math.sqrt(s2)


def judge_moments(x, mean, sd, kurtosis, what, slack=0.0, noise=0.0):
  n = len(x)
  total = math.sqrt(sd * sd + noise * noise)
  m, v = float(np.mean(x)), float(np.var(x, ddof=1))
  require(abs(m - mean) <= 7 * total / math.sqrt(n) + slack * mean, f"{what}: average {m:.6g} of {n} items, want {mean:.6g}")
  tol = 7 * math.sqrt((kurtosis + 2) / n) * total * total
  require(abs(v - total * total) <= tol + 0.02 * total * total, f"{what}: standard deviation {math.sqrt(v):.6g} of {n} items, want {total:.6g}")


@check("C32", "averages", averages_case, quick=64, rule="every case judges the averages and deviations of five figures")
def c32_averages(case, ctx):
  n, d = case["n"], case["days"]
  im, icv = case["impressions"]
  cm, csd = case["ctr"]
  rm, rsd = case["rate"]
  pm, pcv, pday = case["cpc"]
  vm, vcv, vday = case["value"]
  weeks = {"weeks_before_start_date" if case["before"] else "weeks_after_start_date": d // 7,
           "weeks_after_start_date" if case["before"] else "weeks_before_start_date": 0}
  got = ctx.sut(
      dp.generate_synthetic_data, np.random.default_rng(case["s"]), n_items=n,
      impressions_average=im, impressions_standard_deviation=im * icv, ctr_average=cm, ctr_standard_deviation=csd,
      cpc_average=pm, cpc_item_level_standard_deviation=pm * pcv, cpc_daily_level_standard_deviation=pm * pday,
      conversion_rate_average=rm, conversion_rate_standard_deviation=rsd, conversion_value_average=vm,
      conversion_value_item_level_standard_deviation=vm * vcv, conversion_value_daily_level_standard_deviation=vm * vday, **weeks)
  got = got.sort_values(["item_id", "date"], kind="stable")
  cols = {k: got[k].values.astype(float).reshape(n, d) for k in METRICS}
  # impressions: lognormal items
  x = cols["impressions"].mean(axis=1)
  mu, sigma = lognormal_parameters(im, icv)
  judge_moments(np.log(np.maximum(x, 0.5)), mu, sigma, 0.0, "log impressions", 0.003, math.sqrt(1 / (d * im)))
  require(abs(float(np.mean(x)) - im) <= 8 * im * icv / math.sqrt(n) + 0.002 * im, f"impressions average {np.mean(x):.6g}, want {im}")
  daily = cols["impressions"]
  z = ((daily - x[:, None]) ** 2).sum(axis=1) / np.maximum(x, 1)
  require(abs(float(np.mean(z)) / (d - 1) - 1) < 0.15, f"daily impressions vary {np.mean(z) / (d - 1):.3f} times as much as a count should")
  # ratios of items
  clicks, imps, convs = (cols[k].sum(axis=1) for k in ("clicks", "impressions", "conversions"))
  for what, num, den, m, sd in (("CTR", clicks, imps, cm, csd), ("conversion rate", convs, clicks, rm, rsd)):
    ok = den >= 300
    ratio = num[ok] / den[ok]
    k = m * (1 - m) / sd**2 - 1
    kurtosis = float(stats.beta.stats(m * k, (1 - m) * k, moments="k"))
    noise = math.sqrt(float(np.mean(1 / den[ok])) * (m * (1 - m) - sd * sd))
    judge_moments(ratio, m, sd, max(kurtosis, 0.0), what, 0.0, noise)
  # prices of single days
  for what, num, den, m, cv, day_cv in (("CPC", "total_cost", "clicks", pm, pcv, pday),
                                        ("conversion value", "total_conversion_value", "conversions", vm, vcv, vday)):
    ok = (cols[den] > 0).all(axis=1)
    require(ok.mean() > 0.2, f"only {ok.sum()} items have {den} every day")
    price = cols[num][ok] / cols[den][ok]
    average = price.mean(axis=1)
    sd = m * cv
    s = lognormal_parameters(m, cv)[1]
    kurtosis = math.exp(4 * s * s) + 2 * math.exp(3 * s * s) + 3 * math.exp(2 * s * s) - 6
    judge_moments(average, m, sd, kurtosis, f"{what} of items", 0.0, m * day_cv / math.sqrt(d))
    within = price.var(axis=1, ddof=1)
    got_sd = math.sqrt(float(np.mean(within)))
    se = float(np.std(within)) / math.sqrt(len(within)) / (2 * got_sd)
    require(abs(got_sd - m * day_cv) <= 9 * se + 0.03 * m * day_cv, f"{what} of days: standard deviation {got_sd:.5g}, want {m * day_cv:.5g}")
    # the days of cheap and of expensive items vary alike
    half = price[:, : d // 2].mean(axis=1) > np.median(price[:, : d // 2].mean(axis=1))
    rest = price[:, d // 2 :].var(axis=1, ddof=1)
    for few in (half, ~half):
      ref = float(np.mean(rest[few]))
      se = float(np.std(rest[few])) / math.sqrt(few.sum())
      require(abs(ref - (m * day_cv) ** 2) <= 9 * se + 0.06 * (m * day_cv) ** 2,
              f"{what} of days: standard deviation {math.sqrt(ref):.5g} of half of the items, want {m * day_cv:.5g}")
  ctx.nontrivial = True


@st.composite
def effects_case(draw):
  return {
      "design": draw(designs.valid(max_n=200, max_pretest=3, max_half=3)),
      "n": draw(st.integers(2, 12)), "s": draw(SEEDS),
      "effects": draw(st.lists(st.sampled_from([None, 0.0, 0.1, -0.3, 1.5, 0.07]), min_size=5, max_size=5)),
      "arm": draw(st.sampled_from(["treatment_assignment", "arm"])), "period": draw(st.sampled_from(["time_period", "phase"])),
      "arms": draw(st.sampled_from(["int", "int", "float", "bool"])),
      "float": draw(st.booleans()), "index": draw(st.booleans()), "partial": draw(st.integers(0, 4)),
  }


@check("C32", "effects", effects_case, quick=6000, rule="at least one row is treated")
def c32_effects(case, ctx):
  design = designs.make(case["design"])
  rng = np.random.default_rng(case["s"])
  weeks = np.arange(-design.pretest_weeks - 1, design.runtime_weeks + 1)
  rows = [(i, int(w)) for i in range(case["n"]) for w in weeks]
  rows = [rows[j] for j in rng.permutation(len(rows))]
  arms = rng.integers(0, 2, case["n"])
  frame = pd.DataFrame({"item_id": [f"item_{i}" for i, _ in rows], "week": [w for _, w in rows]})
  cast = {"int": int, "float": float, "bool": bool}[case.get("arms", "int")]
  frame[case["arm"]] = [cast(arms[i]) for i, _ in rows]
  frame[case["period"]] = [period_of(design, w) for _, w in rows]
  for m in METRICS:
    x = rng.poisson(3, size=len(rows))
    frame[m] = x.astype(float) * (1.37 if m.startswith("total") else 1.0) if case["float"] or m.startswith("total") else x
  if case["partial"] == 0:
    frame = frame[frame[case["period"]].isin(["test", "test_1", "washout_1"])]
  if case["index"]:
    frame.index = rng.permutation(len(frame)) + 10
  before = frame.copy(deep=True)
  defaults = dict(zip(METRICS, [0.1, 0.2, 0.2, 0.2, 0.2]))
  kw = {f"{m}_relative_effect": e for m, e in zip(METRICS, case["effects"]) if e is not None}
  got = ctx.sut(dp.add_relative_effects_to_synthetic_data_for_demo, frame, time_period_column=case["period"],
                treatment_assignment_column=case["arm"], **kw)
  unchanged(before, frame, "the input")
  require(got.index.equals(before.index) and list(got.columns) == list(before.columns), "labels changed")
  other = [c for c in before.columns if c not in METRICS]
  unchanged(before[other], got[other], "another column")
  p, a = before[case["period"]], before[case["arm"]]
  treated = ((a == 1) & p.isin(["test", "test_1", "washout_1"]) | (a == 0) & p.isin(["test_2", "washout_2"])).values
  for m, e in zip(METRICS, case["effects"]):
    e = defaults[m] if e is None else e
    allclose(got[m].values, before[m].values * np.where(treated, 1 + e, 1.0), m, 1e-12)
  ctx.nontrivial = bool(treated.any())
  ctx.label("crossover" if design.is_crossover else "regular")


# ---------------------------------------------------------------- C33


@st.composite
def past_case(draw):
  return {
      "n": draw(st.integers(1, 40)), "weeks": draw(st.integers(1, 12)), "start": draw(DAYS), "s": draw(SEEDS),
      "kind": draw(st.sampled_from(["poisson", "gamma", "ties", "zeros", "profit"])),
      "missing": draw(st.sampled_from([0.0, 0.0, 0.3])),
      "ids": draw(st.sampled_from(data.ID_KINDS)),
      "cat": draw(st.integers(0, 6)) == 0,
      "null": draw(st.integers(0, 6)) == 0,
      "names": draw(st.sampled_from([[None, None, "clicks"], [None, None, "total_cost"], ["sku", "week", "my_metric"], ["Item", "start", "m"]])),
  }


def x_values(ax, line):
  return np.asarray(line.get_xdata(orig=False), dtype=float)


def on_axis(ax, stamp):
  return float(ax.convert_xunits(stamp))


@check("C33", "history", past_case, quick=1500, rule="several items with different averages")
def c33_history(case, ctx):
  rng = np.random.default_rng(case["s"])
  n, w = case["n"], case["weeks"]
  item, week, metric = case["names"]
  item_, week_ = item or "item_id", week or "week_start"
  level = rng.gamma(0.7, size=n)[:, None] * 5
  x = {"poisson": lambda: rng.poisson(level, (n, w)).astype(float), "gamma": lambda: level * rng.gamma(1.0, size=(n, w)),
       "ties": lambda: np.repeat(rng.integers(0, 4, n).astype(float)[:, None], w, axis=1),
       "profit": lambda: level + rng.normal(size=(n, w)),
       "zeros": lambda: rng.poisson(level, (n, w)) * (rng.uniform(size=(n, 1)) < 0.5)}[case["kind"]]()
  keep = rng.uniform(size=(n, w)) >= case["missing"]
  keep[np.arange(n), rng.integers(0, w, n)] = True
  rows = np.argwhere(keep)
  rows = rows[rng.permutation(len(rows))]
  i, j = rows[:, 0], rows[:, 1]
  frame = pd.DataFrame({
      week_: [day(case["start"] + 7 * int(k)) for k in j], "note": "x", metric: x[i, j],
      item_: [ident(case["ids"], int(k)) for k in i], "spare": 1.0})
  if case.get("cat"):
    frame[item_] = data.categorical(frame[item_])
  if case.get("null"):
    frame = frame.convert_dtypes()
  before = frame.copy(deep=True)
  kw = {k: v for k, v in (("item_id_column", item), ("week_start_column_name", week)) if v}
  axs = ctx.sut(plotting.plot_metric_history, frame, metric_column=metric, **kw)
  try:
    unchanged(before, frame, "the input")
    require(len(axs) == 3, "there are not three plots")
    # totals
    lines = axs[0].get_lines()
    require(len(lines) == 1, f"{len(lines)} lines of totals")
    seen = sorted(set(j.tolist()))
    allclose(x_values(axs[0], lines[0]), [on_axis(axs[0], day(case["start"] + 7 * k)) for k in seen], "weeks", 1e-12)
    allclose(lines[0].get_ydata(), [math.fsum(x[i[j == k], k]) for k in seen], "totals", 1e-9, 1e-9)
    # share of items with at least this average
    average = np.array([math.fsum(x[k][keep[k]]) / keep[k].sum() for k in range(n)])
    lines = axs[1].get_lines()
    require(len(lines) == 1, f"{len(lines)} lines of shares")
    px, py = x_values(axs[1], lines[0]), np.asarray(lines[0].get_ydata(), dtype=float)
    allclose(np.sort(px), np.sort(average), "averages of items", 1e-9, 1e-12)
    for v in np.unique(average):
      here = np.abs(px - v) <= 1e-9 * abs(v) + 1e-12
      count = np.sum(average >= v - 1e-9 * abs(v) - 1e-12)
      require(here.any() and abs(py[here].max() - count / n) < 1e-9, f"the share of items with at least {v!r} is {py[here].tolist()}, want {count}/{n}")
    require((py > 0).all(), "a share is not positive")
    # shares of the metric
    total = math.fsum(average)
    lines = axs[2].get_lines()
    require(len(lines) == 1, f"{len(lines)} Lorenz curves")
    if total > 1e-3 * np.sum(np.abs(average)):
      px, py = x_values(axs[2], lines[0]), np.asarray(lines[0].get_ydata(), dtype=float)
      order = np.argsort(px)
      allclose(px[order], np.arange(1, n + 1) / n, "shares of items", 1e-9)
      allclose(py[order], np.cumsum(np.sort(average)[::-1]) / total, "shares of the metric", 1e-9)
  finally:
    plt.close("all")
  ctx.nontrivial = len(np.unique(average)) > 1


@st.composite
def time_case(draw):
  # the plot needs pretest data for the adjustment only
  return {
      "design": draw(designs.valid(max_n=300, max_pretest=3, max_half=3, text=st.just("clicks"))),
      "n": draw(st.integers(4, 14)), "s": draw(SEEDS), "start": draw(DAYS),
      "daily": draw(st.booleans()), "outside": draw(st.sampled_from([[0, 0], [0, 0], [1, 0], [0, 1], [2, 2]])),
      "names": draw(st.sampled_from([
          ["item_id", "date", "time_period", "treatment_assignment", "clicks"], ["item_id", "date", "time_period", "treatment_assignment", "clicks"],
          ["sku", "day", "phase", "arm", "my_metric"], ["Item", "week_start", "period", "group", "total cost"]])),
      "cuped": draw(st.sampled_from([None, True, False])),
      "kind": draw(st.sampled_from(["poisson", "gamma", "profit"])),
      "int": draw(st.booleans()), "order": draw(st.booleans()), "index": draw(st.booleans()),
      "unfinished": draw(st.sampled_from([0, 0, 0, 1, 3])), "missing": draw(st.sampled_from([0.0, 0.0, 0.0, 0.2, 0.5])),
      "arms": draw(st.sampled_from(["int", "int", "float", "bool"])),
      "cat": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
      "null": draw(st.integers(0, 6)) == 0,
  }


def vertical_lines(ax):
  out = []
  for line in ax.get_lines():
    x = x_values(ax, line)
    y = np.asarray(line.get_ydata(), dtype=float)
    if len(x) == 2 and x[0] == x[1] and list(y) == [0.0, 1.0]:
      out.append((x[0], line))
  return out


def spans(ax):
  out = []
  for p in ax.patches:
    v = p.get_path().transformed(p.get_patch_transform()).vertices
    out.append((float(v[:, 0].min()), float(v[:, 0].max())))
  return sorted(out)


@check("C33", "over_time", time_case, quick=1200, rule="every case has at least four items and a runtime")
def c33_time(case, ctx):
  design = designs.make(case["design"])
  rng = np.random.default_rng(case["s"])
  item, date, period, arm, metric = case["names"]
  per = 7 if case["daily"] else 1
  lo, hi = -design.pretest_weeks - case["outside"][0], design.runtime_weeks + case["outside"][1]
  # an experiment that is still running
  hi = max(1, design.runtime_weeks - case["unfinished"]) if case.get("unfinished") else hi
  weeks = np.repeat(np.arange(lo, hi), per)
  step = 7 // per
  units = len(weeks)
  dates = [day(case["start"] + step * k + 7 * lo) for k in range(units)]
  n = case["n"]
  group = np.array([1, 1, 0, 0] + list(rng.integers(0, 2, n - 4)))[rng.permutation(n)]
  level = rng.gamma(1.0, size=n)[:, None] * 5
  x = {"poisson": lambda: rng.poisson(level, (n, units)).astype(float), "gamma": lambda: level * rng.gamma(1.0, size=(n, units)),
       "profit": lambda: level + rng.normal(size=(n, units)) - 3}[case["kind"]]()
  periods = [period_of(design, int(w)) for w in weeks]
  # items without a row on some dates; all of them have some pretest row
  keep = rng.uniform(size=x.shape) >= case.get("missing", 0.0)
  for k in range(units):
    for g in (0, 1):
      keep[rng.choice(np.flatnonzero(group == g), 2), k] = True
  before_test = [k for k in range(units) if periods[k] == "pretest"]
  if before_test:
    keep[np.arange(n), rng.choice(before_test, n)] = True
  i, j = np.nonzero(keep)
  v = x[i, j]
  frame = pd.DataFrame({
      "note": "x", date: [dates[k] for k in j], metric: v.astype(int) if case["kind"] == "poisson" and case["int"] else v,
      arm: group[i].astype({"int": int, "float": float, "bool": bool}[case.get("arms", "int")]), item: [f"i{k}" for k in i], period: [periods[k] for k in j]})
  for bit, c in ((1, item), (2, arm)):
    if case.get("cat", 0) & bit:
      frame[c] = data.categorical(frame[c])
  if case.get("null"):
    frame = frame.convert_dtypes()
  if case["order"]:
    frame = frame.iloc[rng.permutation(len(frame))]
  if case["index"]:
    frame.index = np.arange(len(frame))
  before = frame.copy(deep=True)
  kw = dict(metric_column=metric, item_id_column=item, time_period_column=period, treatment_assignment_column=arm, date_column=date, design=design)
  cuped = case["cuped"] is not False
  if case["cuped"] is not None:
    kw["apply_cuped_adjustment"] = case["cuped"]
  if cuped and design.pretest_weeks == 0:
    try:
      ctx.rejects("adjustment without pretest data", plotting.plot_metric_over_time, frame, **kw)
    finally:
      plt.close("all")
    ctx.label("no pretest data")
    kw["apply_cuped_adjustment"] = cuped = False
  y = x
  if cuped:
    pre = np.where(keep, x, 0.0)[:, [p == "pretest" for p in periods]].sum(axis=1)
    y = x.copy()
    for k in range(units):
      y[keep[:, k], k] = p_stats.cuped_reference(x[keep[:, k], k], pre[keep[:, k]], 0.0)
  of = lambda g, k: y[keep[:, k] & (group == g), k]
  fig, axs = ctx.sut(plotting.plot_metric_over_time, frame, **kw)
  try:
    unchanged(before, frame, "the input")
    require(len(axs) == 2, "there are not two plots")
    top, low = axs
    at = np.array([on_axis(top, d) for d in dates])
    big = float(np.max(np.abs(y))) + float(np.max(np.abs(x)))
    means = {g: np.array([of(g, k).mean() for k in range(units)]) for g in (0, 1)}
    for g, label in ((1, "Treatment"), (0, "Control")):
      lines = [line for line in top.get_lines() if str(line.get_label()) == label]
      require(len(lines) == 1, f"{len(lines)} lines of {label}")
      allclose(x_values(top, lines[0]), at, f"dates of {label}", 1e-12)
      allclose(lines[0].get_ydata(), means[g], f"averages of {label}", 1e-8, 1e-9 * big)
    lines = [line for line in low.get_lines() if str(line.get_label()) == "Treatment - Control"]
    require(len(lines) == 1, f"{len(lines)} lines of differences")
    delta = means[1] - means[0]
    at_low = np.array([on_axis(low, d) for d in dates])
    allclose(x_values(low, lines[0]), at_low, "dates of the difference", 1e-12)
    allclose(lines[0].get_ydata(), delta, "differences", 1e-8, 1e-9 * big)
    # the interval, with either definition of the standard deviation
    z = stats.norm.isf(design.alpha / 2)
    shapes = [p.vertices for c in low.collections for p in c.get_paths()]
    require(len(shapes) >= 1, "there is no interval")
    vertices = np.concatenate(shapes)
    half = {}
    for ddof in (0, 1):
      # a single item has no deviation
      half[ddof] = z * np.sqrt(np.array([
          sum(of(g, k).var(ddof=min(ddof, len(of(g, k)) - 1)) / len(of(g, k)) for g in (0, 1)) for k in range(units)]))
    wrong = {}
    for ddof in (0, 1):
      for k in range(units):
        ys = vertices[np.abs(vertices[:, 0] - at_low[k]) < 1e-6, 1]
        tol = 1e-7 * big
        if not len(ys) or abs(ys.min() - (delta[k] - half[ddof][k])) > tol or abs(ys.max() - (delta[k] + half[ddof][k])) > tol:
          wrong[ddof] = f"the interval at date {k} is {sorted(set(ys.tolist()))}, want {delta[k]:.6g} +- {half[ddof][k]:.6g}"
          break
    require(len(wrong) < 2, wrong.get(0, ""))
    level_text = f"{1.0 - design.alpha:.0%} Confidence Interval"
    legend = [t.get_text() for t in top.get_legend().get_texts()]
    for label in ("Treatment", "Control", "Treatment - Control", "Experiment Start", level_text):
      require(label in legend, f"the legend has no {label!r}: {legend}")
    # what the design says
    start = day(case["start"])
    want_lines = {"Experiment Start": start}
    want_spans = []
    if design.is_crossover:
      swap = start + 7 * (design.runtime_weeks // 2) * DAY
      want_lines["Crossover"] = swap
      wash = 7 * design.crossover_washout_weeks * DAY
      want_spans = [(start, start + wash), (swap, swap + wash)]
    for ax in axs:
      marks = vertical_lines(ax)
      want = {k: on_axis(ax, v) for k, v in want_lines.items()}
      got = {str(line.get_label()): pos for pos, line in marks}
      require(set(got) == set(want), f"marked are {sorted(got)}, want {sorted(want)}")
      for k in want:
        close(got[k], want[k], k, 1e-12)
      have = [s for s in spans(ax) if s[1] > s[0]]
      want_s = sorted((on_axis(ax, a), on_axis(ax, b)) for a, b in want_spans if b > a)
      require(len(have) == len(want_s), f"washout weeks {have}, want {want_s}")
      for h, s in zip(have, want_s):
        close(h[0], s[0], "start of a washout", 1e-12)
        close(h[1], s[1], "end of a washout", 1e-12)
      limits = ax.get_xlim()
      close(limits[0], on_axis(ax, start - 7 * design.pretest_weeks * DAY), "left end", 1e-12)
      close(limits[1], on_axis(ax, start + 7 * design.runtime_weeks * DAY), "right end", 1e-12)
  finally:
    plt.close("all")
  ctx.nontrivial = True
  ctx.label("crossover" if design.is_crossover else "regular", "cuped" if cuped else "plain", "daily" if case["daily"] else "weekly")


@st.composite
def dive_case(draw):
  return {
      "n": draw(st.integers(2, 300)), "s": draw(SEEDS), "mde": draw(st.sampled_from([0.5, 1.0, 2e-4, 3000.0, -1.0])),
      "spread": draw(st.sampled_from([0.01, 1.0, 5.0])), "p": draw(st.sampled_from(["uniform", "low", "edge"])),
      "state": draw(st.sampled_from(["validated", "validated", "validated", "new", "estimated"])),
  }


def judge_bins(bins, values, what):
  require(bins and sum(h for _, _, h in bins) == len(values), f"{what}: {bins} for {len(values)} values")
  tol = 1e-9 * float(np.max(np.abs(values)) + 1e-300)
  for a, b, h in bins:
    inner, outer = np.sum((values > a + tol) & (values < b - tol)), np.sum((values >= a - tol) & (values <= b + tol))
    require(inner <= h <= outer, f"{what}: {h} values between {a!r} and {b!r}, want {inner} to {outer}")


def steps(patch):
  """The bins of a step histogram drawn as one shape."""
  v = patch.get_path().transformed(patch.get_patch_transform()).vertices
  return [(a[0], b[0], a[1]) for a, b in zip(v[:-1], v[1:]) if b[0] > a[0] and a[1] == b[1] and (a[1] > 0 or True)]


@check("C33", "deep_dive", dive_case, quick=750, rule="simulations are shown")
def c33_dive(case, ctx):
  rng = np.random.default_rng(case["s"])
  design = designs.make(dict(
      n_items_before_trimming=100, runtime_weeks=4, primary_metric="clicks", pretest_weeks=0, is_crossover=False,
      pre_trim_top_percentile=0.0, pre_trim_bottom_percentile=0.0, post_trim_percentile=0.0))
  frame = pd.DataFrame({"i": [1], "w": [50], "clicks": [1.0]})
  a = ctx.sut(es.SimulationAnalysis, design=design, historical_data=frame, item_id_column="i", week_id_column="w",
              minimum_start_week_id=8, rng=rng)
  n, mde = case["n"], case["mde"]
  if case["state"] != "new":
    a.minimum_detectable_effect, a.relative_minimum_detectable_effect = mde, 0.1
  if case["state"] != "validated":
    try:
      ctx.rejects(f"a {case['state']} analysis", plotting.plot_deep_dive, a)
    finally:
      plt.close("all")
    return
  tables = []
  for shift in (0.0, mde):
    p = rng.uniform(size=n) if case["p"] == "uniform" else rng.uniform(size=n) ** 5 if case["p"] == "low" else rng.choice([0.0, 0.05, 1.0, 0.5], n)
    tables.append(pd.DataFrame({"p_value": p, "absolute_difference": shift + rng.normal(size=n) * case["spread"] * abs(mde), "is_significant": p < 0.05}))
  a.aa_simulation_results, a.ab_simulation_results = tables
  before = [t.copy(deep=True) for t in tables]
  axs = ctx.sut(plotting.plot_deep_dive, a)
  try:
    for t, b in zip((a.aa_simulation_results, a.ab_simulation_results), before):
      unchanged(b, t, "the simulation results")
    require(len(axs) == 3, "there are not three plots")
    shapes = {str(p.get_label()): p for p in axs[0].patches if isinstance(p, patches.Polygon)}
    marks = dict((round(x, 12), line) for x, line in vertical_lines(axs[0]))
    require(len(marks) == 2, f"marked are {sorted(marks)}")
    for label, table, truth in (("A/A", before[0], 0.0), ("A/B", before[1], mde)):
      found = [p for k, p in shapes.items() if k.startswith(label)]
      require(len(found) == 1, f"shapes {sorted(shapes)}")
      judge_bins([b for b in steps(found[0])], table["absolute_difference"].values, f"{label} effects")
      line = marks.get(round(truth, 12))
      require(line is not None, f"{truth} is not marked, but {sorted(marks)}")
      require(colors.to_rgb(line.get_color()) == colors.to_rgb(found[0].get_facecolor()[:3]), f"the color of the mark at {truth}")
    for ax, table, what in ((axs[1], before[0], "A/A p-values"), (axs[2], before[1], "A/B p-values")):
      bins = [(p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in ax.patches if isinstance(p, patches.Rectangle)]
      judge_bins(bins, table["p_value"].values, what)
  finally:
    plt.close("all")
  ctx.nontrivial = True


# ---------------------------------------------------------------- C34

NAMES = ["Clicks", "Impressions", "CTR", "Total cost", "cpc", "ROAS", "zeta", "Ångström", "At least one click", "Conversions", "a", "Z", " b", "z ", "total_cost", "Total  cost", "CTR (%)"]


@st.composite
def results_case(draw):
  rows = []
  for _ in range(draw(st.one_of(st.integers(1, 3), st.integers(1, 8)))):
    kind = draw(st.sampled_from(["finite", "finite", "finite", "low", "high", "both", "unknown", "none_low", "nan_high", "no_point"]))
    rows.append({
        "kind": kind, "value": draw(st.one_of(st.floats(-0.9, 3), st.sampled_from([0.0, 0.05, -0.05]))),
        "down": draw(st.one_of(st.just(0.0), st.floats(1e-6, 2))), "up": draw(st.one_of(st.just(0.0), st.floats(1e-6, 5))),
        "significant": draw(st.booleans()),
    })
  return {
      "rows": rows, "names": draw(st.permutations(NAMES))[: len(rows)], "primary": draw(st.integers(0, len(rows) - 1)),
      "case": draw(st.sampled_from(["same", "lower", "upper", "swap"])),
      "columns": draw(st.sampled_from([None, None, ["r", "lo", "hi", "sig"], ["value", "relative_difference", "x y", "Significant?"]])),
      "index": draw(st.sampled_from(["metric", None, "metric name"])), "object": draw(st.booleans()),
      "bad": draw(st.sampled_from(["none", "two"])), "extra": draw(st.booleans()),
      "similar": draw(st.sampled_from([None, None, "{} ", " {}", "{}2", "at_least_one_{}", "{}_", "{} (%)"])),
  }


LEFT, RIGHT = {4, 8, "<"}, {5, 9, ">"}


@check("C34", "effects", results_case, quick=3000, rule="every case draws all of its metrics")
def c34(case, ctx):
  names = list(case["names"])
  if case.get("similar") and len(names) > 1:
    other = case["similar"].format(names[case["primary"]])
    if other.lower() not in [m.lower() for m in names]:
      names[case["primary"] - 1] = other
  rows = []
  for r in case["rows"]:
    v, lo, hi = r["value"], r["value"] - r["down"], r["value"] + r["up"]
    if r["kind"] in ("low", "both"):
      lo = -math.inf
    if r["kind"] in ("high", "both"):
      hi = math.inf
    if r["kind"] == "none_low":
      lo = None
    if r["kind"] == "nan_high":
      hi = math.nan
    if r["kind"] == "unknown":
      v = lo = hi = None
    if r["kind"] == "no_point":
      # drawn at zero, so its bounds are on both sides
      v, lo, hi = None, -r["down"], r["up"]
    rows.append((v, lo, hi, r["significant"]))
  columns = case["columns"] or ["relative_difference", "relative_difference_lower_bound", "relative_difference_upper_bound", "is_significant"]
  frame = pd.DataFrame(rows, columns=columns, index=pd.Index(names, name=case["index"]))
  for c in columns[:3]:
    frame[c] = pd.Series([r[columns.index(c)] for r in rows], index=frame.index, dtype=object if case["object"] else float)
  frame[columns[3]] = frame[columns[3]].astype(bool)
  if case["extra"]:
    frame["p_value"] = 0.5
    for k, c in enumerate(["relative_difference", "relative_difference_lower_bound", "relative_difference_upper_bound"]):
      if c not in frame:
        frame[c] = 0.123 + k
    if "is_significant" not in frame:
      frame["is_significant"] = ~frame[columns[3]]
  primary = names[case["primary"]]
  spelled = {"same": primary, "lower": primary.lower(), "upper": primary.upper(), "swap": primary.swapcase()}[case["case"]]
  make = lambda m: designs.make(dict(
      n_items_before_trimming=100, runtime_weeks=4, primary_metric=m, pretest_weeks=0, is_crossover=False,
      pre_trim_top_percentile=0.0, pre_trim_bottom_percentile=0.0, post_trim_percentile=0.0))
  keys = ["relative_difference_column_name", "relative_difference_lower_bound_column_name", "relative_difference_upper_bound_column_name",
          "is_significant_column_name"]
  kw = dict(zip(keys, columns)) if case["columns"] else {}
  before = frame.copy(deep=True)
  axs = ctx.sut(plotting.plot_effects, frame, make(spelled), **kw)
  try:
    unchanged(before, frame, "the results")
    require(len(axs) == 2, "there are not two panels")
    for ax, wanted in ((axs[0], [primary]), (axs[1], [m for m in names if m != primary])):
      labels = {t.get_text(): y for t, y in zip(ax.get_yticklabels(), ax.get_yticks())}
      require(sorted(labels) == sorted(wanted) and len(ax.get_yticks()) == len(wanted), f"labels {sorted(labels)}, want {sorted(wanted)}")
      bars = [c for c in ax.containers if isinstance(c, container.ErrorbarContainer)]
      points, segments, arrows = [], [], []
      for c in bars:
        line, caps, cols = c.lines
        xs, ys = np.asarray(line.get_xdata(orig=False), float), np.asarray(line.get_ydata(orig=False), float)
        if line.get_markersize() > 0:
          points += [(y, x, c) for x, y in zip(xs, ys)]
        for k in cols:
          segments += [(s[0][1], min(s[0][0], s[1][0]), max(s[0][0], s[1][0]), k) for s in k.get_segments()]
        for cap in caps:
          side = -1 if cap.get_marker() in LEFT else 1 if cap.get_marker() in RIGHT else 0
          arrows += [(y, side) for y in np.asarray(cap.get_ydata(orig=False), float)]
      require(len(points) == len(wanted), f"{len(points)} points for {len(wanted)} metrics")
      for m in wanted:
        v, lo, hi, significant = rows[names.index(m)]
        y = labels[m]
        here = [p for p in points if p[0] == y]
        require(len(here) == 1, f"{len(here)} points of {m}")
        v = 0.0 if v is None else v
        close(here[0][1], v, f"point of {m}", 1e-12)
        reach = [s for s in segments if s[0] == y]
        low = min([s[1] for s in reach] + [v])
        high = max([s[2] for s in reach] + [v])
        for bound, end, side, what in ((lo, low, -1, "lower"), (hi, high, 1, "upper")):
          has = (y, side) in arrows
          if bound is None or not math.isfinite(bound):
            require(has, f"no arrow for the {what} bound {bound!r} of {m}")
          else:
            require(not has, f"an arrow for the {what} bound {bound!r} of {m}")
            close(end, bound, f"{what} bound of {m}", 1e-9, 1e-12)
        for s in reach:
          style = s[3].get_linestyle()[0]
          dashed = style[1] is not None
          alpha = s[3].get_alpha()
          require(dashed != significant, f"{m} is {'dashed' if dashed else 'solid'}, significant: {significant}")
          require((alpha is not None and alpha < 1) != significant, f"{m} has alpha {alpha}, significant: {significant}")
  finally:
    plt.close("all")
  try:
    if case["bad"] == "none":
      ctx.rejects("no primary metric", plotting.plot_effects, frame, make("something else"), **kw)
    elif primary.swapcase() not in names:
      twice = pd.concat([frame, frame.loc[[primary]].rename(index={primary: primary.swapcase()})])
      ctx.rejects("two primary metrics", plotting.plot_effects, twice, make(spelled), **kw)
  finally:
    plt.close("all")
  ctx.nontrivial = True
  ctx.label(f"{len(rows)} metrics", *[r["kind"] for r in case["rows"]])
