"""C14-C20: preparation and validation of the data."""
import collections
import contextlib
import datetime as dt
import fractions
import io
import math

from hypothesis import strategies as st
import numpy as np
import pandas as pd
from scipy import stats

from pbt import core, data, designs
from pbt.core import check, close, require, unchanged
from pbt.data import ID_KINDS, SEEDS, ident, rarely
from feedx import data_preparation as dp
from feedx import experiment_design as ed

DAY = dt.timedelta(days=1)
DAYS = st.integers(dt.date(2019, 1, 1).toordinal(), dt.date(2026, 12, 31).toordinal())
STANDARD = ["clicks", "impressions", "total_cost", "conversions", "total_conversion_value"]


def day(ordinal):
  return pd.Timestamp(dt.date.fromordinal(int(ordinal)))


def rows_of(frame, columns):
  """A multiset of the rows."""
  out = collections.Counter()
  for row in frame[columns].itertuples(index=False, name=None):
    out[tuple(x.item() if hasattr(x, "item") and not isinstance(x, pd.Timestamp) else x for x in row)] += 1
  return out


def same_rows(got, want, what):
  if got != want:
    extra, missing = got - want, want - got
    raise core.Violation(
        f"{what}: {sum(extra.values())} unexpected rows, e.g. {list(extra)[:2]},"
        f" {sum(missing.values())} missing rows, e.g. {list(missing)[:2]}")


# ---------------------------------------------------------------- C14

PARSERS = {
    "float": lambda x: x.astype(float),
    "text": lambda x: x.astype(str),
    "double": lambda x: x.astype(float) * 2,
    "reverse_sign": lambda x: -x.astype(float),
    "same": lambda x: x,
}
RAW_NAMES = ["item_id", "date", "clicks", "impressions", "total_cost", "conversions", "total_conversion_value",
             "a", "b", "c", "Item ID", "Datum", "custom", "x", "week_id"]
METRIC_KINDS = ["int", "float", "text_int", "text_float", "nan", "neg"]


@st.composite
def standard_case(draw):
  names = draw(st.permutations(RAW_NAMES))
  metrics = [m for m in STANDARD if draw(st.booleans())]
  k = 2 + len(metrics)
  mapping = {"item_id": names[0], "date": names[1]}
  for m, raw in zip(metrics, names[2:]):
    mapping[m] = raw
  free = list(names[k:])
  n_custom = draw(st.integers(0, 3))
  targets = draw(st.permutations(
      ["a", "b", "c", "x", "custom", "Other", "Item ID", "week_id", "zz", "Datum"]))[:n_custom]
  custom = {}
  for target in targets:
    custom[target] = free.pop(0)
  return {
      "n": draw(rarely(st.integers(1, 25), st.integers(200, 3000))),
      "s": draw(SEEDS),
      "ids": draw(st.sampled_from(ID_KINDS)),
      "dates": draw(st.sampled_from(["text", "timestamp", "slash", "datetime", "compact", "iso", "nanoseconds", "midday"])),
      "first": draw(DAYS),
      "mapping": mapping,
      "custom": custom,
      "parse": {c: draw(st.sampled_from(sorted(PARSERS))) for c in custom if draw(st.booleans())},
      "kinds": [draw(st.sampled_from(METRIC_KINDS)) for _ in range(10)],
      "extra": free[: draw(st.integers(0, len(free)))],
      "index": draw(st.sampled_from(["range", "shifted", "dup"])),
  }


def metric_values(kind, rng, n):
  v = np.round(rng.gamma(1.0, 20.0, size=n), 3)
  if kind == "int":
    return pd.Series(rng.poisson(5, size=n))
  if kind == "text_int":
    return pd.Series([str(x) for x in rng.poisson(5, size=n)])
  if kind == "text_float":
    return pd.Series([repr(float(x)) for x in v])
  if kind == "nan":
    v[rng.uniform(size=n) < 0.3] = np.nan
  if kind == "neg":
    v = -v
  return pd.Series(v)


def standard_raw(case):
  n = case["n"]
  rng = np.random.default_rng(case["s"])
  cols = {}
  ids = [ident(case["ids"], int(i)) for i in rng.integers(0, max(12, n), size=n)]
  days = [day(case["first"] + int(i)) for i in rng.integers(0, 400, size=n)]
  form = {"text": lambda d: d.strftime("%Y-%m-%d"), "slash": lambda d: d.strftime("%Y/%m/%d"),
          "timestamp": lambda d: d, "datetime": lambda d: d.to_pydatetime(),
          "compact": lambda d: d.strftime("%Y%m%d"), "iso": lambda d: d.isoformat(),
          "nanoseconds": lambda d: d.value, "midday": lambda d: d}[case["dates"]]
  if case["dates"] == "midday":
    days = [d + pd.Timedelta(hours=12, nanoseconds=7) for d in days]
  cols[case["mapping"]["item_id"]] = pd.Series(ids)
  cols[case["mapping"]["date"]] = pd.Series([form(d) for d in days])
  kinds = iter(case["kinds"])
  for m in STANDARD:
    if m in case["mapping"]:
      cols[case["mapping"][m]] = metric_values(next(kinds), rng, n)
  for target, raw in case["custom"].items():
    cols[raw] = metric_values(next(kinds), rng, n)
  for raw in case["extra"]:
    cols[raw] = pd.Series(rng.normal(size=n))
  order = rng.permutation(len(cols))
  names = list(cols)
  frame = pd.DataFrame({names[i]: cols[names[i]] for i in order})
  if case["index"] == "shifted":
    frame.index = np.arange(n) * 2 + 50
  elif case["index"] == "dup":
    frame.index = np.zeros(n, dtype=int)
  return frame, ids, days


def standard_args(case):
  kw = {f"{k}_column": v for k, v in case["mapping"].items()}
  if case["custom"]:
    kw["custom_columns"] = dict(case["custom"])
  if case["parse"]:
    kw["custom_parse_functions"] = {k: PARSERS[v] for k, v in case["parse"].items()}
  return kw


@check("C14", "mapping", standard_case, quick=13500, rule="at least one metric or custom column is mapped")
def c14(case, ctx):
  frame, ids, days = standard_raw(case)
  before = frame.copy(deep=True)
  kw = standard_args(case)
  got = ctx.sut(dp.standardize_column_names_and_types, frame, **kw)
  unchanged(before, frame, "the raw table")
  require(kw.get("custom_columns", {}) == case["custom"], "the mapping passed in was changed")
  want_columns = sorted(list(case["mapping"]) + list(case["custom"]))
  require(sorted(got.columns) == want_columns, f"columns {sorted(got.columns)}, want {want_columns}")
  require(len(got) == case["n"], "the number of rows changed")
  require(got["item_id"].tolist() == [str(i) for i in ids] and all(isinstance(i, str) for i in got["item_id"]),
          f"item ids {got['item_id'].tolist()[:5]}, raw {ids[:5]}")
  require(pd.api.types.is_datetime64_any_dtype(got["date"]), f"dates are {got['date'].dtype}")
  require(got["date"].tolist() == days, "the dates differ")
  for m in STANDARD:
    if m in case["mapping"]:
      raw = before[case["mapping"][m]]
      require(got[m].dtype == np.float64, f"{m} is {got[m].dtype}")
      want = np.array([float(x) for x in raw])
      require(np.array_equal(got[m].values, want, equal_nan=True),
              f"{m}: {got[m].tolist()[:4]}, raw column {case['mapping'][m]!r} is {raw.tolist()[:4]}")
  for target, raw in case["custom"].items():
    want = before[raw].reset_index(drop=True)
    if target in case["parse"]:
      want = PARSERS[case["parse"][target]](want)
    try:
      pd.testing.assert_series_equal(got[target].reset_index(drop=True), want, check_names=False)
    except AssertionError as e:
      raise core.Violation(f"custom column {target!r}: {e}") from e
  ctx.nontrivial = len(want_columns) > 2
  ctx.label("permuted" if set(case["mapping"].values()) & set(want_columns) else "plain",
            "custom" if case["custom"] else "standard only")


@st.composite
def standard_bad(draw):
  case = draw(standard_case())
  case["kind"] = draw(st.sampled_from(["custom_standard", "parse_standard", "parse_orphan", "missing", "missing_custom", "not_a_number", "not_a_date"]))
  case["which"] = draw(st.sampled_from(["item_id", "date"] + STANDARD))
  case["gone"] = draw(st.sampled_from(["item_id", "date"] + STANDARD))
  return case


@check("C14", "rejections", standard_bad, quick=800, rule="every case is a rejection")
def c14_bad(case, ctx):
  frame, _, _ = standard_raw(case)
  kw = standard_args(case)
  kind = case["kind"]
  if kind == "custom_standard":
    kw["custom_columns"] = {**case["custom"], case["which"]: list(frame.columns)[0]}
  elif kind == "parse_standard":
    kw["custom_parse_functions"] = {**kw.get("custom_parse_functions", {}), case["which"]: PARSERS["same"]}
  elif kind == "parse_orphan":
    kw["custom_parse_functions"] = {**kw.get("custom_parse_functions", {}), "orphan": PARSERS["same"]}
  elif kind == "missing":
    gone = case["gone"] if case["gone"] in case["mapping"] else "date"
    frame = frame.drop(columns=case["mapping"][gone])
  elif kind in ("not_a_number", "not_a_date"):
    mapped = [m for m in STANDARD if m in case["mapping"]]
    if kind == "not_a_number" and mapped:
      column, texts = case["mapping"][mapped[case["s"] % len(mapped)]], ["1,234.50", "abc", "12 EUR", "--", "1.2.3"]
    else:
      column, texts = case["mapping"]["date"], ["not a date", "2023-13-45", "32.01.2023"]
    values = frame[column].astype(object).tolist()
    values[case["s"] // 7 % len(values)] = texts[case["s"] % len(texts)]
    frame[column] = pd.Series(values, index=frame.index, dtype=object)
  else:
    kw["custom_columns"] = {**case["custom"], "new": "does not exist"}
  before = frame.copy(deep=True)
  ctx.rejects(kind, dp.standardize_column_names_and_types, frame, **kw)
  unchanged(before, frame, "the raw table")
  ctx.nontrivial = True
  ctx.label(kind)


# ---------------------------------------------------------------- C15


@st.composite
def sparse_case(draw):
  small = st.sampled_from([1, 2, 3, 4, 5, 7, 9])
  return {
      "items": draw(rarely(small, st.integers(30, 150))),
      "dates": draw(rarely(small, st.integers(30, 150))),
      "density": draw(st.sampled_from([0.15, 0.4, 0.7, 0.9, 1.0])),
      "dups": draw(st.sampled_from([0, 0, 0, 1, 4])),
      "s": draw(SEEDS),
      "first": draw(DAYS),
      "step": draw(st.sampled_from([1, 7, 3])),
      "ids": draw(st.sampled_from(ID_KINDS)),
      "date_kind": draw(st.sampled_from(["timestamp", "text", "int"])),
      "cat": draw(st.integers(0, 7)) == 0,
      "metrics": draw(st.lists(st.sampled_from(["int", "float", "int32", "bool", "neg", "zero", "uint8", "float32"]), max_size=4)),
      "names": draw(st.sampled_from([None, None, ["id", "d"], ["date", "item_id"], ["0", "1"]])),
      "shuffle": draw(st.booleans()),
      "index": draw(st.sampled_from(["range", "shifted", "dup"])),
      "drop": draw(st.sampled_from(["item", "date", "both"])),
  }


def sparse(case):
  rng = np.random.default_rng(case["s"])
  pairs = [(i, d) for i in range(case["items"]) for d in range(case["dates"])]
  keep = [p for p in pairs if rng.uniform() < case["density"]] or pairs[:1]
  keep += [keep[j] for j in rng.integers(0, len(keep), size=case["dups"])]
  if case["shuffle"]:
    keep = [keep[j] for j in rng.permutation(len(keep))]
  n = len(keep)
  item, date = case["names"] or ["item_id", "date"]
  stamp = {"timestamp": lambda d: day(case["first"] + case["step"] * d),
           "text": lambda d: day(case["first"] + case["step"] * d).strftime("%Y-%m-%d"),
           "int": lambda d: case["step"] * d - 3}[case["date_kind"]]
  cols = {item: [ident(case["ids"], i) for i, _ in keep], date: [stamp(d) for _, d in keep]}
  names = []
  for j, kind in enumerate(case["metrics"]):
    v = {
        "int": lambda: rng.poisson(3, size=n),
        "float": lambda: rng.exponential(size=n),
        "int32": lambda: rng.integers(-5, 50, size=n).astype(np.int32),
        "bool": lambda: rng.integers(0, 2, size=n).astype(bool),
        "neg": lambda: -rng.exponential(size=n),
        "zero": lambda: np.zeros(n),
        "uint8": lambda: rng.integers(0, 255, size=n).astype(np.uint8),
        "float32": lambda: rng.exponential(size=n).astype(np.float32),
    }[kind]()
    names.append(f"m{j}")
    cols[f"m{j}"] = v
  order = rng.permutation(len(cols))
  keys = list(cols)
  frame = pd.DataFrame({keys[j]: cols[keys[j]] for j in order})
  if case.get("cat"):
    frame[item] = data.categorical(frame[item])
  if case["index"] == "shifted":
    frame.index = np.arange(n)[::-1] + 7
  elif case["index"] == "dup":
    frame.index = np.arange(n) // 2
  return frame, item, date, names


@check("C15", "filling", sparse_case, quick=6000, rule="at least one row has to be added")
def c15(case, ctx):
  frame, item, date, metrics = sparse(case)
  kw = {} if case["names"] is None else {"item_id_column": item, "date_column": date}
  before = frame.copy(deep=True)
  got = ctx.sut(dp.fill_missing_rows_with_zeros, frame, **kw)
  unchanged(before, frame, "the data passed in")
  columns = list(frame.columns)
  require(sorted(got.columns) == sorted(columns), f"columns {list(got.columns)}")
  for c in columns:
    require(got[c].dtype == frame[c].dtype, f"the type of {c!r} went from {frame[c].dtype} to {got[c].dtype}")
  want = rows_of(frame, columns)
  have = set(zip(frame[item], frame[date]))
  added = 0
  for i in frame[item].unique():
    for d in frame[date].drop_duplicates():
      if (i, d) not in have:
        row = {item: i, date: d}
        want[tuple(row.get(c, 0) for c in columns)] += 1
        added += 1
  same_rows(rows_of(got, columns), want, "filled data")
  again = ctx.sut(dp.fill_missing_rows_with_zeros, got.copy(), **kw)
  same_rows(rows_of(again, columns), want, "data filled twice")
  for m in metrics:
    close(float(got[m].astype(float).sum()), float(frame[m].astype(float).sum()), f"total of {m}", 1e-5, 1e-9)
  ctx.nontrivial = added > 0
  ctx.label("rows added" if added else "complete", "duplicates" if case["dups"] else "no duplicates")
  missing = {"item": [item], "date": [date], "both": [item, date]}[case["drop"]]
  ctx.rejects(f"data without {case['drop']} column", dp.fill_missing_rows_with_zeros, frame.drop(columns=missing), **kw)


@st.composite
def flag_case(draw):
  return {
      "n": draw(rarely(st.integers(1, 20), st.integers(200, 3000))),
      "cols": draw(st.lists(st.sampled_from(["int", "float", "neg", "zero", "positive", "tiny", "bool"]), min_size=1, max_size=4)),
      "use": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
      "s": draw(SEEDS),
      "index": draw(st.sampled_from(["range", "shifted", "dup"])),
  }


@check("C15", "at_least_one", flag_case, quick=4000, rule="at least one flag is asked for")
def c15_flags(case, ctx):
  rng = np.random.default_rng(case["s"])
  n = case["n"]
  cols = {"item_id": [f"i{j}" for j in range(n)]}
  for j, kind in enumerate(case["cols"]):
    cols[f"m{j}"] = {
        "int": lambda: rng.poisson(0.7, size=n), "float": lambda: rng.normal(size=n),
        "neg": lambda: -rng.exponential(size=n), "zero": lambda: np.zeros(n),
        "positive": lambda: rng.exponential(size=n) + 0.1,
        "tiny": lambda: rng.choice([0.0, 1e-12, 0.4, -1e-12, 5.0], size=n),
        "bool": lambda: rng.integers(0, 2, size=n),
    }[kind]()
  frame = pd.DataFrame(cols)
  frame.index = {"range": np.arange(n), "shifted": np.arange(n)[::-1] + 4, "dup": np.arange(n) // 3}[case["index"]]
  mapping = {f"m{j}": f"at_least_one_m{j}" for j in range(len(case["cols"])) if case["use"][j]}
  before = frame.copy(deep=True)
  got = ctx.sut(dp.add_at_least_one_metrics, frame.copy(deep=True), dict(mapping))
  require(sorted(got.columns) == sorted(list(before.columns) + list(mapping.values())), f"columns {list(got.columns)}")
  require(core.frame_equal(got[list(before.columns)], before), "other columns were changed")
  for metric, flag in mapping.items():
    want = [1 if x > 0 else 0 for x in before[metric].tolist()]
    require(got[flag].tolist() == want, f"{flag}: {got[flag].tolist()}, {metric} is {before[metric].tolist()}")
  ctx.nontrivial = bool(mapping)


# ---------------------------------------------------------------- C16


@st.composite
def week_case(draw):
  return {
      "first": draw(DAYS),
      "days": draw(st.lists(rarely(st.integers(0, 120), st.integers(0, 3000), 10), min_size=1, max_size=25)),
      "start": draw(st.one_of(st.none(), rarely(st.integers(-40, 140), st.integers(-3000, 3000), 10))),
      "names": draw(st.sampled_from([None, None, ["wk", "ws"], ["Week", "Start of week"]])),
      "date": draw(st.sampled_from(["date", "Datum"])),
      "index": draw(st.sampled_from(["range", "shifted", "dup"])),
      "unit": draw(st.sampled_from(["ns", "ns", "s"])),
  }


@check("C16", "week_ids", week_case, quick=7000, rule="dates in several weeks")
def c16_ids(case, ctx):
  n = len(case["days"])
  dates = [day(case["first"] + d) for d in case["days"]]
  col = case["date"]
  frame = pd.DataFrame({col: pd.Series(dates).astype(f"datetime64[{case['unit']}]"), "v": np.arange(n)})
  frame.index = {"range": np.arange(n), "shifted": np.arange(n)[::-1] + 4, "dup": np.arange(n) // 3}[case["index"]]
  week, start_col = case["names"] or ["week_id", "week_start"]
  kw = {} if case["names"] is None else {"week_id_column": week, "week_start_column": start_col}
  if case["start"] is None:
    origin = case["first"] + min(case["days"])
  else:
    origin = case["first"] + case["start"]
    kw["experiment_start_date"] = day(origin).strftime("%Y-%m-%d")
  before = frame.copy(deep=True)
  got = ctx.sut(dp.add_week_id_and_week_start, frame.copy(deep=True), col, **kw)
  require(sorted(got.columns) == sorted([col, "v", week, start_col]), f"columns {list(got.columns)}")
  require(core.frame_equal(got[[col, "v"]], before), "other columns were changed")
  want = [math.floor((case["first"] + d - origin) / 7) for d in case["days"]]
  require(got[week].tolist() == want, f"week ids {got[week].tolist()}, want {want}")
  require(pd.api.types.is_integer_dtype(got[week]), f"week ids are {got[week].dtype}")
  starts = [day(origin + 7 * w) for w in want]
  require([pd.Timestamp(x) for x in got[start_col]] == starts, f"week starts {got[start_col].tolist()[:4]}, want {starts[:4]}")
  ctx.nontrivial = len(set(want)) > 1
  ctx.label("negative weeks" if min(want) < 0 else "no negative weeks", "given start" if case["start"] is not None else "first date")


@st.composite
def group_case(draw):
  return {
      "freq": draw(st.sampled_from(["daily", "daily", "daily", "weekly", "mixed"])),
      "items": draw(st.integers(1, 6)),
      "first": draw(DAYS),
      "length": draw(rarely(st.integers(2, 60), st.integers(200, 800))),
      "offset": draw(st.integers(0, 6)),
      "start_shift": draw(st.integers(-3, 3)),
      "groups": draw(st.sampled_from([0, 0, 1, 2])),
      "metrics": draw(st.integers(1, 3)),
      "ints": draw(st.booleans()),
      "dups": draw(st.sampled_from([0, 0, 0, 3])),
      "s": draw(SEEDS),
      "order": draw(st.sampled_from(["sorted", "shuffled"])),
      "names": draw(st.sampled_from([
          ["date", "item_id", "week_id", "week_start"], ["d", "id", "w", "ws"], ["Date", "SKU", "Week", "Monday"]])),
      "gap": draw(st.sampled_from([2, 3, 6, 8, 14])),
      "cat": draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3])),
      "null": draw(st.integers(0, 7)) == 0,
      "ids": draw(st.sampled_from(ID_KINDS)),
  }


def group_frame(case):
  rng = np.random.default_rng(case["s"])
  n_dates = case["length"]
  if case["freq"] == "daily":
    days = np.arange(n_dates)
  elif case["freq"] == "weekly":
    days = 7 * np.arange(max(2, n_dates // 7))
  else:
    step = int(rng.choice([1, 7]))
    days = step * np.arange(max(3, n_dates // 4))
    cut = int(rng.integers(1, len(days)))
    gap = case["gap"] if step == 1 or case["gap"] != 7 else 8
    days[cut:] += gap - step
    if step == 7 and len(days) == 2 or len(set(np.diff(days))) == 1 and np.diff(days)[0] in (1, 7):
      days = np.array([0, 1, 8])
  date, item, week, start = case["names"]
  origin = case["first"] + case["offset"] + 7 * case["start_shift"]
  weekly_origin = case["first"] + 7 * case["start_shift"]
  if case["freq"] == "weekly":
    origin = weekly_origin
  n_items = case["items"]
  g_item = rng.integers(0, 2, size=n_items)
  rows = [(i, int(d)) for i in range(n_items) for d in days]
  rows += [rows[j] for j in rng.integers(0, len(rows), size=case["dups"] if case["freq"] == "daily" else 0)]
  if case["order"] == "shuffled":
    rows = [rows[j] for j in rng.permutation(len(rows))]
  else:
    rows.sort(key=lambda r: (r[1], r[0]))
  cols = {
      item: [ident(case["ids"], i) for i, _ in rows],
      date: [day(case["first"] + d) for _, d in rows],
  }
  weeks = [math.floor((case["first"] + d - origin) / 7) for _, d in rows]
  cols[week] = weeks
  cols[start] = [day(origin + 7 * w) for w in weeks]
  groups = []
  if case["groups"] >= 1:
    cols["g1"] = [int(g_item[i]) for i, _ in rows]
    groups.append("g1")
  if case["groups"] >= 2:
    cols["g2"] = [f"p{(w + 50) // 2}" for w in weeks]
    groups.append("g2")
  metrics = []
  for j in range(case["metrics"]):
    cols[f"m{j}"] = rng.poisson(4, size=len(rows)) if case["ints"] else np.round(rng.exponential(size=len(rows)), 6)
    metrics.append(f"m{j}")
  keys = list(cols)
  frame = pd.DataFrame({keys[j]: cols[keys[j]] for j in rng.permutation(len(keys))})
  for c in [item] * (case.get("cat", 0) & 1) + groups * (case.get("cat", 0) // 2):
    frame[c] = data.categorical(frame[c])
  if case.get("null"):
    frame = frame.convert_dtypes()
  return frame, groups, metrics


@check("C16", "grouping", group_case, quick=5200, rule="daily data with a complete week, weekly data, or a rejection")
def c16(case, ctx):
  frame, groups, metrics = group_frame(case)
  date, item, week, start = case["names"]
  kw = dict(date_column=date, item_id_column=item, week_id_column=week, week_start_column=start)
  if groups:
    kw["extra_group_columns"] = list(groups)
  before = frame.copy(deep=True)
  ctx.label(case["freq"])
  if case["freq"] == "mixed":
    ctx.rejects("data that is neither daily nor weekly", dp.group_data_to_complete_weeks, frame, **kw)
    unchanged(before, frame, "the input")
    ctx.nontrivial = True
    return
  got = ctx.sut(dp.group_data_to_complete_weeks, frame, **kw)
  unchanged(before, frame, "the input")
  require(kw.get("extra_group_columns", []) == groups, "the list of groups was changed")
  keys = [item, week, start] + groups
  require(sorted(got.columns) == sorted(keys + metrics), f"columns {list(got.columns)}")
  if case["freq"] == "weekly":
    same_rows(rows_of(got, keys + metrics), rows_of(frame, keys + metrics), "weekly data")
    ctx.nontrivial = True
    return
  want, days = {}, {}
  for row in frame[keys + [date] + metrics].itertuples(index=False, name=None):
    key, d, values = row[: len(keys)], row[len(keys)], row[len(keys) + 1 :]
    acc = want.setdefault(key, [0.0] * len(metrics))
    for j, v in enumerate(values):
      acc[j] += v
    days.setdefault(key, set()).add(d)
  want = {k: v for k, v in want.items() if len(days[k]) == 7}
  seen = set()
  for row in got[keys + metrics].itertuples(index=False, name=None):
    key = row[: len(keys)]
    require(key in want, f"unexpected row {key}")
    require(key not in seen, f"row {key} twice")
    seen.add(key)
    for j, m in enumerate(metrics):
      close(row[len(keys) + j], want[key][j], f"{m} of {key}", 1e-9, 1e-12)
  require(len(seen) == len(want), f"{len(want) - len(seen)} complete weeks are missing, e.g. {list(set(want) - seen)[:2]}")
  ctx.nontrivial = bool(want)


# ---------------------------------------------------------------- C17


@st.composite
def history_case(draw):
  weekly = draw(st.integers(0, 3)) == 0
  # more than a year, or many items, but not both
  size = draw(rarely(st.just(0), st.integers(1, 2)))
  return {
      "weekly": weekly,
      "items": draw(st.integers(60, 300) if size == 1 else st.integers(1, 25)),
      "first": draw(DAYS),
      "length": draw((st.integers(50, 110) if weekly else st.integers(300, 500)) if size == 2 else st.integers(2, 7) if weekly else st.integers(7, 45)),
      "density": draw(st.sampled_from([0.1, 0.5, 0.9, 1.0])),
      "metric": draw(st.sampled_from(STANDARD + ["other", "other"])),
      "raw": draw(st.sampled_from([
          ["item_id", "date", None], ["sku", "day", "value"], ["date", "item_id", "metric"],
          ["clicks", "impressions", "revenue"], ["week_id", "week_start", "days_in_week_"]])),
      "ids": draw(st.sampled_from(ID_KINDS)),
      "dates": draw(st.sampled_from(["text", "timestamp"])),
      "kind": draw(st.sampled_from(["int", "float", "zeros", "int", "float", "negative"])),
      "dups": draw(st.sampled_from([0, 0, 0, 2])),
      "s": draw(SEEDS),
      "order": draw(st.sampled_from(["sorted", "shuffled", "reversed"])),
      "fraction": draw(st.one_of(st.just(1.0), st.just(1.0), st.sampled_from([0.5, 0.3, 0.75, 0.1]), st.floats(0.05, 1.0))),
      "legacy": draw(st.booleans()),
      "bad_metric": draw(st.sampled_from(["Clicks", "", "cost", "value", "others", "click", "item_id", "date"])),
      "bad_fraction": draw(st.sampled_from([0.0, -0.5, 1.0001, 2.0, -1e-9, 100.0])),
  }


def raw_history(case):
  rng = np.random.default_rng(case["s"])
  step = 7 if case["weekly"] else 1
  item, date, value = case["raw"]
  metric = case["metric"]
  value = value or (metric if metric != "other" else "my_value")
  n, length = case["items"], case["length"]
  # every item and every date occurs at least once
  keep = rng.uniform(size=(n, length)) < case["density"]
  for d in range(length):
    if not keep[:, d].any():
      keep[rng.integers(0, n), d] = True
  for i in range(n):
    if not keep[i].any():
      keep[i, rng.integers(0, length)] = True
  rows = [(i, d) for i in range(n) for d in range(length) if keep[i, d]]
  if not case["weekly"]:
    rows += [rows[j] for j in rng.integers(0, len(rows), size=case["dups"])]
  if case["order"] == "shuffled":
    rows = [rows[j] for j in rng.permutation(len(rows))]
  elif case["order"] == "reversed":
    rows = rows[::-1]
  v = {"int": lambda: rng.poisson(3, size=len(rows)), "float": lambda: np.round(rng.exponential(size=len(rows)), 6),
       "zeros": lambda: rng.integers(0, 2, size=len(rows)) * 1.5,
       "negative": lambda: np.round(rng.normal(0.5, 1, size=len(rows)), 6)}[case["kind"]]()
  stamp = (lambda d: day(case["first"] + step * d)) if case["dates"] == "timestamp" else (
      lambda d: day(case["first"] + step * d).strftime("%Y-%m-%d"))
  frame = pd.DataFrame({
      "unused": rng.normal(size=len(rows)), value: v, item: [ident(case["ids"], i) for i, _ in rows],
      date: [stamp(d) for _, d in rows], "text": ["x"] * len(rows)})
  want = {}
  for (i, d), x in zip(rows, v):
    want[(str(ident(case["ids"], i)), d * step // 7)] = want.get((str(ident(case["ids"], i)), d * step // 7), 0.0) + float(x)
  weeks = length if case["weekly"] else length // 7
  full = {}
  for i in range(n):
    for w in range(weeks):
      key = (str(ident(case["ids"], i)), w)
      full[key] = want.get(key, 0.0)
  name = value if metric == "other" else metric
  return frame, full, name, value, weeks


@check("C17", "model", history_case, quick=1350, rule="several items and at least one complete week")
def c17(case, ctx):
  frame, full, name, value, weeks = raw_history(case)
  item, date, _ = case["raw"]
  before = frame.copy(deep=True)
  rng = lambda off=0: (np.random.RandomState if case["legacy"] else np.random.default_rng)((case["s"] + off) % 2**32)
  kw = dict(item_id_column=item, date_column=date, primary_metric=case["metric"], primary_metric_column=value)
  if case["metric"] == "other" and value in STANDARD + ["item_id", "date"]:
    return
  n = case["items"]
  f = case["fraction"]
  sizes = {math.floor(f * n + 0.5), math.ceil(f * n - 0.5)}
  if 0 in sizes:
    f, sizes = 1.0, {n}
  if f != 1.0:
    kw["item_sample_fraction"] = f
  if case["kind"] == "negative":
    if min(full.values(), default=0.0) < -1e-9 and f == 1.0:
      ctx.rejects("a negative total", dp.prepare_and_validate_historical_data, frame, rng=rng(), **kw)
    kw["skip_validation_checks"] = ["all_metrics_are_non_negative"]

  def run(data, off=0):
    return ctx.sut(dp.prepare_and_validate_historical_data, data, rng=rng(off), **kw)

  def judge(got, what):
    require({"item_id", "week_id", "week_start", name} == set(got.columns), f"{what}: columns {list(got.columns)}")
    items = sorted(set(got["item_id"]))
    require(len(items) in sizes, f"{what}: {len(items)} items, want {sizes} of {n}")
    require(len(got) == len(items) * weeks, f"{what}: {len(got)} rows for {len(items)} items and {weeks} weeks")
    seen = set()
    for i, w, s, v in zip(got["item_id"], got["week_id"], got["week_start"], got[name]):
      require((i, w) in full, f"{what}: row for item {i!r} and week {w!r}")
      require((i, w) not in seen, f"{what}: two rows for item {i!r} and week {w!r}")
      seen.add((i, w))
      require(pd.Timestamp(s) == day(case["first"] + 7 * w), f"{what}: week {w} starts on {s}")
      close(v, full[(i, w)], f"{what}: {name} of item {i!r} in week {w}", 1e-9, 1e-12)
    require(got[name].dtype == np.float64, f"{what}: the metric is {got[name].dtype}")
    return items

  got = run(frame)
  unchanged(before, frame, "the raw table")
  items = judge(got, "prepared data")
  again = run(frame)
  require(items == judge(again, "second run"), "the same seed samples other items")
  mixed = frame.sample(frac=1.0, random_state=1)
  judge(run(mixed), "reordered rows")
  close(float(got[name].sum()), sum(v for (i, _), v in full.items() if i in set(items)), "total", 1e-9, 1e-9)
  ctx.nontrivial = n > 1 and weeks > 0
  ctx.label("weekly" if case["weekly"] else "daily", "sampled" if f != 1.0 else "all items")
  ctx.rejects(f"primary metric {case['bad_metric']!r}", dp.prepare_and_validate_historical_data, frame, rng=rng(),
              **dict(kw, primary_metric=case["bad_metric"]))
  ctx.rejects(f"fraction {case['bad_fraction']}", dp.prepare_and_validate_historical_data, frame, rng=rng(),
              **dict(kw, item_sample_fraction=case["bad_fraction"]))


@st.composite
def sampling_case(draw):
  return {"n": draw(st.integers(4, 20)), "f": draw(st.sampled_from([0.25, 0.5, 0.3, 0.75])), "s": draw(SEEDS),
          "rows": draw(st.integers(1, 3)), "uneven": draw(st.booleans())}


@check("C17", "random_subset", sampling_case, quick=160, rule="every case samples items with many seeds")
def c17_sample(case, ctx):
  n = case["n"]
  rng = np.random.default_rng(case["s"])
  # items may have different numbers of rows: all are equally likely
  reps = rng.integers(1, 6, size=n) if case["uneven"] else np.full(n, case["rows"])
  items = np.repeat([f"i{j}" for j in range(n)], reps)
  frame = pd.DataFrame({"id": rng.permutation(items), "v": rng.normal(size=len(items))})
  repeats, seen = 150, collections.Counter()
  want = {math.floor(case["f"] * n + 0.5), math.ceil(case["f"] * n - 0.5)}
  size = None
  for j in range(repeats):
    got = ctx.sut(dp.downsample_items, frame, case["f"], "id", np.random.RandomState((case["s"] + j) % 2**32))
    chosen = set(got["id"])
    require(len(chosen) in want, f"{len(chosen)} of {n} items for the fraction {case['f']}")
    require(core.frame_equal(got, frame[frame["id"].isin(chosen)]), "rows of the kept items are missing or changed")
    seen.update(chosen)
    size = len(chosen)
  for i in frame["id"].unique():
    k, p0 = seen[i], size / n
    p = 2 * min(stats.binom.cdf(k, repeats, p0), stats.binom.sf(k - 1, repeats, p0))
    require(p > 1e-9, f"item {i} is kept in {k} of {repeats} runs, the share is {p0:.2f}")
  ctx.nontrivial = True


# ---------------------------------------------------------------- C18 and C19

HISTORICAL_CHECKS = ["no_nulls", "no_duplicate_items_per_date", "dates_are_daily_or_weekly",
                     "week_ids_are_consecutive_integers", "all_metrics_are_finite", "all_metrics_are_non_negative"]
EXPERIMENT_CHECKS = HISTORICAL_CHECKS + [
    "number_of_items_matches_design", "experiment_dates_match_design", "treatment_assignment_is_unique",
    "coinflip_salt_validation", "no_sample_ratio_mismatch", "primary_metric_in_metrics"]


UNSETTLED = "~week_ids_are_consecutive_integers"


def failing(frame, item, date, week, metrics, allow_negative=()):
  """The checks that the data fails, by their meaning."""
  out = set()
  if frame.isna().any().any():
    out.add("no_nulls")
  pairs = collections.Counter(zip(frame[item], frame[date]))
  n_items, dates = frame[item].nunique(), sorted(set(frame[date]))
  if len(pairs) != n_items * len(dates) or set(pairs.values()) != {1}:
    out.add("no_duplicate_items_per_date")
  gaps = {(b - a).days for a, b in zip(dates, dates[1:])}
  if not (gaps <= {1} or gaps <= {7}):
    out.add("dates_are_daily_or_weekly")
  week_of = sorted(set(zip(frame[date], frame[week])))
  if any(b[1] - a[1] not in (0, 1) for a, b in zip(week_of, week_of[1:])):
    out.add("week_ids_are_consecutive_integers")
  elif len(week_of) > len(dates):
    # a date with two week ids: not settled by the statement
    out.add(UNSETTLED)
  for m in metrics:
    v = frame[m].values.astype(float)
    if not np.isfinite(v).all():
      out.add("all_metrics_are_finite")
    if m not in allow_negative and (v < 0).any():
      out.add("all_metrics_are_non_negative")
  return out


ROW_DEFECTS = ["null_metric", "null_other", "null_item", "drop", "drop_date", "drop_first", "dup_row", "dup_item",
               "shift_date", "week_gap", "week_jump", "week_back", "inf", "neg", "neginf", "other_item", "other_inf",
               "swap_item"]


def spoil(frame, kind, where, item, date, week, metric):
  """One defect at a place given by a fraction of the rows."""
  n = len(frame)
  r = min(int(where * n), n - 1)
  dates = sorted(frame[date].unique())
  d = dates[min(int(where * len(dates)), len(dates) - 1)]
  col = frame.columns.get_loc
  if kind == "null_metric":
    frame.iloc[r, col(metric)] = np.nan
  elif kind == "null_other":
    frame.iloc[r, col("other")] = np.nan
  elif kind == "null_item":
    frame[item] = frame[item].astype(object)
    frame.iloc[r, col(item)] = None
  elif kind == "drop":
    frame = frame.drop(index=frame.index[r])
  elif kind == "drop_date":
    frame = frame[frame[date] != d]
  elif kind == "drop_first":
    frame = frame[frame[item] != frame[item].iloc[r]]
  elif kind == "dup_row":
    frame = pd.concat([frame, frame.iloc[[r]]], ignore_index=True)
  elif kind == "dup_item":
    # two rows of one item, none of another, on one date
    same = frame[frame[date] == frame[date].iloc[r]]
    target = same[item].iloc[0] if same[item].iloc[0] != frame[item].iloc[r] else same[item].iloc[-1]
    frame.iloc[r, col(item)] = target
  elif kind == "shift_date":
    frame.loc[frame[date] == d, date] = pd.Timestamp(d) + pd.Timedelta(days=2 if where < 0.5 else 400)
  elif kind == "week_gap":
    frame.loc[frame[date] >= d, week] += 1 + int(where < 0.5)
  elif kind == "week_jump":
    frame.iloc[r, col(week)] += 9
  elif kind == "week_back":
    frame.loc[frame[date] >= d, week] -= 1
  elif kind in ("inf", "neg", "neginf"):
    frame[metric] = frame[metric].astype(float)
    frame.iloc[r, col(metric)] = {"inf": np.inf, "neg": -1e-9 if where < 0.5 else -5.0, "neginf": -np.inf}[kind]
  elif kind == "other_inf":
    frame.iloc[r, col("other")] = np.inf if where < 0.5 else -3.0
  elif kind == "other_item":
    # equal numbers of items on each date, but not the same ones
    new = "new" if frame[item].dtype == object else 10**6
    frame.iloc[r, col(item)] = new
  elif kind == "swap_item":
    # an item is replaced by another from some date on
    new = "new" if frame[item].dtype == object else 10**6
    frame.loc[(frame[item] == frame[item].iloc[r]) & (frame[date] >= d), item] = new
  return frame


def skip_list(draw, names, defects):
  if not defects and draw(st.integers(0, 3)):
    return draw(st.sampled_from([None, []]))
  how = draw(st.integers(0, 5))
  if how == 0:
    return None
  if how > 3:
    return draw(st.integers(0, 11))
  if how == 1:
    return draw(st.lists(st.sampled_from(names), max_size=3, unique=True))
  # all but a few
  leave = draw(st.lists(st.sampled_from(names), max_size=2, unique=True))
  return [x for x in names if x not in leave]


@st.composite
def valid_case(draw):
  size = draw(rarely(st.just(0), st.integers(1, 2), 60))
  defects = [
      [draw(st.sampled_from(ROW_DEFECTS)), draw(st.floats(0, 1, exclude_max=True))]
      for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3])))]
  return {
      "items": draw(st.integers(40, 120) if size == 1 else st.integers(1, 9)),
      "first": draw(DAYS),
      "length": draw(st.integers(50, 400) if size == 2 else st.integers(1, 17)),
      "step": draw(st.sampled_from([1, 7])),
      "week0": draw(st.sampled_from([0, 0, 5, -3])),
      "s": draw(SEEDS),
      "ids": draw(st.sampled_from(ID_KINDS)),
      "metric": draw(st.sampled_from(["int", "float", "zero"])),
      "shuffle": draw(st.booleans()),
      "cat": draw(st.integers(0, 7)) == 0,
      "defects": defects,
      "skip": skip_list(draw, HISTORICAL_CHECKS, defects),
      "unknown": draw(st.sampled_from([None] * 12 + ["no_null", "", "all", "no_nulls "])) if draw(st.booleans()) else None,
      "names": draw(st.sampled_from([["item_id", "week_start", "week_id", "clicks"], ["id", "d", "w", "Value"]])),
  }


def verdict(ctx, what, bad, skip, unknown, unclear, f, *args, **kw):
  """Accepted or rejected as it has to be, and for the right reason."""
  maybe = {x[1:] for x in bad if x == UNSETTLED}
  bad = {x for x in bad if x != UNSETTLED}
  if isinstance(skip, int):
    # all the failing checks but one
    names = sorted(bad)
    skip = [x for x in names if x != names[skip % len(names)]] if names else []
  skip = None if skip is None else list(skip)
  if unknown is not None:
    skip = (skip or []) + [unknown]
    bad_name = True
  else:
    bad_name = False
  if skip is not None:
    kw["skip_validation_checks"] = skip
  if bad_name:
    ctx.rejects(f"{what}: unknown check {unknown!r}", f, *args, **kw)
    ctx.label("unknown check")
    return
  left = bad - set(skip or [])
  if maybe - set(skip or []):
    if not left:
      return
    left |= maybe
  if unclear:
    # a missing id: only the plain rejection is settled
    if not skip:
      ctx.rejects(f"{what} with {sorted(bad)}", f, *args, **kw)
    return
  if left:
    message = ctx.rejects(f"{what} that fails {sorted(bad)}, skipping {skip}", f, *args, **kw)
    require(any(f"'{name}'" in message or name in message for name in left),
            f"{what} fails {sorted(left)}, but the error says: {message[:300]}")
    ctx.label("rejected: " + sorted(left)[0])
  else:
    result = ctx.sut(f, *args, **kw)
    require(result is None, "validation returned something", result)
    ctx.label("accepted with skipped checks" if bad else "accepted")


@check("C18", "accepts_exactly_valid", valid_case, quick=12000, rule="the data fails at least one check, or a check is unknown")
def c18(case, ctx):
  rng = np.random.default_rng(case["s"])
  item, date, week, metric = case["names"]
  rows = [(i, d) for i in range(case["items"]) for d in range(case["length"])]
  if case["shuffle"]:
    rows = [rows[j] for j in rng.permutation(len(rows))]
  n = len(rows)
  frame = pd.DataFrame({
      "other": rng.normal(size=n),
      item: [ident(case["ids"], i) for i, _ in rows],
      date: [day(case["first"] + case["step"] * d) for _, d in rows],
      week: [case["week0"] + case["step"] * d // 7 for _, d in rows],
      metric: {"int": rng.poisson(2, size=n), "float": rng.exponential(size=n), "zero": np.zeros(n)}[case["metric"]],
  })
  for kind, where in case["defects"]:
    if len(frame) < 2:
      break
    frame = spoil(frame, kind, where, item, date, week, metric).reset_index(drop=True)
  if len(frame) == 0:
    return
  unclear = bool(frame[item].isna().any())
  bad = failing(frame, item, date, week, [metric]) if not unclear else {"no_nulls"}
  if case.get("cat") and not unclear:
    frame[item] = data.categorical(frame[item])
  before = frame.copy(deep=True)
  verdict(ctx, "historical data", bad, case["skip"], case["unknown"], unclear, dp.validate_historical_data, frame,
          item_id_column=item, date_column=date, week_id_column=week, primary_metric_column=metric)
  unchanged(before, frame, "the data")
  ctx.nontrivial = bool(bad) or case["unknown"] is not None


def parity(salt, i):
  return ed.Coinflip(salt)(i)


@st.composite
def experiment_case(draw):
  design = draw(designs.valid(
      max_n=draw(rarely(st.just(120), st.just(800), 60)), max_pretest=2, max_half=2, text=st.sampled_from(["clicks", "m"]),
      salts=st.text("abcdef0123456789", min_size=1, max_size=8)))
  defects = [
      [draw(st.sampled_from(ROW_DEFECTS + [
          "flip_item", "flip_row", "wrong_salt", "no_salt", "empty_salt", "few_items", "many_items", "late", "early_end",
          "primary", "negative_other", "lopsided", "lopsided_salted", "flip_all", "start_moved", "swap_two", "srm_edge",
          "both_groups", "negative_one", "negative_one", "late", "early_end", "early_end", "start_moved"])),
       draw(st.floats(0, 1, exclude_max=True))]
      for _ in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2, 3])))]
  return {
      "design": design,
      "first": draw(DAYS),
      "step": draw(st.sampled_from([1, 7])),
      "before": draw(st.sampled_from([0, 0, 1, 3, 17])),
      "after": draw(st.sampled_from([0, 0, 0, 1, 3])),
      "s": draw(SEEDS),
      # metrics whose names contain one another
      "similar": draw(st.booleans()),
      "cat": draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3])),
      "ids": draw(st.sampled_from(ID_KINDS)),
      "metrics": draw(st.integers(0, 2)),
      "container": draw(st.sampled_from(["list", "tuple"])),
      "shuffle": draw(st.booleans()),
      "defects": defects,
      "concluded": draw(st.sampled_from([True, True, None, False])),
      "allow": draw(st.sampled_from([None, [], "primary", "other", "last"])),
      "skip": skip_list(draw, EXPERIMENT_CHECKS, defects),
      "unknown": draw(st.sampled_from([None] * 9 + ["srm", "all_metrics", ""])),
      "names": draw(st.sampled_from([
          ["item_id", "date", "week_id", "treatment_assignment"], ["id", "d", "w", "group"]])),
  }


@check("C19", "accepts_exactly_valid", experiment_case, quick=3900, rule="the data fails at least one check, or a check is unknown")
def c19(case, ctx):
  rng = np.random.default_rng(case["s"])
  spec = dict(case["design"])
  item, date, week, group = case["names"]
  design = designs.make(spec)
  primary = spec["primary_metric"]
  n_items = design.n_items_after_pre_trim
  kinds = {k for k, _ in case["defects"]}
  level = {k: w for k, w in case["defects"]}
  if "few_items" in kinds:
    n_items -= 1 + int(level["few_items"] * 3)
  if "many_items" in kinds:
    n_items += 1 + int(level["many_items"] * 3)
  salt = spec["coinflip_salt"]
  pool = [ident(case["ids"], int(i)) for i in rng.permutation(20000)[: 6 * n_items]]
  groups = {i: parity(salt, i) for i in pool}
  if "lopsided_salted" in kinds or "srm_edge" in kinds:
    # by bad luck of the salt
    if "srm_edge" in kinds:
      # just at the threshold of the test
      k = max(j for j in range(n_items // 2) if srm(j, n_items) < 0.001) + int(level["srm_edge"] * 2)
    else:
      # seldom all items in one group
      k = int(n_items * (0.15 + 0.15 * level["lopsided_salted"])) if level["lopsided_salted"] >= 0.15 else 0
    ones = [i for i in pool if groups[i]][: n_items - k]
    zeros = [i for i in pool if not groups[i]][:k]
    if level.get("srm_edge", 0.3) % 0.25 < 0.125:
      ones, zeros = [i for i in pool if groups[i]][:k], [i for i in pool if not groups[i]][: n_items - k]
    items = ones + zeros
  else:
    items = pool[:n_items]
    for attempt in range(5):
      if srm(sum(groups[i] for i in items), len(items)) > 0.01:
        break
      items = pool[n_items * attempt : n_items * (attempt + 1)]
  start = day(case["first"])
  step = case["step"]
  per = 7 // step
  pretest, runtime = spec["pretest_weeks"], spec["runtime_weeks"]
  if step == 1:
    lo, hi = -7 * pretest - case["before"], 7 * runtime + case["after"]
    if hi - lo > 56:
      step = 7
  if step == 7:
    lo, hi = -pretest - case["before"], runtime + case["after"]
  offsets = list(range(lo, hi))
  concluded = case["concluded"]
  if "early_end" in kinds:
    cut = 1 + int(level["early_end"] * (4 if step == 7 else 14)) + case["after"]
    offsets = offsets[:-cut] if len(offsets) > cut else offsets[:1]
  if "late" in kinds:
    cut = 1 + int(level["late"] * 3) + case["before"]
    offsets = offsets[cut:] if len(offsets) > cut else offsets[-1:]
  rows = [(i, d) for i in items for d in offsets]
  if case["shuffle"]:
    rows = [rows[j] for j in rng.permutation(len(rows))]
  n = len(rows)
  names = [f"net_{primary}", primary[:-1] or "mm"] if case.get("similar") else ["x0", "x1"]
  metrics = [primary] + names[: case["metrics"]]
  frame = pd.DataFrame({
      "other": rng.normal(size=n),
      item: [i for i, _ in rows],
      date: [start + pd.Timedelta(days=step * d) for _, d in rows],
      week: [step * d // 7 for _, d in rows],
      group: [groups[i] for i, _ in rows],
  })
  for m in metrics:
    frame[m] = np.round(rng.exponential(size=n), 4) if m != names[0] else rng.poisson(3, size=n)
  start_text = start.strftime("%Y-%m-%d")
  for kind, where in case["defects"]:
    if len(frame) < 2:
      break
    r = min(int(where * len(frame)), len(frame) - 1)
    victim = frame[item].iloc[r]
    if kind in ROW_DEFECTS:
      target = metrics[int(where * 7) % len(metrics)]
      frame = spoil(frame, kind, where, item, date, week, target).reset_index(drop=True)
      if kind in ("other_item", "swap_item"):
        pass
    elif kind == "flip_item":
      frame.loc[frame[item] == victim, group] = 1 - frame.loc[frame[item] == victim, group]
    elif kind == "flip_row":
      frame.loc[r, group] = 1 - frame.loc[r, group]
    elif kind == "swap_two":
      # the balance stays, two items change places
      ids = frame.drop_duplicates(item).set_index(item)[group]
      a, b = ids.index[ids == 0], ids.index[ids == 1]
      if len(a) and len(b):
        frame.loc[frame[item] == a[int(where * len(a))], group] = 1
        frame.loc[frame[item] == b[int(where * len(b))], group] = 0
    elif kind == "flip_all":
      frame[group] = 1 - frame[group]
    elif kind == "wrong_salt":
      design.coinflip_salt = salt + "x"
    elif kind == "no_salt":
      design.coinflip_salt = None
    elif kind == "empty_salt":
      design.coinflip_salt = ""
    elif kind == "primary":
      design.primary_metric = "something else"
    elif kind == "negative_other" and len(metrics) > 1:
      frame[metrics[-1]] = frame[metrics[-1]].astype(float)
      frame.loc[r, metrics[-1]] = -0.5
    elif kind == "negative_one":
      m = metrics[int(where * 7) % len(metrics)]
      frame[m] = frame[m].astype(float)
      frame.loc[r, m] = -0.5 if where < 0.5 else -1e-9
    elif kind == "both_groups":
      # from some date on all items have the same group
      dates = sorted(frame[date].unique())
      frame.loc[frame[date] >= dates[int(where * len(dates))], group] = int(where * 1000) % 2
    elif kind == "lopsided":
      chosen = set(items[: int(len(items) * (0.6 + 0.4 * where))])
      frame.loc[frame[item].isin(chosen), group] = int(where < 0.7)
    elif kind == "start_moved":
      start_text = (start + pd.Timedelta(days=int(where * 29) - 14)).strftime("%Y-%m-%d")
  if len(frame) == 0:
    return
  allow = {"primary": [primary], "other": metrics[1:], "last": metrics[-1:]}.get(case["allow"], case["allow"]) if isinstance(case["allow"], str) else case["allow"]
  unclear = bool(frame[item].isna().any())
  bad = failing(frame, item, date, week, metrics, allow or ()) if not unclear else {"no_nulls"}
  if not unclear:
    if design.primary_metric not in metrics:
      bad.add("primary_metric_in_metrics")
    if frame[item].nunique() != design.n_items_after_pre_trim:
      bad.add("number_of_items_matches_design")
    s = pd.Timestamp(start_text)
    if frame[date].min() > s - pd.Timedelta(days=7 * pretest):
      bad.add("experiment_dates_match_design")
    if concluded is not False and frame[date].max() < s + pd.Timedelta(days=7 * (runtime - 1)):
      bad.add("experiment_dates_match_design")
    seen = set(zip(frame[item], frame[group]))
    if len(seen) != frame[item].nunique():
      bad.add("treatment_assignment_is_unique")
    if not design.coinflip_salt or any(parity(design.coinflip_salt, i) != g for i, g in seen):
      bad.add("coinflip_salt_validation")
    ones, zeros = sum(g == 1 for _, g in seen), sum(g == 0 for _, g in seen)
    p = srm(ones, ones + zeros)
    if p < 0.001:
      bad.add("no_sample_ratio_mismatch")
    for bit, c in ((1, item), (2, group)):
      if case.get("cat", 0) & bit and not frame[c].isna().any():
        frame[c] = data.categorical(frame[c])
  before = frame.copy(deep=True)
  kw = dict(design=design, item_id_column=item, date_column=date, week_id_column=week, treatment_assignment_column=group,
            metric_columns=metrics if case["container"] == "list" else tuple(metrics), experiment_start_date=start_text)
  if concluded is not None:
    kw["experiment_has_concluded"] = concluded
  if allow is not None:
    kw["can_be_negative_metric_columns"] = allow
  verdict(ctx, "experiment data", bad, case["skip"], case["unknown"], unclear, dp.validate_experiment_data, frame, **kw)
  unchanged(before, frame, "the data")
  ctx.nontrivial = bool(bad) or case["unknown"] is not None


def srm(k, n):
  return float(min(1.0, 2 * stats.binom.cdf(min(k, n - k), n, 0.5)))


# ---------------------------------------------------------------- C20


@st.composite
def prep_case(draw):
  design = draw(designs.valid(
      max_n=draw(rarely(st.just(75), st.just(500), 60)), max_pretest=2, max_half=2, text=st.sampled_from(["clicks", "conversions", "my value"]), salts=st.just("s")))
  return {
      "design": design,
      "first": draw(DAYS),
      "weekly": draw(st.booleans()),
      "concluded": draw(st.sampled_from([True, True, True, False])),
      "tail": draw(st.integers(0, 9)),
      "outside": draw(st.sampled_from([0, 0, 0, 1, 2])),
      "density": draw(st.sampled_from([0.1, 0.4, 0.8, 1.0])),
      "unseen": draw(st.sampled_from([0, 0, 1, 5])),
      "strangers": draw(st.sampled_from([0, 0, 1, 8])),
      # dates on which only items outside of the experiment have rows
      "foreign": draw(st.sampled_from([0, 0, 1, 2])),
      # missing first dates and dates in between, with their checks skipped
      "late": draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2])),
      "gap": draw(st.integers(0, 7)) == 0,
      "metrics": [m for m in STANDARD if draw(st.booleans())],
      "others": draw(st.sampled_from([[], [], ["my value"], ["profit", "my value"]])),
      "flags": draw(st.sampled_from([None, "primary", "all"])),
      "kinds": [draw(st.sampled_from(["int", "float", "text"])) for _ in range(9)],
      "negative": draw(st.booleans()),
      "perf_ids": draw(st.sampled_from(["raw", "text"])),
      "assign_ids": draw(st.sampled_from(["raw", "text"])),
      "id_kind": draw(st.sampled_from(["int", "int", "int", "whole"] + ID_KINDS)),
      "twice": draw(st.sampled_from([0, 0, 0, 0, 1, 5])),
      "groups": draw(st.sampled_from(["int", "int", "float", "bool", "text"])),
      "dates": draw(st.sampled_from(["text", "timestamp"])),
      "names": draw(st.sampled_from([
          ["item_id", "date", "treatment_assignment", "{}"], ["SKU", "Day", "arm", "raw {}"], ["id", "dt", "group", "{}_x"]])),
      "order": draw(st.sampled_from(["sorted", "shuffled"])),
      "s": draw(SEEDS),
  }


def prep_setup(case):
  rng = np.random.default_rng(case["s"])
  spec = dict(case["design"])
  primary = spec["primary_metric"]
  metrics, others = list(case["metrics"]), list(case["others"])
  if primary in STANDARD and primary not in metrics:
    metrics.append(primary)
  if primary not in STANDARD and primary not in others:
    others.append(primary)
  metrics = [m for m in STANDARD if m in metrics]
  design = designs.make(spec)
  n = design.n_items_after_pre_trim
  numbers = [int(i) for i in rng.permutation(100000)[: n + case["strangers"]]]
  if case.get("id_kind", "int") == "whole":
    raw_ids = [float(i) for i in numbers]
  else:
    raw_ids = [ident(case.get("id_kind", "int"), i) for i in numbers]
  ids = [str(i) for i in raw_ids]
  raw_of = dict(zip(ids, raw_ids))
  for j in range(50):
    design.coinflip_salt = f"salt{j}"
    groups = [parity(design.coinflip_salt, i) for i in ids[:n]]
    if srm(sum(groups), n) > 0.01:
      break
  step = 7 if case["weekly"] else 1
  pretest, runtime = spec["pretest_weeks"], spec["runtime_weeks"]
  first, last = -pretest - case["outside"], runtime + (case["outside"] if case["concluded"] else 0)
  days = list(range(7 * first, 7 * last, step))
  if not case["concluded"]:
    days = days[: max(len(days) - case["tail"], min(len(days), -first * 7 // step + 1))]
  elif case["tail"] and not case["weekly"]:
    # the last week of a concluded experiment may be cut short
    days = days[: len(days) - min(case["tail"], 6)]
  skipped = []
  if case.get("late") and len(days) > case["late"] + 3:
    days = days[case["late"] :]
    skipped.append("experiment_dates_match_design")
  if case.get("gap") and len(days) > 4:
    days.pop(int(rng.integers(1, len(days) - 1)))
    skipped += ["dates_are_daily_or_weekly", "week_ids_are_consecutive_integers"]
  # which items get rows: not the unseen ones
  active = ids[case["unseen"] : n] + ids[n:]
  keep = rng.uniform(size=(len(active), len(days))) < case["density"]
  for d in range(len(days)):
    if not keep[:, d].any():
      keep[rng.integers(0, len(active)), d] = True
  if case["strangers"]:
    for _ in range(case.get("foreign", 0)):
      d = rng.integers(0, len(days))
      keep[: -case["strangers"], d] = False
      keep[-1, d] = True
  rows = [(i, d) for a, i in enumerate(active) for b, d in enumerate(days) if keep[a, b]]
  if case["order"] == "shuffled":
    rows = [rows[j] for j in rng.permutation(len(rows))]
  else:
    rows.sort(key=lambda r: (r[1], r[0]))
  if case.get("twice"):
    # several rows for an item and date: only without the check for them
    rows += [rows[j] for j in rng.integers(0, len(rows), size=case.get("twice"))]
  item, date, group, form = case["names"]
  cast = {"raw": lambda i: raw_of[i], "text": str}
  stamp = (lambda d: day(case["first"] + d)) if case["dates"] == "timestamp" else (
      lambda d: day(case["first"] + d).strftime("%Y-%m-%d"))
  perf = {"junk": rng.normal(size=len(rows)), item: [cast[{"int": "raw"}.get(case["perf_ids"], case["perf_ids"])](i) for i, _ in rows],
          date: [stamp(d) for _, d in rows]}
  values = {}
  can_negative = []
  for j, m in enumerate(metrics + others):
    v = rng.poisson(2, size=len(rows)).astype(float) if case["kinds"][j] == "int" else np.round(
        rng.exponential(size=len(rows)), 5)
    if case["negative"] and m in others and m != primary:
      v = v - 1.0
      can_negative.append(m)
    values[m] = v
    raw = form.format(m) if m in metrics else m
    perf[raw] = [repr(float(x)) for x in v] if case["kinds"][j] == "text" else (
        v.astype(int) if case["kinds"][j] == "int" else v)
  keys = list(perf)
  perf = pd.DataFrame({keys[j]: perf[keys[j]] for j in rng.permutation(len(keys))})
  order = rng.permutation(n)
  gcast = {"int": int, "float": float, "bool": bool, "text": str}[case["groups"]]
  assign = pd.DataFrame({
      group: [gcast(groups[j]) for j in order], item: [cast[{"int": "raw"}.get(case["assign_ids"], case["assign_ids"])](ids[j]) for j in order]})
  flags = {}
  if case["flags"]:
    for m in ([primary] if case["flags"] == "primary" else metrics + others):
      flags[m] = f"at_least_one_{m}"
  kw = dict(
      design=design, experiment_start_date=day(case["first"]).strftime("%Y-%m-%d"), item_id_column=item,
      date_column=date, treatment_assignment_column=group)
  for m in metrics:
    kw[f"{m}_column"] = form.format(m)
  if others:
    kw["other_metric_columns"] = others
  if can_negative:
    kw["can_be_negative_metric_columns"] = can_negative
  if flags:
    kw["at_least_one_metrics"] = dict(flags)
  if not case["concluded"]:
    kw["experiment_has_concluded"] = False
  if case["outside"]:
    # weeks outside of the design have no time period
    kw["skip_validation_checks"] = ["no_nulls"]
  if skipped:
    kw["skip_validation_checks"] = kw.get("skip_validation_checks", []) + skipped
  if case.get("twice"):
    kw["skip_validation_checks"] = kw.get("skip_validation_checks", []) + ["no_duplicate_items_per_date"]
  table = collections.defaultdict(list)
  for j, (i, d) in enumerate(rows):
    table[i, d].append(j)
  return design, perf, assign, kw, dict(
      ids=ids[:n], groups=groups, days=days, table=table, values=values, metrics=metrics + others, flags=flags)


def period_of(design, week):
  """The time period of a week relative to the start."""
  if -design.pretest_weeks <= week < 0:
    return "pretest"
  if not 0 <= week < design.runtime_weeks:
    return None
  if not design.is_crossover:
    return "test"
  half = design.runtime_weeks // 2
  part = 1 if week < half else 2
  return ("washout_" if week % half < design.crossover_washout_weeks else "test_") + str(part)


@check("C20", "model", prep_case, quick=900, rule="rows are missing, items are unseen or not assigned, or weeks are outside")
def c20(case, ctx):
  design, perf, assign, kw, ref = prep_setup(case)
  perf0, assign0, design0 = perf.copy(deep=True), assign.copy(deep=True), str(design)
  lists = {k: list(v) for k, v in kw.items() if isinstance(v, list)}
  got = ctx.sut(dp.prepare_and_validate_experiment_data, daily_performance_data=perf, treatment_assignment_data=assign, **kw)
  unchanged(perf0, perf, "the performance data")
  unchanged(assign0, assign, "the assignment data")
  require(str(design) == design0, "the design was changed")
  for k, v in lists.items():
    require(kw[k] == v, f"the list {k} was changed to {kw[k]}")
  judge_prepared(got, design, case, ref, "prepared data")
  rng = np.random.default_rng(case["s"])
  mixed = ctx.sut(dp.prepare_and_validate_experiment_data,
                  daily_performance_data=perf.iloc[rng.permutation(len(perf))].reset_index(drop=True),
                  treatment_assignment_data=assign.iloc[rng.permutation(len(assign))], **kw)
  judge_prepared(mixed, design, case, ref, "reordered rows")
  ctx.nontrivial = len(ref["table"]) < len(ref["ids"]) * len(ref["days"]) or case["strangers"] > 0
  ctx.label("several rows" if case.get("twice") else "one row")
  ctx.label("weekly" if case["weekly"] else "daily", "crossover" if design.is_crossover else "regular",
            "unseen items" if case["unseen"] else "all seen", f"ids {case['perf_ids']}/{case['assign_ids']}")


def judge_prepared(got, design, case, ref, what):
  metrics, flags = ref["metrics"], ref["flags"]
  want_columns = {"item_id", "date", "week_id", "week_start", "time_period", "treatment_assignment"} | set(metrics) | set(flags.values())
  require(set(got.columns) == want_columns, f"{what}: columns {sorted(got.columns)}, want {sorted(want_columns)}")
  pairs = [(i, d) for i in ref["ids"] for d in ref["days"]]
  n = sum(max(1, len(ref["table"].get(p, []))) for p in pairs)
  require(len(got) == n, f"{what}: {len(got)} rows, want {n}")
  group_of = dict(zip(ref["ids"], ref["groups"]))
  origin = day(case["first"])
  seen = collections.defaultdict(list)
  columns = {c: got[c].tolist() for c in got.columns}
  for r in range(n):
    i, date = columns["item_id"][r], columns["date"][r]
    require(i in group_of, f"{what}: item {i!r} was not assigned")
    d = (pd.Timestamp(date) - origin).days
    seen[i, d].append(tuple(columns[m][r] for m in metrics))
    require(columns["treatment_assignment"][r] == group_of[i], f"{what}: the group of item {i!r}")
    week = math.floor(d / 7)
    require(columns["week_id"][r] == week, f"{what}: week id {columns['week_id'][r]} on {date}, want {week}")
    require(pd.Timestamp(columns["week_start"][r]) == origin + pd.Timedelta(days=7 * week), f"{what}: week start on {date}")
    want, have = period_of(design, week), columns["time_period"][r]
    require(have == want or (want is None and not isinstance(have, str)), f"{what}: period {have!r} in week {week}, want {want!r}")
    for m in metrics:
      if m in flags:
        require(columns[flags[m]][r] == (1 if columns[m][r] > 0 else 0), f"{what}: {flags[m]} of item {i!r} on {date}")
  require({d for _, d in seen} == set(ref["days"]), f"{what}: the dates differ")
  for i, d in pairs:
    rows = ref["table"].get((i, d), [])
    want = [tuple(ref["values"][m][j] for m in metrics) for j in rows] or [(0.0,) * len(metrics)]
    require(sorted(seen[i, d]) == sorted(want),
            f"{what}: {metrics} of item {i!r} on day {d} are {sorted(seen[i, d])}, want {sorted(want)}")


# ---------------------------------------------------------------- C37

NAMES = ["check", "Check", "check ", "check_2", "chec", "pr\u00fcfung", "a,b", "check's", "[check]", "check\n2", "100%", "{x}"]
SERIAL = [0]


@st.composite
def registry_case(draw):
  n = draw(st.integers(1, 5))
  names = [draw(st.sampled_from(NAMES)) for _ in range(n)]
  calls = draw(st.lists(st.fixed_dictionaries({
      "check": st.integers(0, n - 1),
      "fails": st.sampled_from([True, True, True, False]),
      "message": st.sampled_from(["", "some text", "100% {of} it", "'quoted'", "\u00e4"]),
      "skip": st.one_of(st.none(), st.lists(st.sampled_from(NAMES + ["*", ""]), max_size=4), st.just("own"), st.just("all but own")),
      "args": st.lists(st.integers(0, 9), max_size=3),
      "kwargs": st.dictionaries(st.sampled_from(["data", "columns", "x"]), st.integers(0, 9), max_size=3),
      "error": st.sampled_from([None] * 6 + ["KeyError", "ValueError"]),
  }), min_size=1, max_size=12))
  return {"names": names, "calls": calls, "late": draw(st.integers(0, n)), "ask": draw(st.lists(st.sampled_from(NAMES), max_size=6))}


@check("C37", "registry", registry_case, quick=9000, rule="a check fails, and is skipped or not")
def c37(case, ctx):
  # the registry lives as long as the process: every case has its own names
  SERIAL[0] += 1
  own = {name: f"{name} of case {SERIAL[0]}" for name in NAMES}
  own.update({"*": "*", "": ""})
  known, wrapped, log = set(), {}, []

  def register(j):
    def inner(*args, **kwargs):
      outcome = log[-1]
      outcome["got"].append((j, args, kwargs))
      if outcome["error"]:
        raise {"KeyError": KeyError, "ValueError": ValueError}[outcome["error"]]("from inside")
      return outcome["fails"], outcome["message"]

    name = own[case["names"][j]]
    ctx.sut_called = True
    wrapped[j] = dp.ValidationChecks.add_check(name)(inner)
    known.add(name)

  def ask():
    for name in case["ask"] + case["names"]:
      if own[name] in known:
        ctx.sut(dp.ValidationChecks.assert_check_exists, own[name])
      else:
        ctx.rejects(f"the unknown check {own[name]!r}", dp.ValidationChecks.assert_check_exists, own[name])

  # some checks are registered only after others were called
  for j in range(case["late"]):
    register(j)
  ask()
  half = len(case["calls"]) // 2
  for k, call in enumerate(case["calls"]):
    if k == half:
      for j in range(case["late"], len(case["names"])):
        register(j)
      ask()
    j = call["check"]
    if j not in wrapped:
      continue
    name = own[case["names"][j]]
    skip = call["skip"]
    if skip == "own":
      skip = ["x", name]
    elif skip == "all but own":
      skip = [v for v in own.values() if v != name]
    elif skip is not None:
      skip = [own[v] for v in skip]
    log.append({"fails": call["fails"], "message": call["message"], "error": call["error"], "got": []})
    kw = dict(call["kwargs"])
    if skip is not None or k % 2:
      kw["skip_validation_checks"] = skip
    out = io.StringIO()
    raised = None
    given = None if skip is None else list(skip)
    with contextlib.redirect_stdout(out):
      try:
        result = wrapped[j](*call["args"], **kw)
      except Exception as e:  # pylint: disable=broad-except
        raised = e
    what = f"check {name!r} ({'fails' if call['fails'] else 'passes'}), skipping {skip}"
    require(log[-1]["got"] == [(j, tuple(call["args"]), call["kwargs"])], f"{what}: it was called as {log[-1]['got']}")
    require(skip == given, f"{what}: the list of skipped checks was changed")
    if call["error"]:
      require(type(raised).__name__ == call["error"] and "from inside" in str(raised), f"{what}: its own {call['error']} became {raised!r}")
      ctx.label("raises an error of its own")
      continue
    skipped = skip is not None and name in skip
    if call["fails"] and not skipped:
      require(isinstance(raised, ValueError), f"{what}: {'raised ' + repr(raised) if raised else 'accepted'}, but it has to raise a ValueError")
      require(name in str(raised) and call["message"] in str(raised), f"{what}: the error does not tell the name and the message: {raised}")
      ctx.label("fails")
    else:
      require(raised is None, f"{what}: raised {raised!r}")
      require(result is None, f"{what}: returned {result!r}")
      if call["fails"]:
        require(name in out.getvalue() and call["message"] in out.getvalue(), f"{what}: the user is not told: {out.getvalue()!r}")
      ctx.label("skipped" if call["fails"] else "passes")
    ctx.nontrivial = ctx.nontrivial or call["fails"]


@st.composite
def ratio_case(draw):
  n = draw(rarely(st.one_of(st.integers(1, 60), st.integers(1, 600)), st.integers(600, 4000)))
  # close to where the decision changes, for any threshold
  threshold = draw(st.sampled_from([None, None, None, 0.001, 0.01, 0.05, 0.2, 0.5, 1e-6, 1e-12, 0.0]))
  return {
      "n": n,
      "threshold": threshold,
      "off": draw(st.one_of(st.integers(-3, 3), st.integers(-n, n))),
      "arm": draw(st.integers(0, 1)),
      "ids": draw(st.sampled_from(ID_KINDS)),
      "rows": draw(st.sampled_from(["once", "equal", "more if treated", "more if control", "random"])),
      "dtype": draw(st.sampled_from(["int64", "int8", "float64", "category"])),
      "names": draw(st.sampled_from([["item_id", "treatment_assignment"], ["arm", "item"], ["x", "treatment_assignment"]])),
      "index": draw(st.sampled_from(["range", "equal"])),
      "skip": draw(st.sampled_from([False, False, False, True])),
      "keywords": draw(st.booleans()),
      "s": draw(SEEDS),
  }


def tail(k, n):
  """2 ** n times the probability of at most k heads, exactly."""
  total, term = 0, 1
  for i in range(k + 1):
    total += term
    term = term * (n - i) // (i + 1)
  return total


def two_sided(k, n):
  """The p-value of k heads of n, as a fraction."""
  k = min(k, n - k)
  return min(fractions.Fraction(1), fractions.Fraction(2 * tail(k, n), 2**n))


@check("C37", "sample_ratio", ratio_case, quick=3500, rule="the p-value is less than 20 times or more than a 20th of the threshold")
def c37_ratio(case, ctx):
  n = case["n"]
  threshold = 0.001 if case["threshold"] is None else case["threshold"]
  edge = int(stats.binom.ppf(min(max(threshold, 1e-300) / 2, 0.5), n, 0.5))
  k = min(max(edge + case["off"], 0), n)
  n_treated = k if case["arm"] else n - k
  rng = np.random.default_rng(case["s"])
  arms = np.array([1] * n_treated + [0] * (n - n_treated))
  arms = arms[rng.permutation(n)]
  reps = {"once": np.ones(n, int), "equal": np.full(n, 3), "more if treated": 1 + 2 * arms, "more if control": 3 - 2 * arms,
          "random": rng.integers(1, 6, size=n)}[case["rows"]]
  who = np.repeat(np.arange(n), reps)
  who = who[rng.permutation(len(who))]
  item, arm = case["names"]
  ids = pd.Series([ident(case["ids"], i) for i in range(n)])
  frame = pd.DataFrame({"clicks": rng.normal(size=len(who)), item: ids.iloc[who].to_numpy(), arm: arms[who]})
  frame[arm] = frame[arm].astype(case["dtype"])
  if case["index"] == "equal":
    frame.index = np.zeros(len(frame), int)
  before = frame.copy(deep=True)
  p = two_sided(n_treated, n)
  kw = {"skip_validation_checks": ["no_sample_ratio_mismatch"]} if case["skip"] else {}
  if case["threshold"] is not None:
    kw["p_value_threshold"] = threshold
  if case["keywords"]:
    args, more = (), {"experiment_data": frame, "item_id_column": item, "treatment_assignment_column": arm}
  else:
    args, more = (frame, item, arm), {}
  what = f"{n_treated} of {n} items treated, p = {float(p):.6g}, threshold {threshold}"
  ratio = float(p / fractions.Fraction(threshold)) if threshold else math.inf
  if abs(ratio - 1) < 1e-9:
    ctx.label("too close to call")
    return
  if ratio < 1 and not case["skip"]:
    text = ctx.rejects(what, dp.validate_no_sample_ratio_mismatch, *args, **more, **kw)
    require("no_sample_ratio_mismatch" in text, f"{what}: the error does not name the check: {text}")
  else:
    ctx.sut(dp.validate_no_sample_ratio_mismatch, *args, **more, **kw)
  unchanged(before, frame, "the data")
  ctx.label("mismatch" if ratio < 1 else "no mismatch", f"rows per item: {case['rows']}")
  ctx.nontrivial = 0.05 < ratio < 20
