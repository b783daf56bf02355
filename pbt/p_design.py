"""C08-C13: designs, coinflips, assignment and trimming."""
import copy
import dataclasses
import hashlib
import math
import os
import random
import re
import tempfile

from hypothesis import strategies as st
import numpy as np
import pandas as pd
from scipy import stats
import yaml

from pbt import core, data, designs
from pbt.core import check, close, require, unchanged
from pbt.data import SEEDS
from feedx import data_preparation as dp
from feedx import experiment_analysis as ea
from feedx import experiment_design as ed
from feedx import statistics as fs

# ---------------------------------------------------------------- C08


def runnable(d):
  """Why the design cannot be run, or None."""
  if d["runtime_weeks"] <= 0:
    return "runtime"
  if d["pretest_weeks"] < 0:
    return "pretest"
  top, bottom, post = (d[f"{x}_percentile"] for x in ("pre_trim_top", "pre_trim_bottom", "post_trim"))
  if min(top, bottom, post) < 0:
    return "negative trim"
  if top + bottom >= 1:
    return "pre-trim sum"
  if post >= 0.5:
    return "post-trim"
  if d["pretest_weeks"] == 0 and (top > 0 or bottom > 0):
    return "pre-trim without pretest"
  if d["is_crossover"]:
    w = d["crossover_washout_weeks"]
    if w is None:
      return "no washout"
    if w < 0:
      return "negative washout"
    if d["runtime_weeks"] <= 2 * w:
      return "washout too long"
    if d["runtime_weeks"] % 2:
      return "odd runtime"
  if designs.counts(d["n_items_before_trimming"], top, bottom, post)[1] <= 50:
    return "too few items"
  return None


@st.composite
def any_design(draw):
  d = draw(designs.valid(text=designs.TEXT))
  defects = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 3]))
  for _ in range(defects):
    kind = draw(st.sampled_from([
        "runtime_weeks", "pretest_weeks", "top", "bottom", "post", "sum", "nopretest",
        "washout", "n", "n_edge", "crossover", "round", "round",
    ]))
    if kind == "runtime_weeks":
      d["runtime_weeks"] = draw(st.integers(-3, 13))
    elif kind == "pretest_weeks":
      d["pretest_weeks"] = draw(st.integers(-3, 3))
    elif kind in ("top", "bottom", "post"):
      key = {"top": "pre_trim_top", "bottom": "pre_trim_bottom", "post": "post_trim"}[kind] + "_percentile"
      d[key] = draw(st.one_of(
          st.sampled_from([-0.01, -1e-9, 0.0, 0.49999, 0.5, 0.50001, 0.9, 1.0, 1.5, 0.25]),
          st.floats(-0.5, 1.5)))
    elif kind == "sum":
      d["pre_trim_top_percentile"] = draw(st.sampled_from([0.5, 0.4, 0.1, 0.999, 0.3]))
      rest = 1.0 - d["pre_trim_top_percentile"]
      d["pre_trim_bottom_percentile"] = draw(st.sampled_from(
          [rest, rest - 0.001, rest + 0.001, math.nextafter(rest, 0), rest / 2]))
      d["n_items_before_trimming"] = draw(st.sampled_from([100, 1000, 100000]))
      d["pretest_weeks"] = max(d["pretest_weeks"], draw(st.integers(0, 2)))
    elif kind == "nopretest":
      d["pretest_weeks"] = 0
    elif kind == "washout":
      d["crossover_washout_weeks"] = draw(st.sampled_from([None, -1, 0, 1, 2, 3, 5]))
    elif kind == "n":
      d["n_items_before_trimming"] = draw(st.one_of(st.integers(-5, 120), st.integers(0, 10**6)))
    elif kind == "n_edge":
      # the smallest counts around the limit of 50
      n = 51
      top, bottom, post = (d[f"{x}_percentile"] for x in ("pre_trim_top", "pre_trim_bottom", "post_trim"))
      if min(top, bottom, post) >= 0 and top + bottom < 0.95 and post < 0.49:
        while designs.counts(n, top, bottom, post)[1] <= 50 and n < 5000:
          n += 1
      d["n_items_before_trimming"] = n + draw(st.integers(-3, 2))
    elif kind == "crossover":
      d["is_crossover"] = not d["is_crossover"]
    elif kind == "round":
      # products that are whole numbers on paper, but not always in floating point
      d["n_items_before_trimming"] = 100 * draw(st.integers(1, 30))
      d["post_trim_percentile"] = draw(st.integers(0, 49)) / 100
      if d["pretest_weeks"] > 0:
        d["pre_trim_top_percentile"] = draw(st.integers(0, 59)) / 100
        d["pre_trim_bottom_percentile"] = draw(st.sampled_from([0, 0, 1, 2, 7, 14, 29, 35])) / 100
  return {"design": d, "s": draw(SEEDS), "omit": draw(st.booleans())}


@check("C08", "validity", any_design, quick=35000,
       rule="the design trims, is a crossover, or is to be rejected")
def c08(case, ctx):
  d = dict(case["design"])
  if case["omit"]:
    for key, default in (("crossover_washout_weeks", None), ("alpha", 0.05), ("power", 0.8), ("coinflip_salt", None)):
      if d[key] == default:
        d.pop(key)
  why = runnable(case["design"])
  ctx.label(why or "valid")
  if why:
    ctx.rejects(f"design that cannot be run ({why})", ed.ExperimentDesign, **d)
    ctx.nontrivial = True
    return
  got = ctx.sut(ed.ExperimentDesign, **d)
  d = case["design"]
  for key, value in d.items():
    require(getattr(got, key) == value, f"{key} is {getattr(got, key)!r}, given {value!r}")
  top, bottom, post = (d[f"{x}_percentile"] for x in ("pre_trim_top", "pre_trim_bottom", "post_trim"))
  n = d["n_items_before_trimming"]
  n1, n2 = designs.counts(n, top, bottom, post)
  require((got.n_items_after_pre_trim, got.n_items_after_post_trim) == (n1, n2),
          f"counts {got.n_items_after_pre_trim}, {got.n_items_after_post_trim}, want {n1}, {n2}")
  ctx.nontrivial = n2 < n or d["is_crossover"]
  if n <= 400 and n2 < n:
    rng = np.random.default_rng(case["s"])
    values = pd.DataFrame({"m": rng.normal(size=n)})
    kept = ctx.sut(dp.trim_outliers, values, order_by="m", trim_percentile_top=top,
                   trim_percentile_bottom=bottom, rng=rng)
    require(len(kept) == n1, f"pre-trimming keeps {len(kept)}, the design says {n1}")
    arr = ctx.sut(fs.TrimmedArray, kept["m"].values, post)
    require(len(arr) == n2, f"the trimmed statistics keep {len(arr)}, the design says {n2}")
    ctx.label("compared with the trimming")


# ---------------------------------------------------------------- C09

FIELDS = ["n_items_before_trimming", "runtime_weeks", "primary_metric", "pretest_weeks", "is_crossover",
          "pre_trim_top_percentile", "pre_trim_bottom_percentile", "post_trim_percentile",
          "crossover_washout_weeks", "alpha", "power"]
SALTS = st.one_of(st.none(), designs.TEXT)
CHANGES = {
    "alpha": lambda v: v / 2,
    "power": lambda v: 0.6 if v > 0.7 else 0.85,
    "primary_metric": lambda v: v + "2",
    "runtime_weeks": lambda v: v + 2,
    "pretest_weeks": lambda v: v + 1,
}


@st.composite
def yaml_case(draw):
  return {"design": draw(designs.valid(text=designs.TEXT, salts=SALTS, max_n=10**6)), "salt": draw(SALTS),
          # the parameters of the design are changed to those of another one
          "change": draw(st.lists(st.sampled_from(sorted(CHANGES)), max_size=2, unique=True))}


def in_tmp(f):
  with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as tmp:
    return f(os.path.join(tmp, "design.yaml"))


@check("C09", "round_trip", yaml_case, quick=7000, rule="every case writes and loads a design")
def c09(case, ctx):
  d = ctx.sut(designs.make, case["design"])
  before = dataclasses.asdict(d)
  ident = ctx.sut(lambda: d.design_id)
  require(isinstance(ident, str) and ident, "the id is not a text", ident)
  require(ctx.sut(lambda: d.design_id) == ident, "the id changed between two calls")

  def go(path):
    ctx.sut(d.write_to_yaml, path)
    first = open(path, "rb").read()
    back = ctx.sut(ed.ExperimentDesign.load_from_yaml, path)
    require(open(path, "rb").read() == first, "loading changed the file")
    again = ctx.sut(ed.ExperimentDesign.load_from_yaml, path)
    require(again == back, "loading twice gives different designs")
    # writing over an existing longer file
    with open(path, "w") as f:
      f.write("x: 1\n" * 200)
    ctx.sut(back.write_to_yaml, path)
    third = ctx.sut(ed.ExperimentDesign.load_from_yaml, path)
    require(third == back, "written over another file: loads another design")
    # another design at the same place
    other = ctx.sut(designs.make, dict(
        case["design"], n_items_before_trimming=case["design"]["n_items_before_trimming"] + 50, coinflip_salt=None))
    ctx.sut(other.write_to_yaml, path)
    require(ctx.sut(ed.ExperimentDesign.load_from_yaml, path) == other,
            "another design written to the same file: the old one is loaded")
    return back

  back = in_tmp(go)
  require(dataclasses.asdict(d) == before, "reading the id or writing changed the design")
  require(type(back) is ed.ExperimentDesign and back == d, f"loaded {back!r}, written {d!r}")
  for f in dataclasses.fields(d):
    a, b = getattr(d, f.name), getattr(back, f.name)
    require(a == b and type(a) is type(b), f"{f.name}: written {a!r}, loaded {b!r}")
  require(ctx.sut(lambda: back.design_id) == ident, "the loaded design has another id")
  salted = ctx.sut(designs.make, dict(case["design"], coinflip_salt=case["salt"]))
  require(ctx.sut(lambda: salted.design_id) == ident, "the id depends on the salt")
  require(salted.coinflip_salt == case["salt"], "reading the id changed the salt")
  if case.get("change"):
    changed = {c: CHANGES[c](case["design"][c]) for c in case["change"]}
    for c, v in changed.items():
      setattr(salted, c, v)
    fresh = ctx.sut(designs.make, {**case["design"], **changed})
    require(ctx.sut(lambda: fresh.design_id) == ctx.sut(lambda: salted.design_id) != ident,
            f"the id does not follow a change of {sorted(changed)}")
  if hash_of(case) % 8 == 0:
    other = designs.peer({"op": "design_id", "spec": case["design"]})
    require(other == ident, f"another process gives id {other}, this one {ident}")
    ctx.label("other process")
  ctx.nontrivial = True


def hash_of(case):
  return int(hashlib.md5(core.dumps(case).encode()).hexdigest(), 16)


@st.composite
def two_designs(draw):
  spec = draw(designs.valid(text=designs.TEXT, salts=SALTS))
  field = draw(st.sampled_from(FIELDS))
  other = dict(spec, coinflip_salt=draw(SALTS))
  v = spec[field]
  if field == "n_items_before_trimming":
    other[field] = v + draw(st.integers(1, 50))
  elif field in ("runtime_weeks", "pretest_weeks"):
    other[field] = v + 2 * draw(st.integers(1, 3))
  elif field == "primary_metric":
    other[field] = draw(st.one_of(
        designs.TEXT, st.sampled_from([v + " ", v + "'", v.upper(), v + "\\", v[:-1], "'" + v, v + ", pretest_weeks=3"])))
  elif field == "is_crossover":
    other[field] = not v
    if other["crossover_washout_weeks"] is None:
      other["crossover_washout_weeks"] = 0
      spec["crossover_washout_weeks"] = 0
    if other[field]:
      w = other["crossover_washout_weeks"]
      other["runtime_weeks"] = spec["runtime_weeks"] = max(2 * w + 2, spec["runtime_weeks"] // 2 * 2)
  elif field == "crossover_washout_weeks":
    if spec["is_crossover"]:
      other["runtime_weeks"] = spec["runtime_weeks"] = 20
      other[field] = (v + draw(st.integers(1, 9))) % 10
    else:
      other[field] = draw(st.sampled_from([x for x in (None, 0, 1, 2) if x != v]))
  else:
    other[field] = draw(st.one_of(
        st.just(math.nextafter(v, 1)), st.just(v / 2), st.floats(1e-4, 0.2), st.just(round(v, 2) + 0.01)))
    other[field] = min(abs(other[field]), 0.99)
    if field.endswith("percentile"):
      other["n_items_before_trimming"] = spec["n_items_before_trimming"] = 100000
      if field != "post_trim_percentile":
        other["pretest_weeks"] = spec["pretest_weeks"] = max(1, spec["pretest_weeks"])
  return {"a": spec, "b": other, "field": field}


@check("C09", "distinct_ids", two_designs, quick=8000, rule="the designs differ in one parameter besides the salt")
def c09_ids(case, ctx):
  a, b = case["a"], case["b"]
  if runnable(a) or runnable(b):
    return
  x, y = ctx.sut(designs.make, a), ctx.sut(designs.make, b)
  same = all(a[f] == b[f] for f in FIELDS)
  ia, ib = ctx.sut(lambda: x.design_id), ctx.sut(lambda: y.design_id)
  require((ia == ib) == same, f"designs that differ in {case['field']}: ids {ia} and {ib}")
  ctx.nontrivial = not same
  ctx.label(case["field"])


@st.composite
def tampered(draw):
  spec = draw(designs.valid(text=designs.TEXT, salts=SALTS))
  kind = draw(st.sampled_from(["pre", "post", "both", "param", "invalid"]))
  bad = draw(any_design())["design"]
  return {"design": spec, "kind": kind, "by": draw(st.sampled_from([1, -1, 2, -2, 10, -50])),
          "n": draw(st.integers(1, 500)), "bad": bad}


@check("C09", "tampered_files", tampered, quick=5000, rule="the file was changed so that it does not fit")
def c09_bad(case, ctx):
  d = ctx.sut(designs.make, case["design"])
  raw = dataclasses.asdict(d)
  kind = case["kind"]
  if kind in ("pre", "both"):
    raw["n_items_after_pre_trim"] += case["by"]
  if kind in ("post", "both"):
    raw["n_items_after_post_trim"] += case["by"]
  if kind == "param":
    raw["n_items_before_trimming"] += case["n"]
  if kind == "invalid":
    top, bottom, post = (case["bad"][f"{x}_percentile"] for x in ("pre_trim_top", "pre_trim_bottom", "post_trim"))
    raw.update(case["bad"])
    raw["n_items_after_pre_trim"], raw["n_items_after_post_trim"] = designs.counts(
        raw["n_items_before_trimming"], top, bottom, post)
  ok = runnable(raw) is None and designs.counts(
      raw["n_items_before_trimming"], raw["pre_trim_top_percentile"], raw["pre_trim_bottom_percentile"],
      raw["post_trim_percentile"]) == (raw["n_items_after_pre_trim"], raw["n_items_after_post_trim"])
  ctx.label(kind, "fits" if ok else "does not fit")

  def go(path):
    with open(path, "w") as f:
      yaml.safe_dump(raw, f)
    if ok:
      back = ctx.sut(ed.ExperimentDesign.load_from_yaml, path)
      require(dataclasses.asdict(back) == raw, "the loaded design differs from the file")
    else:
      ctx.rejects(f"file with {raw}", ed.ExperimentDesign.load_from_yaml, path)
      ctx.nontrivial = True

  in_tmp(go)


# ---------------------------------------------------------------- C10

PRINTABLE = st.one_of(designs.NAMES, st.text("abcXYZ_ 0123456789%", min_size=1, max_size=12))


@st.composite
def printed_case(draw):
  return {
      "design": draw(designs.valid(text=PRINTABLE, max_half=9, max_pretest=12,
                                   crossover=draw(st.sampled_from([True, True, False])))),
      "start": draw(st.integers(-30, 30)),
  }


@check("C10", "printed", printed_case, quick=24000, rule="the design is a crossover or trims items")
def c10(case, ctx):
  spec = case["design"]
  d = ctx.sut(designs.make, spec)
  text = ctx.sut(str, d)
  ident = ctx.sut(lambda: d.design_id)

  def one(pattern, what):
    found = re.findall(pattern, text, re.M)
    require(len(found) == 1, f"{what}: {len(found)} lines match {pattern!r} in\n{text}")
    return found[0]

  def says(pattern, want, what):
    got = one(pattern, what)
    require(got == str(want), f"{what}: printed {got!r}, want {want!r}")

  require(ident in text.splitlines()[0], "the first line does not name the id")
  kind = "crossover experiment" if d.is_crossover else (
      "regular experiment (CUPED adjusted)" if d.pretest_weeks > 0 else "regular experiment")
  says(r"Experiment type: (.*)$", kind, "type")
  says(r"Primary metric: (.*)$", spec["primary_metric"], "metric")
  says(r"before start of experiment used for analysis: (.*)$", spec["pretest_weeks"], "pretest weeks")
  says(r"Total experiment runtime weeks: (.*)$", spec["runtime_weeks"], "runtime weeks")
  says(r"Alpha threshold: (.*)$", spec["alpha"], "alpha")
  says(r"Power: (.*)$", spec["power"], "power")
  says(r"Coinflip salt: (.*)$", spec["coinflip_salt"], "salt")
  if d.is_crossover:
    swap = int(one(r"swapped\s+(\d+)\s+weeks after", "swap week"))
    listed = [int(x) for x in re.findall(r"\d+", one(r"Weeks \[(.*)\]", "washout weeks"))]
    says(r"start of each period: (.*)$", spec["crossover_washout_weeks"], "washout length")
    weeks = pd.DataFrame({"w": range(case["start"], case["start"] + spec["runtime_weeks"])})
    periods = ctx.sut(ea.add_time_period_column, weeks.copy(), design=d, start_week_id=case["start"],
                      week_id_column="w", time_period_column="p")["p"].tolist()
    washouts = [i + 1 for i, p in enumerate(periods) if p in ("washout_1", "washout_2")]
    require(listed == washouts, f"printed washout weeks {listed}, used {washouts}")
    first_half = sum(p in ("washout_1", "test_1") for p in periods)
    require(swap == first_half and set(periods[swap:]) <= {"washout_2", "test_2"},
            f"printed swap after {swap} weeks, used {periods}")
    ctx.label("crossover", f"washout {min(len(washouts), 5)}")
  else:
    require("washout" not in text.replace(spec["primary_metric"], "") and "swapped" not in text,
            "a crossover schedule is printed for a regular design")
  n, n1, n2 = d.n_items_before_trimming, d.n_items_after_pre_trim, d.n_items_after_post_trim
  top, bottom, post = (spec[f"{x}_percentile"] for x in ("pre_trim_top", "pre_trim_bottom", "post_trim"))
  if n2 == n:
    says(r"Number of items: (.*)$", n, "number of items")
    require("Top" not in text and "remaining after" not in text, "trimming is described, but removes nothing")
  else:
    says(r"before trimming\): (.*)$", n, "items before trimming")
    pre = re.findall(r"remaining after trimming for the\s+experiment: (.*)$", text, re.M)
    aft = re.findall(r"remaining after trimming for the\s+analysis: (.*)$", text, re.M)
    require(pre == ([str(n1)] if n1 < n else []), f"items after pre-trimming: printed {pre}, want {n1} of {n}")
    require(aft == ([str(n2)] if n2 < n1 else []), f"items after post-trimming: printed {aft}, want {n2} of {n1}")
    for name, fr, pattern, removed in (
        ("top", top, r"Top (\S+) of items with highest", math.floor(top * n) > 0),
        ("bottom", bottom, r"Bottom (\S+) (?:of )?items with\s+lowest", math.floor(bottom * n) > 0),
        ("post", post, r"Top and bottom (\S+) of items", n2 < n1),
    ):
      got = re.findall(pattern, text, re.M)
      if removed:
        require(got == [f"{fr:.2%}"], f"{name} trimming: printed {got}, want {fr:.2%}")
      elif fr == 0 or name == "post":
        require(not got, f"{name} trimming is printed, but removes nothing: {got}")
    ctx.label("trimmed")
  ctx.nontrivial = d.is_crossover or n2 < n


# ---------------------------------------------------------------- C11


def parity(salt, item):
  return int(hashlib.md5((salt + str(item)).encode("utf-8")).hexdigest(), 16) % 2


NO_SURROGATES = st.characters(exclude_categories=["Cs"])
ITEMS = st.one_of(
    st.integers(-10, 10**6), st.integers(0, 10**18), st.text(NO_SURROGATES, max_size=12),
    st.integers(0, 10**6).map(lambda i: f"item_{i}"),
    # equal numbers with different texts, for one instance
    st.sampled_from([1, 1.0, "1", "1.0", "01", 0, 0.0, "0", 7, 7.0, "7", "7.0", 25, 25.0, "25"]),
    st.integers(0, 10**7).map(float), st.floats(0, 1e12), st.floats(allow_nan=False, allow_infinity=False),
)


@st.composite
def flip_case(draw):
  return {
      "salt": draw(st.one_of(
          st.text(NO_SURROGATES, min_size=1, max_size=20), st.text("0123456789abcdef", min_size=1, max_size=32),
          st.sampled_from(["a", " ", "0", "abc", "é", "salt"]))),
      "items": draw(st.lists(ITEMS, min_size=1, max_size=30)),
  }


@check("C11", "parity", flip_case, quick=48000, rule="at least two different items")
def c11(case, ctx):
  salt, items = case["salt"], case["items"]
  flip = ctx.sut(ed.Coinflip, salt)
  require(flip.salt == salt, "the salt is not kept")
  got = [ctx.sut(flip, i) for i in items]
  for i, g in zip(items, got):
    want = parity(salt, i)
    require(g == want and isinstance(g, (int, np.integer)), f"Coinflip({salt!r})({i!r}) = {g!r}, want {want}")
    if isinstance(i, int):
      require(ctx.sut(flip, str(i)) == want, f"{i!r} and its text get different groups")
      if abs(i) < 2**62:
        require(ctx.sut(flip, np.int64(i)) == want, f"numpy integer {i} gets another group")
    elif isinstance(i, float):
      require(ctx.sut(flip, str(i)) == want, f"{i!r} and its text get different groups")
    elif "\0" not in i:
      require(ctx.sut(flip, np.str_(i)) == want, "numpy text gets another group")
  other = ctx.sut(ed.Coinflip, salt)
  require([ctx.sut(other, i) for i in reversed(items)] == got[::-1], "another instance or order gives other groups")
  if hash_of(case) % 10 == 0:
    require(designs.peer({"op": "flip", "salt": salt, "items": items}) == got, "another process gives other groups")
    ctx.label("other process")
  ctx.nontrivial = len(set(map(str, items))) > 1


@st.composite
def balance_case(draw):
  return {
      "salts": draw(st.lists(st.text("abcdefghij0123456789", min_size=1, max_size=12), min_size=2, max_size=2, unique=True)),
      "kind": draw(st.sampled_from(["int", "item_", "padded", "hex", "sku", "multiples"])),
      "start": draw(st.integers(0, 10**6)),
      "n": draw(st.integers(200, 2000)),
  }


def item_list(kind, start, n):
  r = range(start, start + n)
  if kind in ("long", "tricky"):
    return [data.ident(kind, i) for i in r]
  if kind == "int":
    return list(r)
  if kind == "multiples":
    return [16 * i for i in r]
  form = {"item_": "item_{}", "padded": "{:010d}", "hex": "{:x}", "sku": "online:en:US:{}"}[kind]
  return [form.format(i) for i in r]


@check("C11", "balance", balance_case, quick=400, rule="every case flips a coin for hundreds of items with two salts")
def c11_balance(case, ctx):
  items = item_list(case["kind"], case["start"], case["n"])
  a, b = (ctx.sut(ed.Coinflip, s) for s in case["salts"])
  ga, gb = np.array([ctx.sut(a, i) for i in items]), np.array([ctx.sut(b, i) for i in items])
  n = len(items)
  for what, k in (("treated", ga.sum()), ("treated with the other salt", gb.sum()), ("equal for both salts", (ga == gb).sum())):
    p = min(1.0, 2 * stats.binom.cdf(min(k, n - k), n, 0.5))
    require(p > 1e-10, f"{k} of {n} items are {what} (p={p:.2g})")
  ctx.nontrivial = True


@st.composite
def salt_case(draw):
  return {"seed": draw(SEEDS), "k": draw(st.integers(2, 6)), "length": draw(st.sampled_from([None, 8, 10, 16, 32]))}


@check("C11", "salts", salt_case, quick=400, rule="every case draws several random salts")
def c11_salts(case, ctx):
  salts = []
  for _ in range(case["k"]):
    # even if somebody seeds the global generators
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    flip = ctx.sut(ed.Coinflip.with_random_salt) if case["length"] is None else ctx.sut(
        ed.Coinflip.with_random_salt, salt_length=case["length"])
    require(isinstance(flip.salt, str) and flip.salt, "the random salt is empty", flip.salt)
    again = ctx.sut(ed.Coinflip, flip.salt)
    for i in range(40):
      require(ctx.sut(flip, f"i{i}") == ctx.sut(again, f"i{i}") == parity(flip.salt, f"i{i}"), "the kept salt does not repeat it")
    salts.append(flip.salt)
  require(len(set(salts)) == len(salts), f"random salts repeat: {salts}")
  ctx.rejects("empty salt", ed.Coinflip, "")
  ctx.nontrivial = True


# ---------------------------------------------------------------- C12


@st.composite
def assignment_case(draw):
  # seldom many items
  spec = draw(designs.valid(max_n=draw(st.sampled_from([300] * 9 + [2500])), pretest=draw(st.sampled_from([0, 1, 1, 2, 3, 4])), salts=st.one_of(
      st.none(), st.just(""), st.text("abcdef0123456789", min_size=1, max_size=20))))
  lopsided = draw(st.sampled_from([None, None, None, 0.62, 0.35, 0.7, 0.0, 1.0, 0.6, 0.4]))
  if lopsided is not None and not spec["coinflip_salt"]:
    spec["coinflip_salt"] = "fixed"
  return {
      "design": spec,
      "other_n": draw(st.sampled_from([0, 0, 0, 5])),
      "lopsided": lopsided,
      "ids": draw(st.sampled_from(["int", "item_", "padded", "sku", "long", "tricky"])),
      "start": draw(st.integers(0, 10000)),
      "week0": draw(st.sampled_from([0, 0, 1, -3, 17, -40])),
      "extra_weeks": draw(st.integers(0, 4)),
      "values": draw(st.sampled_from(["lognormal", "poisson", "ints", "constant", "normal", "trend"])),
      "rows": draw(st.sampled_from(["sorted", "shuffled", "byitem"])),
      "daily": draw(st.integers(0, 3)) == 0,
      "ragged": draw(st.sampled_from([0.0, 0.0, 0.3, 0.8])),
      "s": draw(SEEDS),
      "names": draw(st.sampled_from([
          ["item_id", "week_id", None], ["item_id", "week_id", "treatment_assignment"],
          ["sku", "wk", "group"], ["id", "Week Number", "treated"]])),
      "no_week": draw(st.booleans()),
      "cat": draw(st.integers(0, 6)) == 0,
      "null": draw(st.integers(0, 6)) == 0,
      "index": draw(st.sampled_from(["range", "shifted", "dup"])),
  }


def historical(case, pick=None):
  """Complete weekly (or daily) data of the items."""
  spec = case["design"]
  n = spec["n_items_before_trimming"] + case["other_n"]
  rng = np.random.default_rng(case["s"])
  items = item_list(case["ids"], case["start"], n * 6 if pick is not None else n)
  if pick is not None:
    items = pick(items, n, rng)
  weeks = spec["pretest_weeks"] + case["extra_weeks"] + (spec["pretest_weeks"] == 0)
  per = 3 if case["daily"] else 1
  item_col, week_col, _ = case["names"]
  m = spec["primary_metric"]
  grid_items = np.repeat(np.arange(n), weeks * per)
  grid_weeks = np.tile(np.repeat(np.arange(weeks), per), n) + case["week0"]
  size = len(grid_items)
  kind = case["values"]
  if kind == "lognormal":
    v = rng.lognormal(size=n)[grid_items] * rng.lognormal(sigma=0.7, size=size)
  elif kind == "normal":
    v = rng.normal(size=size)
  elif kind == "poisson":
    v = rng.poisson(0.7, size=size).astype(float)
  elif kind == "ints":
    v = rng.integers(0, 5, size=size)
  elif kind == "trend":
    # the order of the items turns around over time
    slope = rng.normal(size=n)
    v = 100 + slope[grid_items] * (grid_weeks - grid_weeks.max() + spec["pretest_weeks"] - 0.7) * 10
  else:
    v = np.full(size, 3.0)
  out = pd.DataFrame({
      "noise": rng.normal(size=size),
      week_col: grid_weeks,
      m: v,
      item_col: pd.Series(items)[grid_items].values,
      "other": rng.integers(0, 9, size=size),
  })
  if case.get("cat"):
    out[item_col] = data.categorical(out[item_col])
  if case.get("null"):
    out = out.convert_dtypes()
  if case.get("ragged"):
    # some rows are missing, but every item has one in the last week
    out = out[(rng.uniform(size=size) >= case["ragged"]) | ((grid_weeks == grid_weeks.max()) & (np.arange(size) % per == 0))]
    size = len(out)
  if case["rows"] == "shuffled":
    out = out.iloc[rng.permutation(size)]
  elif case["rows"] == "sorted":
    out = out.sort_values([week_col, item_col], kind="stable")
  if case["index"] == "range":
    out = out.reset_index(drop=True)
  elif case["index"] == "shifted":
    out.index = np.arange(size) * 3 + 100
  else:
    out.index = np.arange(size) // 2
  return out, items


def srm_p(k, n):
  return float(min(1.0, 2 * stats.binom.cdf(min(k, n - k), n, 0.5)))


@check("C12", "assignment", assignment_case, quick=6600,
       rule="items are pre-trimmed, the assignment is lopsided, or a salt is drawn")
def c12(case, ctx):
  spec = dict(case["design"])
  if case["lopsided"] is None:
    frame, items = historical(case)
  else:
    def pick(pool, n, rng):
      groups = {0: [], 1: []}
      for i in pool:
        groups[parity(spec["coinflip_salt"], i)].append(i)
      k = min(int(round(case["lopsided"] * n)), len(groups[1]))
      chosen = groups[1][:k] + groups[0][: n - k]
      rng.shuffle(chosen)
      return chosen

    frame, items = historical(case, pick)
  if len(set(items)) != len(items) or len(items) < 20:
    raise core.HarnessError("items")
  design = designs.make(spec)
  item_col, week_col, out_col = case["names"]
  m = spec["primary_metric"]
  top, bottom = spec["pre_trim_top_percentile"], spec["pre_trim_bottom_percentile"]
  pre = top > 0 or bottom > 0
  kw = {} if out_col is None else {"treatment_assignment_column": out_col}
  out_col = out_col or "treatment_assignment"
  if pre or not case["no_week"]:
    kw["week_id_column"] = week_col
  n = frame[item_col].nunique()
  n_top, n_bottom = (int(math.floor(x * n)) for x in (top, bottom))
  before, before_design = frame.copy(deep=True), dataclasses.asdict(design)

  # the reference: totals over the last pretest weeks
  last = np.sort(frame[week_col].unique())[-spec["pretest_weeks"]:] if pre else []
  totals = frame[frame[week_col].isin(last)].groupby(item_col, observed=True)[m].sum() if pre else None
  must, may = set(items), set()
  if pre:
    s = np.sort(totals.values)
    eps = 1e-9 * np.max(np.abs(s))
    lo = s[n_bottom] if n_bottom else -math.inf
    hi = s[n - n_top - 1] if n_top else math.inf
    must = set(totals.index[(totals > lo + eps) & (totals < hi - eps)])
    may = set(totals.index[((totals - lo).abs() <= eps) | ((totals - hi).abs() <= eps)])
    if not n_top or not n_bottom:
      must |= set(totals.index[(totals > lo + eps) & (totals < hi - eps)])
  n_kept = n - n_top - n_bottom
  settled = len(must) + len(may) == n_kept

  def run(d, seed):
    ctx.sut_called = True
    try:
      return dp.perform_treatment_assignment(
          frame, design=d, rng=np.random.default_rng(seed), item_id_column=item_col, **kw)
    except ValueError as e:
      return e
    except Exception as e:  # pylint: disable=broad-except
      raise core.Violation(f"perform_treatment_assignment raised {type(e).__name__}: {e}") from e

  got = run(design, case["s"])
  unchanged(before, frame, "the historical data")
  salt = design.coinflip_salt
  require(isinstance(salt, str) and salt, "no salt is stored in the design", salt)
  if spec["coinflip_salt"]:
    require(salt == spec["coinflip_salt"], "the salt of the design was replaced")
  after = dataclasses.asdict(design)
  require({**after, "coinflip_salt": None} == {**before_design, "coinflip_salt": None}, "the design was changed")

  ctx.label("pre-trimmed" if pre else "all items", "settled" if settled else "ties decide")
  ctx.nontrivial = n_kept < n or case["lopsided"] is not None or not spec["coinflip_salt"]
  if settled:
    kept = must | may
    p = srm_p(sum(parity(salt, i) for i in kept), len(kept))
  elif isinstance(got, Exception):
    # all choices among the ties
    k_must = sum(parity(salt, i) for i in must)
    ones = sum(parity(salt, i) for i in may)
    free = n_kept - len(must)
    ks = range(k_must + max(0, free - (len(may) - ones)), k_must + min(free, ones) + 1)
    require(any(srm_p(k, n_kept) < 0.001 for k in ks), f"rejected, but no choice is lopsided: {got}")
    ctx.label("rejected")
    return
  else:
    p = None
  if isinstance(got, Exception):
    require(p < 0.001 + 1e-9, f"rejected although the groups are balanced (p={p!r}): {got}")
    ctx.label("rejected")
    again = run(design, case["s"] + 1)
    require(isinstance(again, Exception), "rejected only the first time")
    return
  if p is not None:
    require(p >= 0.001 - 1e-9, f"a sample ratio mismatch (p={p!r}) was accepted")

  def judge(res, what):
    require(isinstance(res, pd.DataFrame), f"{what}: not a data frame")
    require(sorted(res.columns) == sorted([item_col, out_col]), f"{what}: columns {list(res.columns)}")
    ids = res[item_col].tolist()
    require(len(ids) == len(set(ids)), f"{what}: an item is listed twice")
    require(len(ids) == n_kept, f"{what}: {len(ids)} items, want {n_kept}")
    require(must <= set(ids), f"{what}: {len(must - set(ids))} items are missing, e.g. {list(must - set(ids))[:3]}")
    require(set(ids) <= must | may, f"{what}: {len(set(ids) - must - may)} items should have been trimmed")
    for i, g in zip(ids, res[out_col].tolist()):
      require(g == parity(salt, i), f"{what}: item {i!r} is in group {g!r}")

  judge(got, "assignment")
  again = run(copy.deepcopy(design), case["s"])
  require(isinstance(again, pd.DataFrame), f"the second run fails: {again}")
  judge(again, "second run")
  require(
      sorted(zip(got[item_col], got[out_col]), key=str) == sorted(zip(again[item_col], again[out_col]), key=str),
      "a second run gives another assignment")
  if settled:
    third = run(copy.deepcopy(design), case["s"] + 1)
    judge(third, "another generator")
  if not spec["coinflip_salt"]:
    twin = designs.make(spec)
    run(twin, case["s"])
    require(isinstance(twin.coinflip_salt, str) and twin.coinflip_salt, "no salt is stored in a second design")
    require(twin.coinflip_salt != salt, "two designs without a salt were given the same random salt", salt)
  counts = sum(parity(salt, i) for i in got[item_col])
  require(srm_p(counts, n_kept) >= 0.001 - 1e-9, "a sample ratio mismatch was accepted")


@check("C12", "rejections", assignment_case, quick=500, rule="every case is a rejection")
def c12_bad(case, ctx):
  case = dict(case, lopsided=None)
  frame, _ = historical(case)
  design = designs.make(dict(case["design"], coinflip_salt="x"))
  item_col, week_col, out_col = case["names"]
  out_col = out_col or "treatment_assignment"
  rng = np.random.default_rng(0)
  f = dp.perform_treatment_assignment
  kw = dict(design=design, rng=rng, item_id_column=item_col, week_id_column=week_col, treatment_assignment_column=out_col)
  pre = design.pre_trim_top_percentile > 0 or design.pre_trim_bottom_percentile > 0
  ctx.nontrivial = True
  ctx.rejects("missing item column", f, frame.drop(columns=item_col), **kw)
  ctx.rejects("equal column names", f, frame, **dict(kw, treatment_assignment_column=item_col))
  if pre:
    ctx.rejects("missing week column", f, frame.drop(columns=week_col), **kw)
    ctx.rejects("no week column", f, frame, **dict(kw, week_id_column=None))
    ctx.label("pre-trimmed")


# ---------------------------------------------------------------- C13


@st.composite
def trim_frame_case(draw):
  spec = draw(data.sample(min_n=1, max_n=150))
  n = data.size(spec)

  def fraction():
    return st.one_of(
        st.just(0.0), st.sampled_from([0.05, 0.1, 0.25, 0.29, 0.3, 0.5, 0.7]),
        st.integers(0, n).map(lambda k: k / n), st.floats(0, 0.99))

  top = draw(fraction())
  bottom = draw(fraction())
  if top + bottom >= 1.0:
    scale = draw(st.floats(0.5, 0.99)) / (top + bottom)
    top, bottom = top * scale, bottom * scale
  return {
      "v": spec, "top": top, "bottom": bottom, "s": draw(SEEDS),
      "index": draw(st.sampled_from(["range", "shuffled", "text", "multi", "negative"])),
      "columns": draw(st.sampled_from(["flat", "two"])),
      "round": draw(st.sampled_from([False, False, "int", "float"])),
      "legacy": draw(st.booleans()),
  }


def trim_input(case):
  v = data.build(case["v"])
  n = len(v)
  rng = np.random.default_rng(case["s"])
  if case["round"]:
    spread = np.std(v) or 1.0
    v = np.round(v / spread * 2)
    if case["round"] == "int":
      v = v.astype(int)
  frame = pd.DataFrame({"a": rng.integers(0, 5, size=n), "m": v, "t": [f"r{i}" for i in range(n)]})
  order_by = "m"
  if case["columns"] == "two":
    frame.columns = pd.MultiIndex.from_tuples([("x", "a"), ("m", "pretest"), ("m", "test")], names=["k", "p"])
    order_by = ("m", "pretest")
  if case["index"] == "shuffled":
    frame.index = rng.permutation(n)
  elif case["index"] == "text":
    frame.index = pd.Index([f"i{j}" for j in rng.permutation(n)], name="id")
  elif case["index"] == "multi":
    frame.index = pd.MultiIndex.from_arrays([rng.permutation(n), rng.integers(0, 2, size=n)], names=["i", "g"])
  elif case["index"] == "negative":
    frame.index = -np.arange(n)
  return frame, order_by, v


def make_rng(case, offset=0):
  if case["legacy"]:
    return np.random.RandomState((case["s"] + offset) % 2**32)
  return np.random.default_rng(case["s"] + offset)


@check("C13", "extremes", trim_frame_case, quick=15000, rule="at least one row is removed and one kept")
def c13(case, ctx):
  frame, order_by, v = trim_input(case)
  n = len(v)
  before = frame.copy(deep=True)
  top, bottom = case["top"], case["bottom"]
  k_top, k_bottom = math.floor(top * n), math.floor(bottom * n)

  def run(offset=0):
    return ctx.sut(dp.trim_outliers, frame, order_by=order_by, trim_percentile_top=top,
                   trim_percentile_bottom=bottom, rng=make_rng(case, offset))

  got = run()
  unchanged(before, frame, "the input")
  require(len(got) == n - k_top - k_bottom, f"{len(got)} rows are left, want {n - k_top - k_bottom}")
  require(got.index.isin(frame.index).all() and got.index.is_unique, "rows were made up")
  mask = frame.index.isin(got.index)
  require(core.frame_equal(frame[mask], got), "the kept rows changed their order, index or contents")
  s = np.sort(v)
  require(np.array_equal(np.sort(v[mask]), s[k_bottom : n - k_top]), "other rows than the extremes were removed")
  again = run()
  require(core.frame_equal(got, again), "the same seed gives another result")
  if not case["legacy"]:
    ctx.label("generator")
  ctx.nontrivial = (k_top + k_bottom) > 0 and len(got) > 0
  ctx.label("trimmed" if ctx.nontrivial else "not trimmed", "ties" if len(np.unique(v)) < n else "no ties")


@st.composite
def tie_case(draw):
  # low values, tied values and high values: a part of the tied ones is cut
  low, tied, high = draw(st.integers(0, 4)), draw(st.integers(2, 12)), draw(st.integers(0, 4))
  side = draw(st.sampled_from(["top", "bottom", "both"]))
  cut = draw(st.integers(1, tied - 1))
  return {"low": low, "tied": tied, "high": high, "side": side, "cut": cut,
          "order": draw(st.sampled_from(["first", "last", "mixed"])), "s": draw(SEEDS)}


@check("C13", "random_ties", tie_case, quick=120, rule="a part of the tied rows is removed")
def c13_ties(case, ctx):
  low, tied, high, cut = (case[k] for k in ("low", "tied", "high", "cut"))
  v = np.array([1.0] * low + [2.0] * tied + [3.0] * high)
  n = len(v)
  rng = np.random.default_rng(case["s"])
  if case["order"] == "last":
    v = v[::-1]
  elif case["order"] == "mixed":
    v = rng.permutation(v)
  where = np.flatnonzero(v == 2.0)
  k_top = high + cut if case["side"] in ("top", "both") else 0
  k_bottom = low + cut if case["side"] == "bottom" else 0
  if case["side"] == "both":
    k_top, k_bottom = high + (cut + 1) // 2, low + cut // 2
    if k_top + k_bottom >= n:
      return
  if k_top + k_bottom - (high if k_top else 0) - (low if k_bottom or case["side"] == "both" else 0) <= 0:
    return
  frame = pd.DataFrame({"m": v})
  top, bottom = (k_top + 0.5) / n if k_top else 0.0, (k_bottom + 0.5) / n if k_bottom else 0.0
  if top + bottom >= 1:
    return
  repeats = 150
  removed = np.zeros(n)
  gen = np.random.default_rng(case["s"])
  for _ in range(repeats):
    got = ctx.sut(dp.trim_outliers, frame, order_by="m", trim_percentile_top=top, trim_percentile_bottom=bottom, rng=gen)
    gone = np.ones(n, bool)
    gone[got.index] = False
    removed += gone
  share = removed[where].sum() / (repeats * tied)
  for i, k in zip(where, removed[where]):
    p = 2 * min(stats.binom.cdf(k, repeats, share), stats.binom.sf(k - 1, repeats, share))
    require(p > 1e-9, f"of {tied} tied rows {share:.2f} are removed, but the one at position {i} in {int(k)} of {repeats} runs")
  ctx.nontrivial = True


@st.composite
def bad_fractions(draw):
  kind = draw(st.sampled_from(["top", "bottom", "sum", "both"]))
  neg = st.one_of(st.sampled_from([-1e-9, -0.1, -0.5, -1.0]), st.floats(-10, -1e-6))
  if kind == "top":
    top, bottom = draw(neg), draw(st.floats(0, 0.9))
  elif kind == "bottom":
    top, bottom = draw(st.floats(0, 0.9)), draw(neg)
  elif kind == "both":
    top, bottom = draw(neg), draw(neg)
  else:
    top = draw(st.floats(0, 1.5))
    bottom = max(0.0, 1.0 - top) + draw(st.sampled_from([1e-9, 0.0, 0.3]))
    if top + bottom < 1.0:
      bottom += 0.01
  case = draw(trim_frame_case())
  case.update(top=top, bottom=bottom)
  return case


@check("C13", "rejections", bad_fractions, quick=500, rule="every case is a rejection")
def c13_bad(case, ctx):
  frame, order_by, _ = trim_input(case)
  ctx.nontrivial = True
  ctx.rejects(f"fractions top={case['top']}, bottom={case['bottom']}", dp.trim_outliers, frame, order_by=order_by,
              trim_percentile_top=case["top"], trim_percentile_bottom=case["bottom"], rng=make_rng(case))
