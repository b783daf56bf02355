"""C01-C07: the statistics."""
import math

from hypothesis import strategies as st
import numpy as np
from scipy import stats

from pbt import data
from pbt.core import HarnessError, allclose, check, close, require
from pbt.data import SEEDS, Trim, build, sample
from feedx import statistics as fs

ALTS = ["two-sided", "greater", "less"]
ALPHAS = st.one_of(
    st.sampled_from([0.05, 0.05, 0.01, 0.1, 0.2, 0.001, 0.3, 0.4]),
    st.floats(1e-4, 0.4),
)
BAD_ALTS = st.one_of(
    st.sampled_from([
        "", "two_sided", "Two-sided", "two-sided ", "TWO-SIDED", "Greater",
        "Less", "larger", "smaller", "great", "les", "two", "both", "none",
        "greater ", "unequal", "two-sidedgreater",
    ]),
    st.text(max_size=12).filter(lambda x: x not in ALTS),
)


# ---------------------------------------------------------------- C01


TYPES = {"i1": np.int8, "i2": np.int16, "i4": np.int32, "i8": np.int64, "u1": np.uint8, "u2": np.uint16, "u4": np.uint32,
         "u8": np.uint64, "b": bool}
KINDS = st.sampled_from([None] * 20 + ["i8", "i8", *TYPES])


def typed(kind, x):
  """The sample as whole numbers of another type (None: as it is)."""
  if not kind:
    return x
  dtype = TYPES["i8" if kind is True else kind]
  if dtype is bool:
    return x > np.median(x)
  x = np.round(x)
  info = np.iinfo(dtype)
  if info.min == 0:
    x = np.abs(x)
  return np.clip(x, max(float(info.min), -1e9), min(float(info.max), 1e9)).astype(dtype)


def as_ints(case, *arrays):
  """Whole numbers of another type, if the case wants them and they fit."""
  given = [x for x in arrays if x is not None]
  if not case.get("int") or any(not 2 < np.max(np.abs(x)) < 1e9 for x in given):
    return arrays
  if case["den"] and (case["int"] == "b" or case["den"]["lo"] < 1.0 or abs(case["den"]["sc"]) != 1.0):
    return arrays
  if case["den"] and case["den"]["sc"] < 0 and case["int"] in ("u1", "u2", "u4", "u8"):
    return arrays
  return tuple(None if x is None else typed(case["int"], x) for x in arrays)


@st.composite
def trimmed_case(draw):
  first = draw(sample(min_n=1, max_n=300, large=20000))
  n = data.size(first)
  ddof = draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
  ddof = min(ddof, n - 1)
  q = draw(data.quantile(n, min_kept=ddof + 1))
  others = []
  for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2, 4]))):
    others.append({
        "d": draw(st.sampled_from(data.DISTS)),
        "s": draw(SEEDS),
        "lo": draw(data.LOCS),
        "sc": draw(data.SCALES),
        "mix": draw(st.sampled_from([0.0, 0.5, -0.9])),
    })
  return {
      "first": first,
      "others": others,
      "as2d": draw(st.booleans()),
      "q": q,
      "ddof": ddof,
      "int": draw(KINDS),
      "layout": draw(st.sampled_from(["C", "F", "strided", "readonly"])),
      "order": draw(st.permutations(["mean", "wmean", "cov", "var", "std", "len"])),
      "again": draw(st.sampled_from([0, 1])),
  }


def rows_of(case):
  x = build(case["first"])
  rows = [x]
  for o in case["others"]:
    r = np.random.default_rng(o["s"])
    y = data.raw(o["d"], r, len(x)) + o["lo"]
    spread = np.std(x) or 1.0
    rows.append((y + o["mix"] * (x - x.mean()) / spread) * o["sc"])
  return rows


@check(
    "C01", "definition", trimmed_case, quick=27000,
    rule="at least one observation is trimmed from each end",
)
def c01(case, ctx):
  rows = rows_of(case)
  arr = np.array(rows)
  if case["int"] and np.max(np.abs(arr)) < 1e9:
    arr = np.array([typed(case["int"], r) for r in arr])
    rows = [r.astype(float) for r in arr]
  one = len(rows) == 1 and not case["as2d"]
  if one:
    arr = arr[0]
  if case["layout"] == "F":
    arr = np.asfortranarray(arr)
  elif case["layout"] == "strided":
    arr = np.repeat(arr, 2, axis=-1)[..., ::2]
  elif case["layout"] == "readonly":
    arr.setflags(write=False)
  before = arr.copy()
  q, ddof = case["q"], case["ddof"]
  ref = Trim(rows, q)
  n, k, m = ref.n, ref.k, len(rows)

  t = ctx.sut(fs.TrimmedArray, arr, q)
  got = {}
  for name in case["order"]:
    if name == "len":
      got[name] = ctx.sut(len, t)
    elif name == "mean":
      got[name] = ctx.sut(t.mean)
    elif name == "wmean":
      got[name] = ctx.sut(t.winsorized_mean)
    else:
      got[name] = ctx.sut(getattr(t, name), ddof=ddof)
  require(np.array_equal(before, arr), "the input array was changed")
  require(got["len"] == n - 2 * k, f"kept {got['len']}, want {n - 2 * k}")
  require(t.n_trim == k, f"n_trim {t.n_trim}, want {k}")
  require(t.original_sample_size == n, "original_sample_size")

  if m == 1:
    for name in ("mean", "wmean", "cov", "var", "std"):
      require(np.ndim(got[name]) == 0, f"{name} of one row is not a number", got[name])
  else:
    for name in ("mean", "wmean", "var", "std"):
      require(np.shape(got[name]) == (m,), f"shape of {name}")
    require(np.shape(got["cov"]) == (m, m), "shape of cov")
  mean, wmean = np.atleast_1d(got["mean"]), np.atleast_1d(got["wmean"])
  cov, var, std = np.atleast_2d(got["cov"]), np.atleast_1d(got["var"]), np.atleast_1d(got["std"])
  big = [float(np.max(np.abs(r))) for r in rows]
  allclose(std**2, var, "squared std against var", rtol=1e-12)
  exact = m if ref.settled else 1
  for i in range(exact):
    close(mean[i], ref.mean(i), f"trimmed mean of row {i}", 1e-9, 1e-12 * big[i])
    close(wmean[i], ref.winsorized_mean(i), f"winsorized mean of row {i}", 1e-9, 1e-12 * big[i])
    for j in range(exact):
      want = ref.cov(i, j, ddof)
      atol = 1e-11 * big[i] * big[j] * n / (n - 2 * k - ddof)
      close(cov[i, j], want, f"winsorized cov of rows {i} and {j}", 1e-9, atol)
      if i == j:
        close(var[i], want, f"winsorized var of row {i}", 1e-9, atol)
  # asked again, with another ddof
  other = min(case.get("again", 0), n - 2 * k - 1)
  kept = n - 2 * k
  ratio = (kept - ddof) / (kept - other)
  for name, power in (("cov", 1.0), ("std", 0.5), ("var", 1.0)):
    more = np.asarray(ctx.sut(getattr(t, name), ddof=other), dtype=float)
    floor = 1e-300 + 1e-12 * np.max(np.abs(got[name]))
    allclose(more, np.asarray(got[name]) * ratio**power, f"{name} with ddof {other} after {ddof}", 1e-9, floor)
    if other == 0:
      allclose(ctx.sut(getattr(t, name)), more, f"{name} without ddof", 1e-12)
  allclose(ctx.sut(t.mean), got["mean"], "the trimmed mean, asked again", 1e-13)
  require(np.array_equal(before, arr), "the input array was changed")
  # the trimmed values: the same observations of all rows
  trimmed = np.atleast_2d(np.asarray(t.values_trimmed))
  require(trimmed.shape == (m, n - 2 * k), "shape of values_trimmed")
  columns = {}
  for col in np.array(rows).T.tolist():
    columns[tuple(col)] = columns.get(tuple(col), 0) + 1
  for col in trimmed.T.tolist():
    left = columns.get(tuple(col), 0)
    require(left > 0, "a kept observation is not one of the input", col)
    columns[tuple(col)] = left - 1
  require(
      sorted(trimmed[0].tolist()) == sorted(ref.trimmed(0).astype(float).tolist()),
      "other observations are kept than the middle ones of the first row",
  )
  for name, extreme in (("min_values", min), ("max_values", max)):
    col = np.asarray(getattr(t, name)).tolist()
    require(col in trimmed.T.tolist() and col[0] == extreme(trimmed[0].tolist()), f"{name} is not a kept observation at that end", col)
  ctx.nontrivial = k > 0
  ctx.label("trimmed" if k else "not trimmed", f"{min(m, 3)} rows",
            "ties decide" if not ref.settled else "no ties at the cut")


@st.composite
def bad_trim(draw):
  kind = draw(st.sampled_from(["quantile", "shape"]))
  if kind == "quantile":
    q = draw(st.one_of(
        st.sampled_from([0.5, 0.50001, 1.0, 2.0, -1e-12, -0.1, -0.5, float("inf"), float("-inf")]),
        st.floats(0.5, 100), st.floats(-100, -1e-9)))
    shape = draw(st.sampled_from([[7], [2, 7], [60]]))
  else:
    q = draw(st.sampled_from([0.0, 0.1, 0.3]))
    shape = draw(st.sampled_from([[2, 3, 4], [1, 1, 5], [5, 1, 1], [2, 2, 2, 2], [1, 1, 1, 8], [1, 5, 1]]))
  return {"q": q, "shape": shape, "s": draw(SEEDS)}


@check("C01", "rejections", bad_trim, quick=600, rule="every case is a rejection")
def c01_bad(case, ctx):
  arr = np.random.default_rng(case["s"]).normal(size=case["shape"])
  ctx.nontrivial = True
  ctx.rejects(f"TrimmedArray({case})", fs.TrimmedArray, arr, case["q"])


# ---------------------------------------------------------------- C02


@st.composite
def cuped_case(draw):
  metric = draw(sample(min_n=3, max_n=400, large=12000))
  n = data.size(metric)
  return {
      "metric": metric,
      "cov": draw(st.sampled_from(data.DISTS + ["constant"])),
      "s": draw(SEEDS),
      "rho": draw(st.sampled_from([0.0, 0.1, 0.3, 0.6, 0.9, 0.99, -0.1, -0.5, -0.9, -0.99])),
      "outliers": draw(st.sampled_from([0, 0, 1, 3])),
      "lo": draw(data.LOCS),
      "sc": draw(data.SCALES),
      "q": draw(data.quantile(n, min_kept=2)),
      "shift": draw(st.sampled_from([0.0, 3.0, -100.0])),
      "stretch": draw(st.sampled_from([1.0, 2.0, -1.0, 1e-3, -7.5, 1e4])),
      "int": draw(KINDS),
  }


@check(
    "C02", "cuped", cuped_case, quick=36000,
    rule="metric and covariate vary and the adjustment is not the identity",
)
def c02(case, ctx):
  y = build(case["metric"])
  n = len(y)
  rng = np.random.default_rng(case["s"])
  if case["cov"] == "constant":
    x = np.full(n, case["lo"] * case["sc"])
  else:
    noise = data.raw(case["cov"], rng, n)
    spread = np.std(y)
    z = (y - y.mean()) / spread if spread > 0 else 0.0 * y
    x = case["rho"] * z + math.sqrt(1 - case["rho"] ** 2) * noise
    if case["outliers"]:
      x[rng.integers(0, n, size=case["outliers"])] += 50.0 * rng.choice([-1, 1])
    x = (x + case["lo"]) * case["sc"]
  if case["int"] and np.max(np.abs(y)) < 1e9 and np.max(np.abs(x)) < 1e9:
    y, x = typed(case["int"], y), typed(case["int"], x)
  q = case["q"]
  y0, x0 = y.copy(), x.copy()
  got = ctx.sut(fs.apply_cuped_adjustment, y, x, q)
  require(np.array_equal(y, y0) and np.array_equal(x, x0), "an input was changed")
  got = np.array(got, dtype=float)
  require(got.shape == (n,), "shape of the adjusted metric", got.shape)
  y, x = y.astype(float), x.astype(float)
  big = float(np.max(np.abs(y))) or 1.0
  ref_y = Trim([y], q)
  k = ref_y.k
  var_y = ref_y.var(0)
  x_ld, y_ld = x.astype(np.longdouble), y.astype(np.longdouble)
  constant_x = bool(np.all(x == x[0]))
  var_x = float(np.mean((x_ld - x_ld.mean()) ** 2))
  big_x = float(np.max(np.abs(x))) or 1.0
  tol = 1e-9 * big
  ctx.label("trimmed" if k else "not trimmed")

  if constant_x:
    ctx.label("constant covariate")
    allclose(got, y, "metric adjusted by a constant covariate", 1e-12)
    return
  if not np.all(np.isfinite(got)):
    require(False, "the adjusted metric is not finite")
  ref_got = Trim([got], q)
  if k == 0 or var_y > 0:
    close(ref_got.mean(0), ref_y.mean(0), "trimmed mean after the adjustment", 1e-9, tol)
  slack = 1e-9 * var_y + 1e-11 * big * big
  require(
      ref_got.var(0) <= var_y + slack,
      f"winsorized variance grew from {var_y!r} to {ref_got.var(0)!r}",
  )
  cov_xy = float(np.mean((x_ld - x_ld.mean()) * (y_ld - y_ld.mean())))
  theta = cov_xy / var_x
  first = np.asarray(y_ld - theta * (x_ld - x_ld.mean()), dtype=float)
  if k == 0:
    allclose(got, first, "CUPED adjusted metric", 1e-8, 10 * tol)
    if var_y > 1e-9 * big * big:
      corr_sq = cov_xy**2 / (var_x * var_y)
      close(np.var(got), var_y * (1 - corr_sq), "variance after CUPED", 1e-7, 1e-9 * var_y)
    moved = case["stretch"] * x + case["shift"] * big_x * abs(case["stretch"])
    again = np.array(ctx.sut(fs.apply_cuped_adjustment, y, moved, q), dtype=float)
    allclose(again, got, "CUPED after moving and stretching the covariate", 1e-6, 1e-6 * big)
    ctx.nontrivial = not np.allclose(got, y, atol=tol)
    return

  first_tol = 1e-10 * (big + abs(theta) * big_x)
  if data.near_ties(first, k, first_tol) or near(first, k, first_tol):
    ctx.label("ties decide")
    return
  ref = Trim([first, y, x], q)
  vx = ref.var(2)
  if vx <= 1e-16 * big_x * big_x:
    ctx.label("covariate constant after trimming")
    return
  theta_t = ref.cov(1, 2) / vx
  plain = np.asarray(y_ld - theta_t * x_ld, dtype=float)
  ref_plain = Trim([plain], q)
  want = plain + ref_y.mean(0) - ref_plain.mean(0)
  gain = var_y - ref_plain.var(0)
  wide = big + abs(theta_t) * big_x
  if abs(gain) <= 1e-9 * var_y + 1e-12 * wide * wide:
    ctx.label("no clear gain")
    ok = np.allclose(got, y, rtol=1e-8, atol=1e-8 * wide) or np.allclose(
        got, want, rtol=1e-8, atol=1e-8 * wide)
    require(ok, "neither the metric nor its trimmed CUPED adjustment")
  elif gain > 0:
    allclose(got, want, "trimmed CUPED adjusted metric", 1e-8, 1e-8 * wide)
    ctx.nontrivial = True
  else:
    ctx.label("fall back")
    allclose(got, y, "metric that CUPED cannot improve", 1e-12)
    ctx.nontrivial = True


def cuped_reference(y, x, q):
  """The adjusted metric, or None if rounding errors decide what it is."""
  y, x = np.asarray(y, dtype=float), np.asarray(x, dtype=float)
  n = len(y)
  if bool(np.all(x == x[0])):
    return y
  y_ld, x_ld = y.astype(np.longdouble), x.astype(np.longdouble)
  var_x = np.mean((x_ld - x_ld.mean()) ** 2)
  big, big_x = float(np.max(np.abs(y))) or 1.0, float(np.max(np.abs(x))) or 1.0
  if var_x <= 1e-16 * big_x * big_x:
    return None
  theta = np.mean((x_ld - x_ld.mean()) * (y_ld - y_ld.mean())) / var_x
  first = np.asarray(y_ld - theta * (x_ld - x_ld.mean()), dtype=float)
  ref_y = Trim([y], q)
  k = ref_y.k
  if k == 0:
    return first
  tol = 1e-10 * (big + abs(float(theta)) * big_x)
  if data.near_ties(first, k, tol) or near(first, k, tol):
    return None
  ref = Trim([first, y, x], q)
  vx = ref.var(2)
  if vx <= 1e-16 * big_x * big_x:
    return None
  theta_t = ref.cov(1, 2) / vx
  plain = np.asarray(y_ld - theta_t * x_ld, dtype=float)
  ref_plain = Trim([plain], q)
  var_y = ref_y.var(0)
  gain = var_y - ref_plain.var(0)
  if abs(gain) <= 1e-9 * var_y + 1e-12 * (big + abs(theta_t) * big_x) ** 2:
    return None
  return plain + ref_y.mean(0) - ref_plain.mean(0) if gain > 0 else y


def near(key, k, tol):
  """Ties anywhere next to the cut, on either side."""
  s = np.sort(key)
  n = len(s)
  i = [k - 1, k, n - k - 1, n - k]
  return any(0 <= j < n - 1 and s[j + 1] - s[j] <= tol for j in i)


# ---------------------------------------------------------------- C03


POSITIVE = ["lognormal", "exponential", "uniform", "poisson_big", "poisson"]


@st.composite
def ind_case(draw, alts=None):
  a = draw(sample(min_n=2, max_n=400, large=6000))
  b = draw(sample(min_n=2, max_n=400, large=6000))
  if draw(st.booleans()) and "sc" in b:
    b["sc"] = a.get("sc", 1.0)
    b["lo"] = a.get("lo", 0.0) if draw(st.booleans()) else b["lo"]
  ratio = draw(st.sampled_from([False, False, True]))
  dens = None
  if ratio:
    dens = {
        "d": draw(st.sampled_from(POSITIVE)),
        "s": draw(SEEDS),
        "lo": draw(st.sampled_from([0.5, 1.0, 10.0])),
        "sc": draw(st.sampled_from([1.0, 1e-3, 1e3, 1.0, -1.0])),
        "mix": draw(st.sampled_from([0.0, 0.0, 0.5, 1.5])),
    }
  q = draw(data.quantile(min(data.size(a), data.size(b)), min_kept=2))
  for s in (a, b):
    while data.size(s) - 2 * math.floor(q * data.size(s)) < 2:
      q *= 0.5
  return {
      "a": a, "b": b, "den": dens, "q": q,
      "alt": draw(st.sampled_from(ALTS)),
      "alpha": draw(ALPHAS),
      "equal_var": draw(st.booleans()),
      "defaults": draw(st.integers(0, 5)) == 0,
      "int": draw(KINDS),
  }


def denominators(spec, x, which):
  rng = np.random.default_rng([spec["s"], which])
  d = data.raw(spec["d"], rng, len(x)) + spec["lo"]
  spread = np.std(x)
  if spread > 0:
    z = (x - x.mean()) / spread
    d = d + spec["mix"] * (z - z.min())
  return d * spec["sc"]


def ratio_parts(rows, q):
  """Mean and first-order variance (times n) of one ratio of trimmed means."""
  t = Trim(rows, q)
  m1, m2 = t.mean(0), t.mean(1)
  r = m1 / m2
  v = (t.var(0, 1) - 2 * r * t.cov(0, 1, 1) + r * r * t.var(1, 1)) / m2**2
  size = (t.var(0, 1) + r * r * t.var(1, 1)) / m2**2
  return t, r, v, size


def p_of(stat, df, alt):
  if alt == "two-sided":
    return 2 * stats.t.sf(abs(stat), df)
  return stats.t.sf(stat, df) if alt == "greater" else stats.t.cdf(stat, df)


def ind_reference(case):
  """What the two sample test has to report, or None if values do not settle it."""
  a, b = build(case["a"]), build(case["b"])
  da = db = None
  if case["den"]:
    da, db = denominators(case["den"], a, 1), denominators(case["den"], b, 2)
  a, b, da, db = as_ints(case, a, b, da, db)
  return ind_arrays(a, b, da, db, case["q"], case["equal_var"])


def top(x):
  return float(np.max(np.abs(np.asarray(x, dtype=float))))


def ind_arrays(a, b, da, db, q, equal_var=False):
  if da is not None:
    ta, m1, v1, s1 = ratio_parts([a, da], q)
    tb, m2, v2, s2 = ratio_parts([b, db], q)
    settled = ta.settled and tb.settled
    # numerators that are all zero have no variance, and no rounding errors
    fair = all(v > 1e-9 * s or not np.any(t.winsorized(0)) for t, v, s in ((ta, v1, s1), (tb, v2, s2)))
    fair = fair and max(v1, v2) > 1e-20 * max(m1**2, m2**2)
  else:
    ta, tb = Trim([a], q), Trim([b], q)
    m1, m2, v1, v2 = ta.mean(), tb.mean(), ta.var(0, 1), tb.var(0, 1)
    settled = True
    fair = max(v1, v2) > 1e-16 * max(top(a), top(b)) ** 2
  n1, n2 = len(ta), len(tb)
  if equal_var:
    pooled = ((n1 - 1) * v1 + (n2 - 1) * v2) / (n1 + n2 - 2)
    v1 = v2 = pooled
    df = n1 + n2 - 2
  elif v1 > 0 or v2 > 0:
    df = (v1 / n1 + v2 / n2) ** 2 / (
        (v1 / n1) ** 2 / (n1 - 1) + (v2 / n2) ** 2 / (n2 - 1))
  else:
    df = math.nan
  se1, se2 = math.sqrt(max(v1, 0) / n1), math.sqrt(max(v2, 0) / n2)
  se = math.sqrt(max(v1, 0) / n1 + max(v2, 0) / n2)
  big = max(top(a), top(b))
  if da is not None:
    big = max(abs(m1), abs(m2), math.sqrt(s1), math.sqrt(s2))
  return dict(
      a=a, b=b, da=da, db=db, m1=m1, m2=m2, se1=se1, se2=se2, se=se, df=df,
      n=n1 + n2, k=ta.k + tb.k, settled=settled, fair=fair, big=big, corr=0.0,
  )


def judge_test(ctx, case, got, ref, what):
  """Estimate, error, degrees of freedom, statistic, p-value, size, flags."""
  diff = ref["m1"] - ref["m2"]
  close(got.absolute_difference, diff, f"{what}: absolute difference", 1e-8, 1e-11 * ref["big"])
  close(got.standard_error, ref["se"], f"{what}: standard error", 1e-6)
  close(got.degrees_of_freedom, ref["df"], f"{what}: degrees of freedom", 1e-6)
  stat = diff / ref["se"]
  noise = 1e-10 * ref["big"] / ref["se"]
  close(got.statistic, stat, f"{what}: statistic", 1e-6, noise)
  p = p_of(stat, ref["df"], case["alt"])
  slack = abs(stat) * 3e-6 + 2 * noise
  lo, hi = sorted((p_of(stat - slack, ref["df"], case["alt"]), p_of(stat + slack, ref["df"], case["alt"])))
  if abs(stat) <= slack:
    lo, hi = min(lo, hi, p), max(lo, hi, p)
  pad = 1e-7
  require(
      lo * (1 - pad) - 1e-300 <= got.p_value <= hi * (1 + pad) + 1e-9,
      f"{what}: p-value {got.p_value!r}, want {p!r}",
  )
  require(0.0 <= got.p_value <= 1.0 + 1e-12, f"{what}: p-value out of range")
  require(got.alpha == case["alpha"], f"{what}: alpha {got.alpha!r}, given {case['alpha']!r}")
  require(bool(got.is_significant) == bool(got.p_value < case["alpha"]),
          f"{what}: is_significant={got.is_significant}, p={got.p_value!r}, alpha={case['alpha']!r}")
  require(got.sample_size == ref["n"], f"{what}: sample size {got.sample_size}, want {ref['n']}")


def call_ind(ctx, case, ref, **changes):
  kw = dict(
      trimming_quantile=case["q"], denom_values1=ref["da"], denom_values2=ref["db"],
      equal_var=case["equal_var"], alternative=case["alt"], alpha=case["alpha"],
  )
  kw.update(changes)
  a, b = kw.pop("a", ref["a"]), kw.pop("b", ref["b"])
  return ctx.sut(fs.yuens_t_test_ind, a, b, **kw)


@check(
    "C03", "two_sample", ind_case, quick=28000,
    rule="something is trimmed, or denominators are given, with a decided reference",
)
def c03(case, ctx):
  if case["defaults"]:
    case = dict(case, alt="two-sided", alpha=0.05, equal_var=False)
  ref = ind_reference(case)
  if not ref["fair"]:
    ctx.label("no variance")
    return
  keep = {k: ref[k].copy() for k in ("a", "b", "da", "db") if ref[k] is not None}
  if case["defaults"]:
    kw = dict(trimming_quantile=case["q"])
    if ref["da"] is not None:
      kw.update(denom_values1=ref["da"], denom_values2=ref["db"])
    got = ctx.sut(fs.yuens_t_test_ind, ref["a"], ref["b"], **kw)
  else:
    got = call_ind(ctx, case, ref)
  for k, v in keep.items():
    require(np.array_equal(v, ref[k]), f"input {k} was changed")
  if not ref["settled"]:
    ctx.label("ties decide")
    require(got.sample_size == ref["n"], "sample size")
    return
  judge_test(ctx, case, got, ref, "two sample test")
  close(got.control_average, ref["m2"], "control average", 1e-8, 1e-11 * ref["big"])
  ctx.nontrivial = ref["k"] > 0 or ref["da"] is not None
  ctx.label("ratio" if case["den"] else "mean", "trimmed" if ref["k"] else "not trimmed",
            "equal_var" if case["equal_var"] else "welch")


@check("C03", "one_denominator", ind_case, quick=400, rule="every case is a rejection")
def c03_bad(case, ctx):
  a, b = build(case["a"]), build(case["b"])
  spec = case["den"] or {"d": "uniform", "s": 1, "lo": 1.0, "sc": 1.0, "mix": 0.0}
  ctx.nontrivial = True
  for kw in (
      {"denom_values1": denominators(spec, a, 1)},
      {"denom_values2": denominators(spec, b, 2)},
  ):
    ctx.rejects(f"two sample test with only {list(kw)}", fs.yuens_t_test_ind, a, b,
                trimming_quantile=case["q"], alternative=case["alt"], alpha=case["alpha"],
                equal_var=case["equal_var"], **kw)


# ---------------------------------------------------------------- C04


@st.composite
def paired_case(draw):
  a = draw(sample(min_n=2, max_n=400, large=6000))
  n = data.size(a)
  den = None
  if draw(st.sampled_from([False, False, True])):
    den = {
        "d": draw(st.sampled_from(POSITIVE)),
        "s": draw(SEEDS),
        "lo": draw(st.sampled_from([0.5, 1.0, 10.0])),
        "sc": draw(st.sampled_from([1.0, 1e-3, 1e3, 1.0, -1.0])),
        "mix": draw(st.sampled_from([0.0, 0.0, 0.5, 1.5])),
    }
  return {
      "a": a,
      "d": draw(st.sampled_from(data.DISTS)),
      "s": draw(SEEDS),
      "rho": draw(st.sampled_from([0.0, 0.5, 0.9, 0.99, -0.5])),
      "shift": draw(st.sampled_from([0.0, 0.1, 1.0, -2.0])),
      "round": draw(st.integers(0, 3)) == 0,
      "den": den,
      "q": draw(data.quantile(n, min_kept=2)),
      "alt": draw(st.sampled_from(ALTS)),
      "alpha": draw(ALPHAS),
      "int": draw(KINDS),
      "defaults": draw(st.integers(0, 5)) == 0,
  }


def paired_reference(case):
  a = build(case["a"])
  n = len(a)
  rng = np.random.default_rng([case["s"], 7])
  spread = np.std(a) or 1.0
  b = case["rho"] * a + (math.sqrt(1 - case["rho"] ** 2) * data.raw(case["d"], rng, n) + case["shift"]) * spread
  if case["round"]:
    unit = 2.0 ** math.ceil(math.log2(spread))
    a, b = np.round(a / unit) * unit, np.round(b / unit) * unit
  da = db = None
  if case["den"]:
    da, db = denominators(case["den"], a, 1), denominators(case["den"], b, 2)
  a, b, da, db = as_ints(case, a, b, da, db)
  return paired_arrays(a, b, da, db, case["q"])


def paired_arrays(a, b, da, db, q):
  key = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
  settled, fair = True, True
  if da is not None:
    t = Trim([key, a, da, b, db], q)
    settled = t.settled
    x1, d1, x2, d2 = (t.winsorized(i) for i in (1, 2, 3, 4))
    r1, r2 = t.mean(1) / t.mean(2), t.mean(3) / t.mean(4)
    m = len(t)
    l1 = (x1 - r1 * d1) / t.mean(2)
    l2 = (x2 - r2 * d2) / t.mean(4)

    def cov(u, v):
      return float(np.sum((u - u.mean()) * (v - v.mean())) / (m - 1))

    v1, v2, c12, vd = cov(l1, l1), cov(l2, l2), cov(l1, l2), cov(l1 - l2, l1 - l2)
    size = (t.var(1, 1) + r1**2 * t.var(2, 1)) / t.mean(2) ** 2 + (
        t.var(3, 1) + r2**2 * t.var(4, 1)) / t.mean(4) ** 2
    fair = (
        vd > max(1e-8 * size, 1e-20 * max(r1**2, r2**2))
        and (v1 > 1e-8 * size or not np.any(x1))
        and (v2 > 1e-8 * size or not np.any(x2))
    )
    m1, m2, diff = r1, r2, r1 - r2
    big = max(abs(r1), abs(r2), math.sqrt(size))
  else:
    t = Trim([key, a, b], q)
    settled = t.settled
    m = len(t)
    m1, m2, diff = t.mean(1), t.mean(2), t.mean(0)
    v1, v2, c12, vd = t.var(1, 1), t.var(2, 1), t.cov(1, 2, 1), t.var(0, 1)
    big = max(top(a), top(b))
    fair = vd > 1e-16 * big**2 and (not settled or vd > 1e-9 * (v1 + v2) and all(
        v > 1e-16 * big**2 or np.ptp(t.winsorized(i)) == 0 for i, v in ((1, v1), (2, v2))))
  corr = c12 / math.sqrt(v1 * v2) if min(v1, v2) > 1e-26 * big**2 else 0.0
  return dict(
      a=a, b=b, da=da, db=db, m1=m1, m2=m2, diff=diff, big=big, n=m, k=t.k,
      se1=math.sqrt(v1 / m), se2=math.sqrt(v2 / m), se=math.sqrt(vd / m), df=m - 1,
      corr=corr, settled=settled, fair=fair, t=t,
  )


def call_paired(ctx, case, ref, **changes):
  kw = dict(
      trimming_quantile=case["q"], denom_values1=ref["da"], denom_values2=ref["db"],
      alternative=case["alt"], alpha=case["alpha"],
  )
  kw.update(changes)
  a, b = kw.pop("a", ref["a"]), kw.pop("b", ref["b"])
  return ctx.sut(fs.yuens_t_test_paired, a, b, **kw)


@check(
    "C04", "paired", paired_case, quick=28000,
    rule="something is trimmed, or denominators are given, with a decided reference",
)
def c04(case, ctx):
  if case["defaults"]:
    case = dict(case, alt="two-sided", alpha=0.05)
  ref = paired_reference(case)
  if not ref["fair"]:
    ctx.label("no variance")
    return
  keep = {k: ref[k].copy() for k in ("a", "b", "da", "db") if ref[k] is not None}
  if case["defaults"]:
    kw = dict(trimming_quantile=case["q"])
    if ref["da"] is not None:
      kw.update(denom_values1=ref["da"], denom_values2=ref["db"])
    got = ctx.sut(fs.yuens_t_test_paired, ref["a"], ref["b"], **kw)
  else:
    got = call_paired(ctx, case, ref)
  for k, v in keep.items():
    require(np.array_equal(v, ref[k]), f"input {k} was changed")
  require(got.sample_size == ref["n"], f"sample size {got.sample_size}, want {ref['n']}")
  if not ref["settled"] and case["den"]:
    ctx.label("ties decide")
    return
  judge_test(ctx, case, got, dict(ref, m1=ref["diff"], m2=0.0) if not case["den"] else ref, "paired test")
  if ref["settled"]:
    close(got.control_average, ref["m2"], "control average", 1e-8, 1e-11 * ref["big"])
  else:
    # any choice among the tied pairs: the values kept for sure are fixed
    lo, hi = np.min(ref["b"]), np.max(ref["b"])
    require(lo - 1e-9 * ref["big"] <= got.control_average <= hi + 1e-9 * ref["big"], "control average")
    ctx.label("ties decide")
  ctx.nontrivial = ref["k"] > 0 or case["den"] is not None
  ctx.label("ratio" if case["den"] else "mean", "trimmed" if ref["k"] else "not trimmed")


@st.composite
def paired_bad(draw):
  case = draw(paired_case())
  case["drop"] = draw(st.integers(1, 3))
  return case


@check("C04", "rejections", paired_bad, quick=400, rule="every case is a rejection")
def c04_bad(case, ctx):
  ref = paired_reference(case)
  a, b = ref["a"], ref["b"]
  ctx.nontrivial = True
  kw = dict(trimming_quantile=case["q"], alternative=case["alt"], alpha=case["alpha"])
  longer = np.concatenate([b, b[: case["drop"]]])
  ctx.rejects("paired test of different lengths", fs.yuens_t_test_paired, a, longer, **kw)
  ctx.rejects("paired test of different lengths", fs.yuens_t_test_paired, longer, a, **kw)
  ctx.rejects("paired test with only the first denominator", fs.yuens_t_test_paired, a, b,
              denom_values1=np.ones(len(a)) + a**2, **kw)
  ctx.rejects("paired test with only the second denominator", fs.yuens_t_test_paired, a, b,
              denom_values2=np.ones(len(a)) + b**2, **kw)


# ---------------------------------------------------------------- C05


@st.composite
def relation_case(draw):
  kind = draw(st.sampled_from(["ind", "paired"]))
  case = draw(ind_case() if kind == "ind" else paired_case())
  case["kind"] = kind
  case["int"] = bool(case["int"])
  case["alpha2"] = draw(ALPHAS)
  case["shift2"] = draw(st.sampled_from([1.0, -3.0, 50.0, -200.0]))
  case["factor"] = draw(st.sampled_from([2.0, 0.125, 1000.0, 3.7, 1e-5, 1e6]))
  case["bad"] = draw(BAD_ALTS)
  return case


def coherent(got, alt, alpha, noise, what):
  est, se, df = float(got.absolute_difference), float(got.standard_error), got.degrees_of_freedom
  lo, hi = float(got.absolute_difference_lower_bound), float(got.absolute_difference_upper_bound)
  crit = stats.t.ppf(1 - (alpha / 2 if alt == "two-sided" else alpha), df)
  half = crit * se
  tol = 1e-7 * abs(half) + noise
  want_lo = -math.inf if alt == "less" else est - half
  want_hi = math.inf if alt == "greater" else est + half
  close(lo, want_lo, f"{what}: lower bound", 1e-9, tol)
  close(hi, want_hi, f"{what}: upper bound", 1e-9, tol)
  close(got.statistic, est / se, f"{what}: statistic against estimate / error", 1e-9, 1e-12)
  p = float(got.p_value)
  close(p, p_of(est / se, df, alt), f"{what}: p-value", 1e-7, 1e-13)
  require(bool(got.is_significant) == (p < alpha), f"{what}: significance")
  gap = min(abs(lo) if alt != "less" else math.inf, abs(hi) if alt != "greater" else math.inf)
  if gap > 10 * tol and abs(p - alpha) > 1e-9:
    require(
        (lo > 0 or hi < 0) == (p < alpha),
        f"{what}: p={p!r}, alpha={alpha!r}, but the interval is [{lo!r}, {hi!r}]",
    )


@check(
    "C05", "relations", relation_case, quick=9600,
    rule="the test has a positive standard error and all relations were evaluated",
)
def c05(case, ctx):
  ind = case["kind"] == "ind"
  ref = ind_reference(case) if ind else paired_reference(case)
  if not ref["fair"] or not np.isfinite(ref["corr"]):
    ctx.label("no variance")
    return
  if not ind and abs(ref["corr"]) > 1 - 1e-9:
    ctx.label("fully correlated")
    return
  if case["den"] and not ref["settled"]:
    ctx.label("ties decide")
    return
  call = call_ind if ind else call_paired
  noise = 1e-10 * ref["big"] + 1e-7 * ref["se"]
  alt, alpha = case["alt"], case["alpha"]
  got = {x: call(ctx, case, ref, alternative=x) for x in ALTS}
  for x in ALTS:
    coherent(got[x], x, alpha, noise, x)
  me = got[alt]
  # p-values of the three alternatives
  g, l, t = (float(got[x].p_value) for x in ("greater", "less", "two-sided"))
  close(g + l, 1.0, "one-sided p-values add up to one", 1e-9)
  close(t, 2 * min(g, l), "two-sided p-value is twice the smaller one", 1e-8, 1e-300)
  for x in ALTS:
    for f in ("absolute_difference", "standard_error", "statistic", "degrees_of_freedom",
              "control_average", "sample_size"):
      close(getattr(got[x], f), getattr(me, f), f"{f} for {x}", 1e-12)
  # it only shrinks when alpha grows
  a1, a2 = sorted((alpha, case["alpha2"]))
  r1, r2 = call(ctx, case, ref, alpha=a1), call(ctx, case, ref, alpha=a2)
  require(
      float(r1.absolute_difference_lower_bound) <= float(r2.absolute_difference_lower_bound) + noise
      and float(r1.absolute_difference_upper_bound) >= float(r2.absolute_difference_upper_bound) - noise,
      f"the interval at alpha={a2} is not within that at alpha={a1}",
  )
  require(not (r1.is_significant and not r2.is_significant), "significant only at the smaller alpha")
  require(r1.alpha == a1 and r2.alpha == a2, "alpha is not the one given")
  # swapped samples
  mirror = {"two-sided": "two-sided", "less": "greater", "greater": "less"}[alt]
  sw = call(ctx, case, ref, a=ref["b"], b=ref["a"], denom_values1=ref["db"],
            denom_values2=ref["da"], alternative=mirror)
  stat_noise = noise / ref["se"]
  close(sw.absolute_difference, -float(me.absolute_difference), "swapped: estimate", 1e-8, noise)
  close(sw.standard_error, me.standard_error, "swapped: standard error", 1e-6)
  close(sw.degrees_of_freedom, me.degrees_of_freedom, "swapped: degrees of freedom", 1e-6)
  close(sw.statistic, -float(me.statistic), "swapped: statistic", 1e-6, stat_noise)
  close(sw.p_value, me.p_value, "swapped: p-value", 1e-4, 1e-6)
  close(sw.absolute_difference_lower_bound, -float(me.absolute_difference_upper_bound),
        "swapped: lower bound", 1e-6, 2 * noise)
  close(sw.absolute_difference_upper_bound, -float(me.absolute_difference_lower_bound),
        "swapped: upper bound", 1e-6, 2 * noise)
  # a constant added to both samples
  spread = max(np.std(ref["a"]), np.std(ref["b"]))
  if not case["den"] and ref["settled"]:
    c = case["shift2"] * spread
    mv = call(ctx, case, ref, a=ref["a"] + c, b=ref["b"] + c)
    far = 1e-10 * (ref["big"] + abs(c))
    # rounding may change which of nearly tied values are cut
    key = [ref["a"] - ref["b"]] if not ind else [ref["a"], ref["b"]]
    tied = any(
        near(x, int(math.floor(case["q"] * len(x))), far) and not ind for x in key)
    if not tied and ref["se"] > 1e4 * far:
      close(mv.absolute_difference, me.absolute_difference, "shifted: estimate", 1e-6, far)
      close(mv.standard_error, me.standard_error, "shifted: standard error", 1e-5)
      close(mv.degrees_of_freedom, me.degrees_of_freedom, "shifted: degrees of freedom", 1e-4)
      close(mv.statistic, me.statistic, "shifted: statistic", 1e-5, 10 * far / ref["se"])
      close(mv.p_value, me.p_value, "shifted: p-value", 1e-3, 1e-5)
      close(mv.absolute_difference_lower_bound, me.absolute_difference_lower_bound,
            "shifted: lower bound", 1e-5, 10 * far + 1e-5 * ref["se"])
      close(mv.absolute_difference_upper_bound, me.absolute_difference_upper_bound,
            "shifted: upper bound", 1e-5, 10 * far + 1e-5 * ref["se"])
      ctx.label("shifted")
  # both samples multiplied
  f = case["factor"]
  if ref["settled"] and (ind or not near(ref["a"] - ref["b"], ref["k"], 1e-12 * ref["big"]
                                         if not case["den"] else 1e-12 * spread)):
    mu = call(ctx, case, ref, a=ref["a"] * f, b=ref["b"] * f)
    close(mu.absolute_difference, f * float(me.absolute_difference), "multiplied: estimate", 1e-7, noise * f)
    close(mu.standard_error, f * float(me.standard_error), "multiplied: standard error", 1e-6)
    close(mu.statistic, me.statistic, "multiplied: statistic", 1e-6, stat_noise)
    close(mu.p_value, me.p_value, "multiplied: p-value", 1e-4, 1e-6)
    close(mu.control_average, f * float(me.control_average), "multiplied: control average", 1e-7, noise * f)
    close(mu.absolute_difference_lower_bound, f * float(me.absolute_difference_lower_bound),
          "multiplied: lower bound", 1e-6, 2 * noise * f)
    close(mu.absolute_difference_upper_bound, f * float(me.absolute_difference_upper_bound),
          "multiplied: upper bound", 1e-6, 2 * noise * f)
    sure = min(abs(ref["m1"]), abs(ref["m2"])) > 1e-8 * ref["big"]
    if sure:
      require((mu.relative_difference is None) == (me.relative_difference is None),
              "multiplied: relative result appears or vanishes")
    if sure and me.relative_difference is not None:
      close(mu.relative_difference, me.relative_difference, "multiplied: relative difference", 1e-6, 1e-7)
      want, _ = fieller(ref, alt, alpha, pad=1e-10)
      judge_range(mu.relative_difference_lower_bound, want[0], "multiplied: relative lower bound")
      judge_range(mu.relative_difference_upper_bound, want[1], "multiplied: relative upper bound")
      ctx.label("relative")
  ctx.rejects(f"alternative {case['bad']!r}", fs.yuens_t_test_ind if ind else fs.yuens_t_test_paired,
              ref["a"], ref["b"], trimming_quantile=case["q"], alternative=case["bad"])
  ctx.nontrivial = True
  ctx.label(case["kind"], "significant" if me.is_significant else "not significant")


@st.composite
def helper_case(draw):
  return {
      "m1": draw(st.floats(-100, 100)) * draw(data.SCALES),
      "m2": draw(st.floats(-100, 100)) * draw(data.SCALES),
      "se1": draw(st.floats(1e-3, 10)),
      "se2": draw(st.floats(1e-3, 10)),
      "corr": draw(st.floats(-0.99, 0.99)),
      "df": draw(st.one_of(st.integers(1, 500), st.floats(0.7, 1e4))),
      "alt": draw(st.sampled_from(ALTS)),
      "alpha": draw(st.one_of(ALPHAS, st.floats(0.5, 0.99))),
      "bad": draw(BAD_ALTS),
      "default": draw(st.booleans()),
  }


@check("C05", "helpers", helper_case, quick=12000, rule="every case evaluates both helpers")
def c05_helpers(case, ctx):
  est = case["m1"] - case["m2"]
  v = case["se1"] ** 2 + case["se2"] ** 2 - 2 * case["corr"] * case["se1"] * case["se2"]
  se = math.sqrt(v)
  alpha = 0.05 if case["default"] else case["alpha"]
  df, alt = case["df"], case["alt"]
  stat, p = ctx.sut(fs.ttest_from_stats, point_estimate=est, standard_error=se,
                    degrees_of_freedom=df, alternative=alt)
  close(stat, est / se, "statistic", 1e-12)
  want = p_of(est / se, df, alt)
  close(p, want, "p-value", 1e-8, 1e-300)
  kw = dict(mean_1=case["m1"], mean_2=case["m2"], standard_error_1=case["se1"],
            standard_error_2=case["se2"], corr=case["corr"], degrees_of_freedom=df)
  if not case["default"]:
    kw["alpha"] = alpha
  lo, hi = ctx.sut(fs.absolute_difference_confidence_interval, alternative=alt, **kw)
  crit = stats.t.isf(alpha / 2 if alt == "two-sided" else alpha, df)
  tol = 1e-9 * abs(crit * se) + 1e-12 * (abs(case["m1"]) + abs(case["m2"]) + se)
  close(lo, -math.inf if alt == "less" else est - crit * se, "lower bound", 1e-9, tol)
  close(hi, math.inf if alt == "greater" else est + crit * se, "upper bound", 1e-9, tol)
  if abs(p - alpha) > 1e-7 and abs(abs(est) - abs(crit * se)) > 10 * tol:
    require((lo > 0 or hi < 0) == (p < alpha), f"p={p!r}, alpha={alpha!r}, [{lo!r}, {hi!r}]")
  ctx.nontrivial = True
  bad = case["bad"]
  ctx.rejects(f"t-test with alternative {bad!r}", fs.ttest_from_stats, point_estimate=est,
              standard_error=se, degrees_of_freedom=df, alternative=bad)
  ctx.rejects(f"absolute interval with alternative {bad!r}",
              fs.absolute_difference_confidence_interval, alternative=bad, **kw)


# ---------------------------------------------------------------- C06


def fieller_set(m1, m2, v1, v2, v12, c2, pad, floor=4e-15):
  """The hull of {ratio >= 0: (m1 - ratio m2)^2 <= c2 (v1 - 2 ratio v12 + ratio^2 v2)}.

  Every coefficient is known up to rounding, so the answer is a range for each
  bound: [(lowest, highest) lower bound, (lowest, highest) upper bound].
  """
  s11, s12, s22 = m1 * m1 + c2 * v1, m1 * m2 + c2 * abs(v12), m2 * m2 + c2 * v2
  A0, B0, C0 = m2 * m2 - c2 * v2, m1 * m2 - c2 * v12, m1 * m1 - c2 * v1
  # (m1 m2)^2 - m1^2 m2^2 cancels exactly: the discriminant in a stable form
  D0 = c2 * ((m1 * m1 * v2 - 2 * m1 * m2 * v12 + m2 * m2 * v1) - c2 * (v1 * v2 - v12 * v12))
  d = pad + floor
  lows, highs = [], []
  sizeD = c2 * (m1 * m1 * v2 + 2 * m1 * m2 * abs(v12) + m2 * m2 * v1 + c2 * (v1 * v2 + v12 * v12))
  errD = d * sizeD + 4e-15 * (s12 * s12 + s11 * s22)
  for sa in (-1, 0, 1):
    A = A0 + sa * d * s22
    for sb in (-1, 0, 1):
      B = B0 + sb * d * s12
      for sc in (-1, 0, 1):
        C = C0 + sc * d * s11
        for sd in (-1, 0, 1):
          D = D0 + sd * errD
          if A > 0:
            root = math.sqrt(max(D, 0.0))
            lows.append(max(0.0, (B - root) / A))
            highs.append((B + root) / A)
          else:
            highs.append(math.inf)
            if C <= 0 or D <= 0:
              lows.append(0.0)
            if D > 0 and not (C <= 0 and sd == 0 and sc == 0):
              # A < 0 < C: the roots have different signs, the larger one counts
              if A < 0 and C > 0:
                lows.append(max(0.0, (B - math.sqrt(D)) / A))
              elif A < 0 and C <= 0:
                lows.append(0.0)
  if not lows:
    lows = [0.0]
  # ratios are known up to the error of the roots themselves
  return (min(lows), max(lows)), (min(highs), max(highs))


def fieller(ref, alt, alpha, pad=0.0):
  m1, m2 = ref["m1"], ref["m2"]
  crit = stats.t.isf(alpha / 2 if alt == "two-sided" else alpha, ref["df"])
  v12 = ref["corr"] * ref["se1"] * ref["se2"]
  lo, hi = fieller_set(m1, m2, ref["se1"] ** 2, ref["se2"] ** 2, v12, crit * crit, pad)
  lo = (lo[0] - 1.0, lo[1] - 1.0)
  hi = (hi[0] - 1.0, hi[1] - 1.0)
  if alt == "greater":
    hi = (math.inf, math.inf)
  if alt == "less":
    lo = (-1.0, -1.0)
  return (lo, hi), crit


def judge_range(got, rng, what, rtol=1e-7):
  require(got is not None, f"{what}: None, want {rng[0]!r}")
  g = float(got)
  lo, hi = rng
  require(g == g, f"{what}: nan, want {lo!r}..{hi!r}")
  pad_lo = rtol * (1 + abs(lo)) if math.isfinite(lo) else 0.0
  pad_hi = rtol * (1 + abs(hi)) if math.isfinite(hi) else 0.0
  require(lo - pad_lo <= g <= hi + pad_hi, f"{what}: got {g!r}, want {lo!r}..{hi!r}")


@st.composite
def fieller_case(draw):
  unit = draw(st.sampled_from([1.0, 1.0, 1e-8, 1e-4, 1e-2, 1e3, 1e7]))
  m2 = draw(st.one_of(st.floats(0.01, 20), st.sampled_from([0.0, 1.0, 5.0])))
  m1 = draw(st.one_of(st.floats(1e-3, 20), st.sampled_from([0.0, 1.0]),
                      st.floats(0.8, 1.25).map(lambda r: r * m2)))
  cv = st.one_of(st.floats(1e-4, 3.0), st.floats(0.2, 1.0), st.sampled_from([0.01, 0.1, 0.5, 2.0]))
  se2 = draw(cv) * (m2 or 1.0)
  se1 = draw(st.one_of(cv.map(lambda c: c * (m1 or 1.0)), st.just(se2)))
  if draw(st.integers(0, 11)) == 0:
    if draw(st.booleans()):
      se1 = 0.0
    elif m2 > 0:
      se2 = 0.0
  return {
      "m1": m1, "m2": m2, "se1": se1, "se2": se2, "unit": unit,
      "corr": draw(st.one_of(st.just(0.0), st.floats(-0.99, 0.99), st.sampled_from([0.9, 0.99, 0.999, -0.9]))),
      "df": draw(st.one_of(st.integers(2, 500), st.floats(1.5, 1e4))),
      "alt": draw(st.sampled_from(ALTS)),
      "alpha": draw(ALPHAS),
      "alpha2": draw(ALPHAS),
      "bad": draw(BAD_ALTS),
      "neg": draw(st.sampled_from(["m1", "m2", "both"])),
      "default": draw(st.integers(0, 5)) == 0,
  }


@check(
    "C06", "interval", fieller_case, quick=22500,
    rule="both standard errors are positive",
)
def c06(case, ctx):
  u = case["unit"]
  ref = dict(m1=case["m1"] * u, m2=case["m2"] * u, se1=case["se1"] * u, se2=case["se2"] * u,
             corr=case["corr"], df=case["df"])
  default = case.get("default", False)
  alt, alpha = case["alt"], (0.05 if default else case["alpha"])

  def call(f=1.0, **kw):
    args = dict(mean_1=ref["m1"] * f, mean_2=ref["m2"] * f, standard_error_1=ref["se1"] * f,
                standard_error_2=ref["se2"] * f, corr=ref["corr"], degrees_of_freedom=ref["df"],
                alternative=alt)
    if not default:
      args["alpha"] = alpha
    args.update(kw)
    return ctx.sut(fs.relative_difference_confidence_interval, **args)

  if ref["se1"] == 0.0 and ref["se2"] == 0.0:
    return
  if ref["m2"] == 0.0 and ref["se2"] == 0.0:
    return
  (want_lo, want_hi), crit = fieller(ref, alt, alpha)
  got = call()
  lo, hi = float(got[0]), float(got[1])
  judge_range(lo, want_lo, "relative lower bound")
  judge_range(hi, want_hi, "relative upper bound")
  require(lo >= -1.0, f"lower bound {lo!r} is below -1")
  margin = abs(ref["m2"] ** 2 - crit**2 * ref["se2"] ** 2) / (ref["m2"] ** 2 + crit**2 * ref["se2"] ** 2)
  if alt != "greater" and margin > 1e-9:
    unbounded = ref["m2"] ** 2 < crit**2 * ref["se2"] ** 2
    require(math.isinf(hi) == unbounded,
            f"upper bound {hi!r}, control {'not ' if unbounded else ''}different from zero")
    ctx.label("unbounded" if unbounded else "bounded")
  if ref["m2"] > 0:
    r = ref["m1"] / ref["m2"] - 1.0
    require(lo <= r + 1e-7 * (1 + abs(r)) and hi >= r - 1e-7 * (1 + abs(r)),
            f"[{lo!r}, {hi!r}] does not hold the point estimate {r!r}")
  # the unit does not matter
  for f in (1e-6, 8.0, 1e5):
    l2, h2 = call(f)
    judge_range(l2, want_lo, f"lower bound in units of {f}")
    judge_range(h2, want_hi, f"upper bound in units of {f}")
  # no wider as alpha grows
  a1, a2 = sorted((alpha, case["alpha2"]))
  (l1, h1), (l2, h2) = call(alpha=a1), call(alpha=a2)
  tol = 1e-6
  require(
      l1 <= l2 + tol * (1 + abs(l2)) and (math.isinf(h1) or h1 >= h2 - tol * (1 + abs(h2)) - 1e-6 * abs(h1)),
      f"alpha={a2}: [{l2!r}, {h2!r}] is wider than [{l1!r}, {h1!r}] at alpha={a1}",
  )
  bad = dict(mean_1=abs(ref["m1"]) + u, mean_2=abs(ref["m2"]) + u)
  if case["neg"] in ("m1", "both"):
    bad["mean_1"] = -1e-6 * u - ref["m1"]
  if case["neg"] in ("m2", "both"):
    bad["mean_2"] = -1e-6 * u - ref["m2"]
  args = dict(standard_error_1=ref["se1"], standard_error_2=ref["se2"], corr=ref["corr"],
              degrees_of_freedom=ref["df"], alpha=alpha)
  ctx.rejects(f"negative mean {bad}", fs.relative_difference_confidence_interval,
              alternative=alt, **args, **bad)
  ctx.rejects(f"alternative {case['bad']!r}", fs.relative_difference_confidence_interval,
              alternative=case["bad"], mean_1=ref["m1"], mean_2=ref["m2"], **args)
  ctx.nontrivial = ref["se1"] > 0 and ref["se2"] > 0
  ctx.label(alt)


@check(
    "C06", "of_tests", relation_case, quick=8750,
    rule="a relative result is reported, or withheld because of a negative mean",
)
def c06_tests(case, ctx):
  ind = case["kind"] == "ind"
  ref = ind_reference(case) if ind else paired_reference(case)
  if not ref["fair"] or not ref["settled"] or not np.isfinite(ref["corr"]):
    return
  if not ind and abs(ref["corr"]) > 1 - 1e-7:
    return
  got = (call_ind if ind else call_paired)(ctx, case, ref)
  m1, m2 = ref["m1"], ref["m2"]
  if min(abs(m1), abs(m2)) <= 1e-10 * ref["big"] and not (m1 == 0.0 or m2 == 0.0):
    return
  parts = (got.relative_difference, got.relative_difference_lower_bound, got.relative_difference_upper_bound)
  ctx.label(case["kind"], "ratio" if case["den"] else "mean")
  if m1 < 0 or m2 < 0:
    require(all(p is None for p in parts), f"relative results {parts} of negative means {m1!r}, {m2!r}")
    ctx.nontrivial = True
    ctx.label("negative")
    return
  require(all(p is not None for p in parts), f"no relative result for means {m1!r}, {m2!r}")
  if m2 > 0:
    close(got.relative_difference, m1 / m2 - 1.0, "relative difference", 1e-7, 1e-9 * max(1.0, m1 / m2))
  if m2 == 0 and ref["se2"] <= 1e-12 * ref["big"]:
    ctx.label("control is all zero")
    return
  if min(ref["se1"], ref["se2"]) <= 1e-12 * ref["big"]:
    return
  if ref["se"] < 1e-6 * ref["big"]:
    return
  want, _ = fieller(ref, case["alt"], case["alpha"], pad=1e-11)
  judge_range(parts[1], want[0], "relative lower bound", 1e-6)
  judge_range(parts[2], want[1], "relative upper bound", 1e-6)
  ctx.nontrivial = True
  ctx.label("infinite" if math.isinf(float(parts[2])) else "finite")


# ---------------------------------------------------------------- C07


@st.composite
def mde_case(draw):
  return {
      "sd": draw(st.floats(1e-3, 1e3)) * draw(data.SCALES),
      "n": draw(st.one_of(st.integers(3, 60), st.integers(3, 100000))),
      "more": draw(st.integers(1, 1000)),
      "alpha": draw(ALPHAS),
      "alpha2": draw(ALPHAS),
      "power": draw(st.one_of(st.sampled_from([0.8, 0.9, 0.5, 0.95, 0.7]), st.floats(0.5, 0.999), st.floats(0.02, 0.5))),
      "power2": draw(st.floats(0.02, 0.999)),
      "alt": draw(st.sampled_from(ALTS)),
      "factor": draw(st.floats(1e-3, 1e3)),
      "sds": draw(st.lists(st.floats(0.01, 100), min_size=1, max_size=5)),
      "ns": draw(st.lists(st.integers(3, 5000), min_size=1, max_size=5)),
      "bad": draw(BAD_ALTS),
      "kind": draw(st.sampled_from(["ind", "paired"])),
      "default": draw(st.integers(0, 3)) == 0,
  }


def mde_reference(kind, sd, n, alt, power, alpha):
  if kind == "ind":
    se, df = 2.0 * sd / math.sqrt(n), n - 2.0
  else:
    se, df = sd / math.sqrt(n), n - 1.0
  q = alpha / 2 if alt == "two-sided" else alpha
  return se * (stats.t.isf(q, df) + stats.t.ppf(power, df))


@check("C07", "formula", mde_case, quick=12000, rule="every case evaluates the formula and its relations")
def c07(case, ctx):
  kind = case["kind"]
  base = dict(sd=case["sd"], n=case["n"], alt=case["alt"], power=case["power"], alpha=case["alpha"])
  if case["default"]:
    base.update(alt="two-sided", power=0.8, alpha=0.05)

  def call(**kw):
    x = dict(base, **kw)
    if kind == "ind":
      f, sd = fs.yuens_t_test_ind_minimum_detectable_effect, "standard_deviation"
    else:
      f, sd = fs.yuens_t_test_paired_minimum_detectable_effect, "difference_standard_deviation"
    args = {sd: x["sd"], "sample_size": x["n"]}
    if not (case["default"] and not kw):
      args.update(alternative=x["alt"], power=x["power"], alpha=x["alpha"])
    return ctx.sut(f, **args)

  me = call()
  tol = 1e-9 * base["sd"] / math.sqrt(base["n"])
  close(me, mde_reference(kind, **base), "minimum detectable effect", 1e-9, tol)
  # with less power than alpha the formula gives a negative effect
  powerful = base["power"] > 1.1 * base["alpha"]
  require(me > 0 or not powerful, "the minimum detectable effect is not positive", me)
  for alt in ALTS:
    close(call(alt=alt), mde_reference(kind, **dict(base, alt=alt)), f"MDE for {alt}", 1e-9, tol)
  close(call(alt="less"), call(alt="greater"), "less against greater", 1e-12)
  close(call(sd=base["sd"] * case["factor"]), me * case["factor"], "scaled standard deviation", 1e-9,
        tol * case["factor"])
  if powerful:
    require(call(n=base["n"] + case["more"]) < me, "more items do not lower it")
  a1, a2 = sorted((base["alpha"], case["alpha2"]))
  if a2 - a1 > 1e-6:
    require(call(alpha=a2) < call(alpha=a1), "a larger alpha does not lower it")
  p1, p2 = sorted((base["power"], case["power2"]))
  if p2 - p1 > 1e-6:
    require(call(power=p2) > call(power=p1), "more power does not raise it")
  sds, ns = np.array(case["sds"]), np.array((case["ns"] * 5)[: len(case["sds"])])
  want = [mde_reference(kind, **dict(base, sd=s, n=int(m))) for s, m in zip(sds, ns)]
  allclose(call(sd=sds, n=ns), want, "elementwise", 1e-9, 1e-9 * sds.max())
  allclose(call(sd=sds), [mde_reference(kind, **dict(base, sd=s)) for s in sds], "array of deviations", 1e-9, tol / base["sd"] * sds.max())
  allclose(call(n=ns), [mde_reference(kind, **dict(base, n=int(m))) for m in ns], "array of sizes", 1e-9, 1e-9 * base["sd"])
  # from a standard error and degrees of freedom
  df = base["n"] - 1.5
  got = ctx.sut(fs.calculate_minimum_detectable_effect_from_stats, base["sd"], df, base["alt"],
                base["power"], base["alpha"])
  q = base["alpha"] / (2 if base["alt"] == "two-sided" else 1)
  close(got, base["sd"] * (stats.t.isf(q, df) + stats.t.ppf(base["power"], df)), "MDE from stats", 1e-9,
        1e-9 * base["sd"])
  got = ctx.sut(fs.calculate_minimum_detectable_effect_from_stats, standard_error=base["sd"],
                degrees_of_freedom=df, alternative="two-sided")
  close(got, base["sd"] * (stats.t.isf(0.025, df) + stats.t.ppf(0.8, df)), "MDE from stats, defaults", 1e-9)
  for f, sd in ((fs.yuens_t_test_ind_minimum_detectable_effect, "standard_deviation"),
                (fs.yuens_t_test_paired_minimum_detectable_effect, "difference_standard_deviation")):
    ctx.rejects(f"alternative {case['bad']!r}", f, sample_size=base["n"], alternative=case["bad"],
                **{sd: base["sd"]})
  ctx.rejects(f"alternative {case['bad']!r}", fs.calculate_minimum_detectable_effect_from_stats,
              base["sd"], df, case["bad"])
  ctx.nontrivial = True
  ctx.label(kind, base["alt"], "odd" if base["n"] % 2 else "even")
