"""Generated samples, as small JSON cases, and exact references for trimming."""
import math

from hypothesis import strategies as st
import numpy as np
import pandas as pd

SEEDS = st.integers(0, 2**32 - 1)

DISTS = [
    "normal", "lognormal", "exponential", "uniform", "poisson", "poisson_big",
    "heavy", "bimodal", "zero_inflated", "reversed", "sorted", "binary", "rare",
]


TRICKY = ["NA", "nan", "None", " a", "a ", "a", "A", "\u00e9", "e\u0301", "0", "00", "1e5", "True", "x,1", "2023-01-01", "1.0",
          "item_1", "ITEM_1", "\u5546\u54c1", "a'b", 'q"', "0x1f", "-1", "a\tb"]
# kinds of item ids; all of them are different texts for different numbers
ID_KINDS = ["int", "str", "padded", "float", "sku", "long", "tricky"]


def rarely(usual, rare, one_in=40):
  """Mostly one strategy, now and then another one: for sizes."""
  return st.integers(0, one_in - 1).flatmap(lambda k: rare if k == one_in - 1 else usual)


def ident(kind, i):
  i = int(i)
  if kind == "tricky":
    rest, k = divmod(i, len(TRICKY))
    return TRICKY[k] + (f"#{rest}" if rest else "")
  return {"int": i, "str": f"item_{i}", "padded": f"{i:06d}", "float": i + 0.5, "sku": f"shop:de:{i}",
          "long": 10**17 + 3 * i}[kind]


def categorical(column):
  """The column as a categorical one with one more category, in order of occurrence."""
  values = list(dict.fromkeys(column.tolist()))
  other = "never" if any(isinstance(v, str) for v in values) else max(values) + 1
  return pd.Categorical(column, categories=[other] + values)


def raw(dist, rng, n):
  """n values with a spread of about one."""
  if dist == "normal":
    return rng.normal(size=n)
  if dist == "lognormal":
    return rng.lognormal(sigma=1.0, size=n)
  if dist == "exponential":
    return rng.exponential(size=n)
  if dist == "uniform":
    return rng.uniform(size=n)
  if dist == "poisson":
    return rng.poisson(2.0, size=n).astype(float)
  if dist == "poisson_big":
    return rng.poisson(200.0, size=n).astype(float)
  if dist == "heavy":
    return np.clip(rng.standard_t(1.5, size=n), -1e4, 1e4)
  if dist == "bimodal":
    return rng.normal(size=n) + 8.0 * rng.integers(0, 2, size=n)
  if dist == "zero_inflated":
    return rng.exponential(size=n) * (rng.uniform(size=n) < 0.6)
  if dist == "reversed":
    return np.sort(rng.normal(size=n))[::-1].copy()
  if dist == "sorted":
    return np.sort(rng.normal(size=n))
  if dist == "binary":
    return rng.integers(0, 2, size=n).astype(float)
  if dist == "rare":
    # often all zero
    return rng.exponential(size=n) * (rng.uniform(size=n) < 0.04)
  raise ValueError(dist)


SMALL = st.one_of(
    st.integers(-5, 20).map(float),
    st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 3)),
    st.integers(-(2**20), 2**20).map(lambda x: x / 1024.0),
)
SCALES = st.sampled_from([1.0, 1.0, 1.0, 0.01, 1e-4, 1e-6, 100.0, 1e4, 1e6, 3.7])
LOCS = st.sampled_from([0.0, 0.0, 1.0, 5.0, 30.0, 500.0, -2.0, -40.0])


@st.composite
def sample(draw, min_n=3, max_n=400, dists=None, locs=LOCS, scales=SCALES, lists=True, large=0):
  """The specification of one sample, now and then with up to large values."""
  if lists and draw(st.integers(0, 2)) == 0:
    n = draw(st.integers(min_n, min(max(min_n + 3, 14), max_n)))
    return {"v": draw(st.lists(SMALL, min_size=n, max_size=n))}
  return {
      "d": draw(st.sampled_from(dists or DISTS)),
      "n": draw(
          st.integers(max_n, large)
          if large and draw(st.integers(0, 14)) == 14
          else st.one_of(st.integers(min_n, min(max_n, 60)), st.integers(min_n, max_n))
      ),
      "s": draw(SEEDS),
      "sc": draw(scales),
      "lo": draw(locs),
  }


def build(spec):
  if "v" in spec:
    return np.array(spec["v"], dtype=float)
  rng = np.random.default_rng(spec["s"])
  return (raw(spec["d"], rng, spec["n"]) + spec["lo"]) * spec["sc"]


def size(spec):
  return len(spec["v"]) if "v" in spec else spec["n"]


@st.composite
def quantile(draw, n, min_kept=2):
  """A trimming quantile that keeps at least min_kept of n values."""
  top = (n - min_kept) // 2  # the largest count that can be removed
  q = draw(
      st.one_of(
          st.just(0.0),
          st.sampled_from([0.001, 0.01, 0.025, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.49]),
          st.integers(0, max(top, 0)).map(lambda k: k / n),
          st.integers(0, max(top, 0)).map(lambda k: math.nextafter(k / n, 1.0)),
          st.integers(1, max(top, 1)).map(lambda k: math.nextafter(k / n, 0.0)),
          st.floats(0.0, 0.4999),
      )
  )
  q = min(q, math.nextafter(0.5, 0.0))
  while n - 2 * math.floor(q * n) < min_kept:
    q = 0.5 * q
  return q


class Trim:
  """The reference: what trimming rows by the first one has to give."""

  def __init__(self, rows, q):
    rows = [np.asarray(r) for r in rows]
    key = rows[0].astype(float)
    self.n = n = len(key)
    self.k = k = int(math.floor(q * n))
    order = np.argsort(key, kind="stable")
    s = key[order]
    self.key_sorted = s
    self.kept = order[k : n - k]
    # is it settled by the values which observations are cut and which are the
    # most extreme that are kept?
    self.ties_at_cut = k > 0 and (s[k - 1] == s[k] or s[n - k - 1] == s[n - k])
    self.ties_at_edge = k > 0 and n - 2 * k > 1 and (
        s[k] == s[k + 1] or s[n - k - 1] == s[n - k - 2]
    )
    self.settled = not (self.ties_at_cut or self.ties_at_edge)
    self.rows = [np.asarray(r, dtype=np.longdouble) for r in rows]

  def __len__(self):
    return self.n - 2 * self.k

  def trimmed(self, i=0):
    return self.rows[i][self.kept]

  def winsorized(self, i=0):
    x = self.rows[i].copy()[self._order()]
    k, n = self.k, self.n
    x[:k] = x[k]
    x[n - k :] = x[n - k - 1]
    return x

  def _order(self):
    return np.argsort(np.asarray(self.rows[0], dtype=float), kind="stable")

  def mean(self, i=0):
    return float(np.mean(self.trimmed(i)))

  def winsorized_mean(self, i=0):
    return float(np.mean(self.winsorized(i)))

  def cov(self, i, j, ddof=0):
    a, b = self.winsorized(i), self.winsorized(j)
    return float(np.sum((a - a.mean()) * (b - b.mean())) / (len(self) - ddof))

  def var(self, i=0, ddof=0):
    return self.cov(i, i, ddof)


def near_ties(key, k, tol):
  """Would rounding errors of tol change which of the keys are cut or extreme?"""
  s = np.sort(np.asarray(key, dtype=float))
  n = len(s)
  if k == 0:
    return False
  gaps = [s[k] - s[k - 1], s[n - k] - s[n - k - 1]]
  if n - 2 * k > 1:
    gaps += [s[k + 1] - s[k], s[n - k - 1] - s[n - k - 2]]
  return min(gaps) <= tol
