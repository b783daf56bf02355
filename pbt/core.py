"""Cases, oracles and violations: the part every property module uses."""
import json
import math
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
# Hypothesis comes from the verification venv. It is appended, so that numpy,
# pandas and scipy are the ones that feedx is installed with.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import numpy as np  # noqa: E402


class Violation(Exception):
  """The code under test broke the property."""


class HarnessError(Exception):
  """This machinery is wrong, nothing is known about the property."""


class Ctx:
  """What one case did: did it reach feedx, and was it non-trivial?"""

  def __init__(self):
    self.sut_called = False
    self.nontrivial = False
    self.labels = []

  def label(self, *names):
    self.labels.extend(names)

  def sut(self, f, *args, **kwargs):
    """Calls feedx. Any exception is a violation."""
    self.sut_called = True
    try:
      return f(*args, **kwargs)
    except Exception as e:  # pylint: disable=broad-except
      raise Violation(
          f"{getattr(f, '__name__', f)} raised {type(e).__name__}: {e}\n"
          + "".join(traceback.format_tb(e.__traceback__)[-3:])
      ) from e

  def rejects(self, what, f, *args, **kwargs):
    """Calls feedx, which has to raise a ValueError."""
    self.sut_called = True
    try:
      f(*args, **kwargs)
    except ValueError as e:
      return str(e)
    except Exception as e:  # pylint: disable=broad-except
      raise Violation(
          f"{what}: raised {type(e).__name__} ({e}) instead of ValueError"
      ) from e
    raise Violation(f"{what}: accepted, but it has to raise a ValueError")


def require(ok, message, *details):
  if not ok:
    raise Violation(message + (": " if details else "") + ", ".join(map(repr, details)))


def fl(x):
  """A float, or None."""
  return None if x is None else float(x)


def close(got, want, what, rtol=1e-7, atol=0.0):
  """Both numbers agree (None, nan and infinities have to be the same)."""
  if want is None or got is None:
    if want is None and (got is None or got != got):
      return
    require(got is None and want is None, f"{what}: got {got!r}, want {want!r}")
    return
  try:
    g = float(got)
  except (TypeError, ValueError):
    raise Violation(f"{what}: got {got!r}, want {want!r}") from None
  w = float(want)
  if math.isnan(w) or math.isnan(g):
    require(math.isnan(w) and math.isnan(g), f"{what}: got {g!r}, want {w!r}")
    return
  if math.isinf(w) or math.isinf(g):
    require(w == g, f"{what}: got {g!r}, want {w!r}")
    return
  require(
      abs(g - w) <= atol + rtol * max(abs(g), abs(w)),
      f"{what}: got {g!r}, want {w!r} (difference {g - w:.3g})",
  )


def allclose(got, want, what, rtol=1e-7, atol=0.0):
  got = np.asarray(got, dtype=float)
  want = np.asarray(want, dtype=float)
  require(got.shape == want.shape, f"{what}: shape {got.shape}, want {want.shape}")
  with np.errstate(all="ignore"):
    bad = ~(
        (np.isnan(got) & np.isnan(want))
        | (got == want)
        | (
            np.isfinite(got)
            & np.isfinite(want)
            & (
                np.abs(got - want)
                <= atol + rtol * np.maximum(np.abs(got), np.abs(want))
            )
        )
    )
  if bad.any():
    i = tuple(np.argwhere(bad)[0])
    raise Violation(
        f"{what}: {int(bad.sum())} of {bad.size} differ, at {list(map(int, i))} got"
        f" {got[i]!r}, want {want[i]!r}"
    )


SUBS = {}


class Sub:
  """One generated check of a property."""

  def __init__(self, pid, name, strategy, run, quick, thorough, rule):
    self.pid, self.name, self.strategy, self.run = pid, name, strategy, run
    self.quick, self.thorough, self.rule = quick, thorough, rule


def check(pid, name, strategy, quick, rule, thorough=None):
  def wrap(run):
    SUBS.setdefault(pid, []).append(
        Sub(pid, name, strategy, run, quick, thorough or quick * 30, rule)
    )
    return run

  return wrap


def dumps(case):
  return json.dumps(case, sort_keys=True)


def frame_equal(a, b):
  """Same labels, order, dtypes and values (NaN equals NaN)."""
  import pandas as pd

  try:
    pd.testing.assert_frame_equal(a, b, check_exact=True)
    return True
  except AssertionError:
    return False


def unchanged(before, after, what):
  require(frame_equal(before, after), f"{what} was changed")
