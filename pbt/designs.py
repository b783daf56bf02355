"""Generated experiment designs, as JSON cases, and a peer process."""
import atexit
import json
import math
import os
import subprocess
import sys

from hypothesis import strategies as st

from pbt import core
from feedx import experiment_design as ed

TEXT = st.one_of(
    st.sampled_from([
        "clicks", "impressions", "conversions", "null", "true", "123", "1e3", "0x1f",
        "2024-01-01", "~", "- a", "a: b", "{x}", "'", '"', "#", "a\nb", "é", "日本", "%", "\t",
        "a b", " lead", "trail ", "None", "nan", "1_000", "0o7", "!!str x", "&a", "*a", "\\",
    ]),
    st.text(min_size=1, max_size=15, alphabet=st.characters(exclude_categories=["Cs"])),
)
NAMES = st.sampled_from(["clicks", "impressions", "total_cost", "my metric", "Umsatz_€", "m"])


def frac(limit):
  """A trim fraction below limit."""
  return st.one_of(
      st.just(0.0),
      st.sampled_from([0.01, 0.025, 0.05, 0.1, 0.15, 0.2, 0.29, 0.3, 0.35, 0.07]).filter(lambda x: x < limit),
      st.floats(0.0, limit * 0.999).map(abs),
      st.sampled_from([0.0005, 0.001, 0.002, 0.005]),
      st.floats(0.0, limit * 0.999).map(lambda x: round(x, 2)).filter(lambda x: x < limit),
  )


def counts(n, top, bottom, post):
  n1 = n - int(math.floor(top * n)) - int(math.floor(bottom * n))
  return n1, n1 - 2 * int(math.floor(post * n1))


@st.composite
def valid(
    draw, text=NAMES, max_n=5000, crossover=None, pre=None, max_pretest=8, max_half=5,
    salts=st.one_of(st.none(), st.just("abc"), st.text("abcdef0123456789", min_size=1, max_size=20)),
    post=True, min_n=51, pretest=None,
):
  """The arguments of a design that can be run."""
  is_crossover = draw(st.booleans()) if crossover is None else crossover
  washout = None
  if is_crossover:
    half = draw(st.integers(1, max_half))
    washout = draw(st.integers(0, half - 1))
    runtime = 2 * half
  else:
    runtime = draw(st.integers(1, 2 * max_half + 1))
    washout = draw(st.sampled_from([None, None, None, 0, 1, 3]))
  if pretest is None:
    pretest = draw(st.one_of(st.just(0), st.integers(1, max_pretest)))
  top = bottom = 0.0
  if pretest > 0 and pre is not False:
    top = draw(frac(0.6))
    bottom = draw(frac(0.39)) if draw(st.booleans()) else 0.0
    if draw(st.integers(0, 4)) == 0:
      top = 0.0
    if draw(st.integers(0, 2)) == 0:
      top = bottom = 0.0
  after = draw(frac(0.5)) if post and draw(st.booleans()) else 0.0
  n = draw(st.one_of(st.integers(min_n, min(400, max_n)), st.integers(min_n, max_n)))
  while counts(n, top, bottom, after)[1] <= 50:
    n += 1 + n // 4
    if n > max_n:
      top, bottom, after = round(top / 2, 3), round(bottom / 2, 3), round(after / 2, 3)
      n = max_n
  return {
      "n_items_before_trimming": n,
      "runtime_weeks": runtime,
      "primary_metric": draw(text),
      "pretest_weeks": pretest,
      "is_crossover": is_crossover,
      "pre_trim_top_percentile": top,
      "pre_trim_bottom_percentile": bottom,
      "post_trim_percentile": after,
      "crossover_washout_weeks": washout,
      "alpha": draw(st.one_of(st.sampled_from([0.05, 0.05, 0.1, 0.01, 1e-5, 0.2]), st.floats(1e-6, 0.5))),
      "power": draw(st.one_of(st.sampled_from([0.8, 0.8, 0.9, 0.5]), st.floats(0.3, 0.999))),
      "coinflip_salt": draw(salts),
  }


def make(spec):
  return ed.ExperimentDesign(**spec)


_PEER = None


def peer(request):
  """Asks another Python process (with other hash seeds) about feedx."""
  global _PEER
  if _PEER is None or _PEER[0] != os.getpid():
    env = dict(os.environ, PYTHONHASHSEED="random")
    proc = subprocess.Popen(
        [sys.executable, "-B", "-X", "utf8", "-m", "pbt.peer"],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
        cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    )
    _PEER = (os.getpid(), proc)
    atexit.register(proc.kill)
  proc = _PEER[1]
  proc.stdin.write(json.dumps(request) + "\n")
  proc.stdin.flush()
  line = proc.stdout.readline()
  if not line:
    raise core.HarnessError("the peer process died")
  return json.loads(line)
