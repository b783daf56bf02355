"""Finds mutants of feedx that the repository's tests accept and tries the checks on them.

  python tools/mutate.py survivors OUT.jsonl [module ...]   run the repository's tests on every mutant
  python tools/mutate.py checks IN.jsonl OUT.jsonl [scale]  run the checks on the mutants in IN

A development tool: no check uses it. All work is done in scratch copies under
/tmp/mutate, which are removed afterwards.
"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = '/tmp/mutate'
SRC = f'{ROOT}/src'  # a snapshot, so that /repo may change during a run
WORKERS = int(os.environ.get('MUT_WORKERS', '8'))
MODULES = ['statistics', 'experiment_design', 'data_preparation', 'experiment_analysis',
           'experiment_simulations', 'plotting']
CHECKS = {
    'statistics': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C23', 'C24', 'C28'],
    'experiment_design': ['C08', 'C09', 'C10', 'C11', 'C12', 'C27'],
    'data_preparation': ['C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C12', 'C13', 'C32', 'C08'],
    'experiment_analysis': ['C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C10'],
    'experiment_simulations': ['C27', 'C28', 'C29', 'C30', 'C31'],
    'plotting': ['C33', 'C34'],
}
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/vp/mplconfig', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR')
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.BitAnd: ['|'],
       ast.BitOr: ['&'], ast.Pow: ['*'], ast.Mod: ['//']}
NAMES = {'floor': ['ceil', 'round'], 'max': ['min'], 'min': ['max'], 'sum': ['mean'], 'mean': ['sum', 'median'],
         'any': ['all'], 'all': ['any'], 'argmin': ['argmax'], 'argmax': ['argmin'], 'nunique': ['count'],
         'var': ['std'], 'std': ['var'], 'cdf': ['sf'], 'ceil': ['floor'], 'notna': ['isna'], 'cummax': ['cummin']}
DROP = {'drop_duplicates', 'sort_values', 'sort_index', 'astype', 'fillna', 'abs', 'copy', 'reset_index', 'round',
        'lower', 'strip', 'unique', 'clip', 'dropna', 'droplevel', 'squeeze', 'flatten', 'sort', 'query',
        'set_index', 'swaplevel', 'rename', 'rename_axis', 'normalize', 'cumsum', 'tolist', 'upper', 'title', 'replace'}


def mutants(module):
  path = f'{SRC}/{module}.py'
  src = open(path).read()
  raw = src.encode()
  starts = [0]
  for line in raw.splitlines(keepends=True):
    starts.append(starts[-1] + len(line))
  pos = lambda l, c: starts[l - 1] + c
  span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
  tree = ast.parse(src)
  out = []
  func = ['']

  def add(a, b, new, kind, line):
    old = raw[a:b].decode()
    if old != new:
      out.append(dict(module=module, a=a, b=b, new=new, old=old, kind=kind, line=line, func='.'.join(func[1:])))

  def between(left, right, ops, new, kind, line):
    a, b = span(left)[1], span(right)[0]
    text = raw[a:b].decode()
    for op in ops:
      m = re.search(re.escape(op), text)
      if m:
        for x in new:
          add(a + m.start(), a + m.end(), x, kind, line)
        return

  TOK = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
         ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not', ast.Add: '+', ast.Sub: '-', ast.Mult: '*',
         ast.Div: '/', ast.FloorDiv: '//', ast.BitAnd: '&', ast.BitOr: '|', ast.Pow: '**', ast.Mod: '%'}

  def body(stmts):
    for k, s in enumerate(stmts):
      if k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        continue
      visit(s)
      if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise)) or (
          isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) for t in s.targets)):
        a, b = span(s)
        if not raw[a:b].startswith((b'print(', b'plt.show')):
          add(a, b, 'pass', 'drop', s.lineno)
      if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
        # a second assignment of a name: without it the earlier value stays
        names = {t.id for t in s.targets}
        if any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) for x in ast.walk(s.value)):
          a, b = span(s)
          add(a, b, 'pass', 'drop', s.lineno)

  def visit(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      func.append(n.name)
      if isinstance(n, ast.FunctionDef):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
          visit(d)
      body(n.body)
      func.pop()
      return
    if isinstance(n, ast.Raise):
      return
    if isinstance(n, ast.JoinedStr):
      return
    if isinstance(n, ast.AnnAssign):
      if n.value:
        visit(n.value)
      return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print':
      return
    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'message' for t in n.targets):
      return
    if isinstance(n, (ast.If, ast.IfExp)):
      a, b = span(n.test)
      add(a, b, 'True', 'cond', n.lineno)
      add(a, b, 'False', 'cond', n.lineno)
    if isinstance(n, ast.If):
      visit(n.test)
      body(n.body)
      body(n.orelse)
      return
    if isinstance(n, (ast.For, ast.With, ast.While)):
      for f in ('iter', 'test'):
        if hasattr(n, f):
          visit(getattr(n, f))
      body(n.body)
      return
    if isinstance(n, ast.Compare):
      left = n.left
      for op, right in zip(n.ops, n.comparators):
        if type(op) in CMP:
          between(left, right, [TOK[type(op)]], CMP[type(op)], 'cmp', n.lineno)
        left = right
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      between(n.left, n.right, [TOK[type(n.op)]], BIN[type(n.op)], 'bin', n.lineno)
      if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
        a, b = span(n)
        x, y = span(n.left)
        add(a, b, raw[x:y].decode(), 'left', n.lineno)
    if isinstance(n, ast.BoolOp):
      word = 'and' if isinstance(n.op, ast.And) else 'or'
      for l, r in zip(n.values, n.values[1:]):
        between(l, r, [word], ['or' if word == 'and' else 'and'], 'bool', n.lineno)
      for v in n.values:
        a, b = span(v)
        add(a, b, 'True' if word == 'and' else 'False', 'term', n.lineno)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
      a, b = span(n)
      x, y = span(n.operand)
      add(a, b, '(' + raw[x:y].decode() + ')', 'unary', n.lineno)
    if isinstance(n, ast.Constant):
      a, b = span(n)
      v = n.value
      if isinstance(v, bool):
        add(a, b, str(not v), 'const', n.lineno)
      elif isinstance(v, int):
        add(a, b, str(v + 1), 'const', n.lineno)
        add(a, b, f'({v - 1})', 'const', n.lineno)
      elif isinstance(v, float):
        add(a, b, repr(v * 1.1 + 0.001), 'const', n.lineno)
        add(a, b, repr(v * 0.9 - 0.001), 'const', n.lineno)
      elif isinstance(v, str) and v and raw[a:a + 1] in (b'"', b"'"):
        add(a, b, repr(v + '_x'), 'str', n.lineno)
    if isinstance(n, ast.Call):
      if isinstance(n.func, ast.Attribute):
        a, b = span(n.func)
        end = b
        begin = end - len(n.func.attr.encode())
        for x in NAMES.get(n.func.attr, []):
          add(begin, end, x, 'name', n.lineno)
        if n.func.attr in DROP:
          x, y = span(n)
          p, q = span(n.func.value)
          add(x, y, raw[p:q].decode(), 'dropcall', n.lineno)
        if n.func.attr == 'pipe' and len(n.args) >= 1:
          x, y = span(n)
          p, q = span(n.func.value)
          add(x, y, raw[p:q].decode(), 'dropcall', n.lineno)
      elif isinstance(n.func, ast.Name):
        a, b = span(n.func)
        for x in NAMES.get(n.func.id, []):
          add(a, b, x, 'name', n.lineno)
      args = n.args + [k for k in n.keywords]
      for k in n.keywords:
        if k.arg and len(args) > 1:
          a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
          m = re.match(rb'\s*,', raw[b:])
          if m:
            add(a, b + m.end(), '', 'kwarg', k.lineno)
          else:
            before = raw[:a].rstrip()
            if before.endswith(b','):
              add(len(before) - 1, b, '', 'kwarg', k.lineno)
    if isinstance(n, ast.Slice):
      for part in (n.lower, n.upper):
        if part is not None:
          a, b = span(part)
          add(a, b, '', 'slice', part.lineno)
    for c in ast.iter_child_nodes(n):
      visit(c)

  body(tree.body)
  seen, res = set(), []
  for m in out:
    key = (m['a'], m['b'], m['new'])
    if key in seen:
      continue
    seen.add(key)
    new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
    try:
      ast.parse(new.decode())
    except SyntaxError:
      continue
    m['id'] = f"{module}:{m['line']}:{len(res)}"
    res.append(m)
  return res


_local = threading.local()
_count = [0]
_lock = threading.Lock()


def worker_dir():
  if not hasattr(_local, 'dir'):
    with _lock:
      k = _count[0]
      _count[0] += 1
    d = f'{ROOT}/w{k}'
    os.makedirs(d)
    shutil.copytree(SRC, f'{d}/repo/feedx')
    shutil.copytree(V, f'{d}/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))
    os.makedirs(f'{d}/verif/evidence')
    _local.dir = d
  return _local.dir


def apply(d, m):
  raw = open(f"{SRC}/{m['module']}.py", 'rb').read()
  with open(f"{d}/repo/feedx/{m['module']}.py", 'wb') as f:
    f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(d, m):
  shutil.copy(f"{SRC}/{m['module']}.py", f"{d}/repo/feedx/{m['module']}.py")


USED_BY = {
    'statistics': ['statistics', 'experiment_analysis', 'experiment_simulations', 'plotting'],
    'experiment_design': ['experiment_design', 'data_preparation', 'experiment_analysis', 'plotting', 'experiment_simulations'],
    'data_preparation': ['data_preparation', 'experiment_simulations', 'plotting'],
    'experiment_analysis': ['experiment_analysis', 'data_preparation', 'experiment_simulations', 'plotting'],
    'experiment_simulations': ['experiment_simulations', 'plotting'],
    'plotting': ['plotting'],
}


def start_tester():
  """A worker: libraries are imported once, and every mutant's tests run in a fork."""
  os.environ.update(ENV)
  import matplotlib.pyplot, numpy, pandas, pytest, scipy.stats, yaml  # noqa
  from absl.testing import absltest, parameterized  # noqa
  d = f'{ROOT}/t{os.getpid()}'
  os.makedirs(f'{d}/repo')
  shutil.copytree(SRC, f'{d}/repo/feedx')
  _local.dir = d
  sys.path[:] = [f'{d}/repo'] + [p for p in sys.path if p != '/repo']
  os.chdir(f'{d}/repo')


def run_tests(m):
  import time
  d = _local.dir
  apply(d, m)
  try:
    pid = os.fork()
    if pid == 0:
      try:
        import pytest
        os.setsid()
        n = os.open('/dev/null', os.O_RDWR)
        os.dup2(n, 1), os.dup2(n, 2)
        sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in repr(f).lower()]
        files = [f'feedx/{x}_test.py' for x in USED_BY[m['module']]]
        rc = pytest.main(['-x', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist'] + files)
        import feedx.statistics as s
        assert s.__file__.startswith(d)
        os._exit(0 if rc == 0 else 1)
      except BaseException:
        os._exit(3)
    t = time.time()
    while time.time() - t < 150:
      p, st = os.waitpid(pid, os.WNOHANG)
      if p:
        return m, os.waitstatus_to_exitcode(st) == 0
      time.sleep(0.02)
    os.killpg(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return m, False
  finally:
    restore(d, m)


def run_checks(m, scale):
  d = worker_dir()
  apply(d, m)
  env = dict(ENV, VERIF_REPO=f'{d}/repo', VERIF_JOBS='1', PYTHONPATH='')
  res = {}
  try:
    for c in CHECKS[m['module']]:
      try:
        p = subprocess.Popen(['bash', 'run.sh', c, '--scale', str(scale)], cwd=f'{d}/verif', env=env,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        res[c] = p.wait(timeout=600)
        if res[c] == 1:
          break
      except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        res[c] = 'timeout'
    return m, res
  finally:
    restore(d, m)


def main():
  shutil.rmtree(ROOT, ignore_errors=True)
  os.makedirs(ROOT)
  shutil.copytree('/repo/feedx', SRC)
  try:
    if sys.argv[1] == 'survivors':
      todo = [m for mod in (sys.argv[3:] or MODULES) for m in mutants(mod)]
      print(len(todo), 'mutants', flush=True)
      n = 0
      import multiprocessing
      with open(sys.argv[2], 'w') as f, multiprocessing.get_context('spawn').Pool(WORKERS, start_tester) as ex:
        for i, (m, ok) in enumerate(ex.imap_unordered(run_tests, todo)):
          if ok:
            n += 1
            f.write(json.dumps(m) + '\n')
            f.flush()
          if i % 100 == 0:
            print(i, n, flush=True)
    else:
      todo = [json.loads(x) for x in open(sys.argv[2])]
      scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.3
      with open(sys.argv[3], 'w') as f, cf.ThreadPoolExecutor(WORKERS) as ex:
        for fut in cf.as_completed([ex.submit(run_checks, m, scale) for m in todo]):
          m, res = fut.result()
          f.write(json.dumps(dict(m, result=res)) + '\n')
          f.flush()
  finally:
    shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == '__main__':
  main()
