"""Tries planted bugs: python tools/plant.py SPEC.py [id ...].

SPEC.py defines BUGS, a list of dicts with id, property, edits (list of
(file, old, new)), needs, breaks and demo (Python source of the
demonstration). For each bug it applies the edits to a scratch copy of /repo,
runs the repository's tests, the demonstration with and without the change and
the check of its property, prints the outcome, and with --keep writes the bug
to seeded/<id>/ if it compiles, passes the tests and its demonstration works.
No check uses this file.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX'
           ' AVX512_CNL AVX512_ICL AVX512_SPR')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def run_one(bug, keep, check):
  tmp = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
  try:
    repo = os.path.join(tmp, 'repo')
    sh(f'cp -a /repo {repo}')
    demo = os.path.join(tmp, 'demo.py')
    open(demo, 'w').write(bug['demo'].lstrip())
    env = dict(ENV, PYTHONPATH=repo)
    r0 = sh(f'{PY} {demo}', cwd=repo, env=env, timeout=300)
    if r0.returncode:
      return bug['id'], 'DEMO FAILS ON CLEAN', r0.stdout[-300:] + r0.stderr[-900:]
    for f, old, new in bug['edits']:
      p = os.path.join(repo, 'feedx', f)
      s = open(p).read()
      if s.count(old) != 1:
        return bug['id'], f'OLD TEXT FOUND {s.count(old)} TIMES', old[:200]
      open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=repo).stdout
    r1 = sh(f'{PY} {demo}', cwd=repo, env=env, timeout=300)
    if not r1.returncode:
      return bug['id'], 'DEMO PASSES WITH BUG', r1.stdout[-500:]
    t = sh(f'{PY} -m pytest -q -p no:cacheprovider -n 4 --timeout=300 -x', cwd=repo, env=env)
    tl = t.stdout.strip().splitlines()[-1]
    if t.returncode:
      fails = re.findall(r'FAILED (\S+)', t.stdout)
      return bug['id'], 'TESTS FAIL', tl + ' ' + ' '.join(fails[:4])
    out = ''
    if keep:
      d = os.path.join(V, 'seeded', bug['id'])
      os.makedirs(d, exist_ok=True)
      open(os.path.join(d, 'patch.diff'), 'w').write(diff)
      open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].lstrip())
      open(os.path.join(d, 'demo.sh'), 'w').write(
          '#!/bin/bash\n# run with cwd /repo\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
          'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
      json.dump({'property': bug['property'], 'needs': bug['needs'],
                 'what_it_breaks': bug['breaks']},
                open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    res = []
    if check:
      for prop in [bug['property']] + bug.get('also', []):
        # the evidence of the real tree is not to be overwritten
        vv = os.path.join(tmp, 'verif')
        if not os.path.exists(vv):
          shutil.copytree(V, vv, ignore=shutil.ignore_patterns('.git', 'seeded'))
        c = sh(f'bash run.sh {prop} --jobs 4', cwd=vv,
               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
        vl = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        res.append(f'{prop}:rc={c.returncode}' + ('' if vl else ' NOT CAUGHT') )
        out += '\n'.join(l[:400] for l in c.stdout.splitlines()[-4:])
    return bug['id'], 'KEPT' if keep else 'OK', ' '.join(res) + '\n      ' + out.replace('\n', '\n      ')
  except Exception as e:
    return bug['id'], 'ERROR', repr(e)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def main():
  args = sys.argv[1:]
  keep = '--keep' in args
  check = '--no-check' not in args
  args = [a for a in args if not a.startswith('--')]
  ns = {}
  exec(compile(open(args[0]).read(), args[0], 'exec'), ns)
  bugs = [b for b in ns['BUGS'] if len(args) < 2 or b['id'] in args[1:]]
  with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda b: run_one(b, keep, check), bugs):
      print('%s: %s %s' % r, flush=True)


if __name__ == '__main__':
  main()
