"""Runs the check of every planted bug again: python tools/recheck.py [id ...].

Applies seeded/<id>/patch.diff to a scratch copy of /repo, runs demo.sh with
and without it and the check of the bug's property, and prints a line per bug.
With --table it prints a Markdown table. No check uses this file.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('WORKERS', '4'))


def run(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(bug):
  meta = json.load(open(f'{V}/seeded/{bug}/meta.json'))
  tmp = tempfile.mkdtemp(prefix='recheck_', dir='/tmp')
  try:
    run(f'mkdir {tmp}/verif && cp -r {V}/pbt {V}/corpus {V}/run.sh {V}/known_findings.txt {tmp}/verif/ && cp -a /repo {tmp}/repo')
    env = dict(os.environ, PYTHONPATH=f'{tmp}/repo', MPLBACKEND='Agg')
    demo = f'bash {V}/seeded/{bug}/demo.sh'
    clean = run(demo, cwd=f'{tmp}/repo', env=env).returncode
    if run(f'git apply {V}/seeded/{bug}/patch.diff', cwd=f'{tmp}/repo').returncode:
      return bug, meta, 'does not apply'
    broken = run(demo, cwd=f'{tmp}/repo', env=env).returncode
    if clean or not broken:
      return bug, meta, f'demo {clean} {broken}'
    env = dict(os.environ, VERIF_REPO=f'{tmp}/repo', VERIF_SEED='1', VERIF_TIER='quick')
    p = run(f'bash run.sh {meta["property"]}', cwd=f'{tmp}/verif', env=env)
    line = [x for x in p.stdout.splitlines() if x.startswith('check ')]
    return bug, meta, ('caught' if p.returncode == 1 else f'NOT CAUGHT ({p.returncode})') + ' ' + (line[0][6:90] if line else '')
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  ids = [a for a in sys.argv[1:] if a != '--table'] or sorted(os.listdir(f'{V}/seeded'))
  with cf.ThreadPoolExecutor(WORKERS) as ex:
    for bug, meta, out in ex.map(one, ids):
      if '--table' in sys.argv:
        print(f'| {bug} | {meta["property"]} | {meta["what_it_breaks"]} | {out.split(":")[0]} |', flush=True)
      else:
        print(bug, meta['property'], out, flush=True)
