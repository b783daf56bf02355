"""Writes the number of quick cases of each check into DESIGN.md."""
import glob
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
quick = {}
for f in glob.glob(os.path.join(V, 'pbt', 'p_*.py')):
  for pid, name, n in re.findall(r'@check\(\s*"(C\d\d)", "(\w+)",[^\n]*?\n?[^\n]*?quick=(\d+)', open(f).read()):
    quick[pid, name] = n
text = open(os.path.join(V, 'DESIGN.md')).read()


def head(m):
  pid = None
  out = []
  for part in re.split(r'(C\d\d)', m[0]):
    if re.fullmatch(r'C\d\d', part):
      pid = part
    elif pid:
      part = re.sub(r'(\w+) \[\d+\]', lambda k: f'{k[1]} [{quick[pid, k[1]]}]', part)
    out.append(part)
  return ''.join(out)


text = re.sub(r'\*\*C\d\d [^*]*\*\*', head, text)
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
