#!/opt/arolla-venv/bin/python
"""Makes and confirms planted bugs (never used by a check).

  seedtool.py make ID FILE OLD NEW       (OLD/NEW: files holding the text; patch.diff is made and undone)
  seedtool.py try ID... [--nocheck] [--notests]
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f'{VERIF}/seeded'


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def clean():
  assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'


def make(id, edits, prop, needs, breaks):
  clean()
  d = f'{S}/{id}'
  os.makedirs(d, exist_ok=True)
  try:
    for path, old, new in edits:
      p = f'/repo/{path}'
      s = open(p, encoding='utf8').read()
      assert s.count(old) == 1, (path, s.count(old), old)
      open(p, 'w', encoding='utf8').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
  finally:
    sh('git -C /repo checkout -- .')
  json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)


def demo(id):
  r = sh('timeout 300 bash ' + f'{S}/{id}/demo.sh', cwd='/repo')
  return r.returncode, r.stdout


def tests():
  r = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
  base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
  try:
    got = set(json.load(open('/tmp/seed_out.json'))['passed'])
  except OSError:
    return ['no result']
  return sorted(base - got)


def attempt(id, check=True, run_tests=True):
  clean()
  meta = json.load(open(f'{S}/{id}/meta.json'))
  res = []
  rc, out = demo(id)
  if rc != 0:
    res.append(f'demo fails on the unchanged tree ({rc}): {out[-800:]}')
  r = sh(f'git -C /repo apply {S}/{id}/patch.diff')
  if r.returncode:
    return [f'patch does not apply: {r.stdout}']
  try:
    if run_tests:
      bad = tests()
      if bad:
        res.append(f'tests fail: {bad[:3]}')
    rc, out = demo(id)
    if rc == 0:
      res.append('demo passes with the patch')
    if check:
      r = sh(f"cd {VERIF} && VERIF_EVIDENCE=/tmp/seed_ev ./check.py {meta['property']}")
      caught = r.returncode == 1 and f"VIOLATION property={meta['property']} " in r.stdout
      res.append(f"{'CAUGHT' if caught else 'MISSED'} by {meta['property']} (rc {r.returncode}): " + ' | '.join(l[:160] for l in r.stdout.strip().split('\n')[:1]) + (r.stdout[-1500:] if not caught else ''))
  finally:
    sh('git -C /repo checkout -- .')
  return res


if __name__ == '__main__':
  a = sys.argv[1:]
  flags = [x for x in a if x.startswith('--')]
  ids = [x for x in a[1:] if not x.startswith('--')]
  if a[0] == 'try':
    for i in ids or sorted(os.listdir(S)):
      print(i, *attempt(i, '--nocheck' not in flags, '--notests' not in flags), sep='\n   ', flush=True)
