"""Bounded exhaustive exploration of real Python code (counterpart of mc.h)."""
import argparse
import hashlib
import json
import mmap
import os
import struct
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
  sys.path.insert(0, REPO)
BUILD = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'))
sys.path.insert(1, BUILD + '/gen/py')


class Violation(Exception):

  def __init__(self, msg, key=''):
    super().__init__(msg)
    self.key = key


class Skip(BaseException):
  pass


class Abandon(BaseException):
  pass


HARNESSES = {}


def harness(f):
  HARNESSES[f.__name__] = f
  return f


class Engine:

  def __init__(self):
    self.path = []  # [choice, n]
    self.pos = 0
    self.replay = False
    self.thorough = False
    self.shard, self.nshards, self.depth = 0, 1, -1
    self.counter = 0
    self.mine = self.new_prefix = True
    self.states = set()
    self.outcomes = {}
    self.steps = self.points = self.executions = 0
    self.trace = []
    self.samples = []
    self.extra = {}
    self.shared = None


E = Engine()


def thorough():
  return E.thorough


def tier(quick, deep):
  return deep if E.thorough else quick


def choose(n):
  if n <= 0:
    raise RuntimeError(f'mc: choose({n})')
  if E.pos < len(E.path):
    p = E.path[E.pos]
    if E.replay:
      p[1] = n
    if p[1] != n or p[0] >= n:
      print('mc: nondeterministic harness', file=sys.stderr)
      os._exit(2)
  else:
    E.path.append([0, n])
  c = E.path[E.pos][0]
  E.pos += 1
  E.points += 1
  if E.shared is not None and E.pos <= 4096:
    struct.pack_into('=i', E.shared, 16 + 4 * (E.pos - 1), c)
    struct.pack_into('=i', E.shared, 8, E.pos)
  if not E.replay and E.pos == E.depth:
    if E.new_prefix:
      E.mine = E.counter % E.nshards == E.shard
      E.counter += 1
      E.new_prefix = False
    if not E.mine:
      raise Skip()
  return c


def flag():
  return choose(2) == 1


def pick(seq):
  return seq[choose(len(seq))]


def rng(lo, hi):
  return lo + choose(hi - lo + 1)


def abandon():
  raise Abandon()


def step(n=1):
  E.steps += n


def state(s):
  if len(E.states) < 3000000:
    E.states.add(int.from_bytes(hashlib.blake2b(repr(s).encode(), digest_size=8).digest(), 'little'))


def outcome(s):
  if s in E.outcomes or len(E.outcomes) < 2000:
    E.outcomes[s] = E.outcomes.get(s, 0) + 1


def count(name, n=1):
  E.extra[name] = E.extra.get(name, 0) + n


def say(s):
  E.trace.append(str(s))


def fail(msg, key=''):
  raise Violation(msg, key)


def check(cond, msg):
  if not cond:
    raise Violation(msg() if callable(msg) else str(msg))


def eq(got, want, what=''):
  if got != want:
    raise Violation(f'{what}: got {got!r}, expected {want!r}')


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--list', action='store_true')
  ap.add_argument('--harness')
  ap.add_argument('--shard', type=int, default=0)
  ap.add_argument('--shards', type=int, default=1)
  ap.add_argument('--depth', type=int, default=2)
  ap.add_argument('--out')
  ap.add_argument('--shared')
  ap.add_argument('--thorough', action='store_true')
  ap.add_argument('--budget', type=float, default=1e9)
  ap.add_argument('--known', action='append', default=[])
  ap.add_argument('--replay')
  ap.add_argument('--whole', action='store_true')
  a = ap.parse_args()
  if a.list:
    print('\n'.join(HARNESSES))
    return 0
  if a.harness not in HARNESSES:
    print('no harness', a.harness, file=sys.stderr)
    return 2
  fn = HARNESSES[a.harness]
  E.thorough = a.thorough
  E.shard, E.nshards, E.depth = a.shard, a.shards, (a.depth if a.shards > 1 else -1)
  if a.shared:
    with open(a.shared, 'w+b') as f:
      f.truncate(16 + 4 * 4096)
      E.shared = mmap.mmap(f.fileno(), 0)
  if a.replay is not None:
    E.replay = True
    E.path = [[int(c), 0] for c in a.replay.split(',') if c]
  t0 = time.time()
  viol = []
  n_viol = 0
  capped = False
  hb = 0
  while True:
    E.pos = 0
    E.trace = []
    hb += 1
    if E.shared is not None:
      struct.pack_into('=qi', E.shared, 0, hb, 0)
    counted = True
    v = None
    try:
      fn()
      if not E.replay and 0 < E.depth and E.pos < E.depth:
        counted = E.counter % E.nshards == E.shard
        E.counter += 1
    except Skip:
      counted = False
    except Abandon:
      counted = False
    except Violation as e:
      v = (e.key, str(e))
    except Exception:  # pylint: disable=broad-except
      v = ('', 'unexpected exception: ' + traceback.format_exc(limit=-6)[-1500:])
    if v is not None:
      known = bool(v[0]) and v[0] in a.known
      if not (v[0] and any(o['key'] == v[0] for o in viol)) and (len(viol) < 20 or known):
        viol.append(dict(key=v[0], msg=v[1], choices=','.join(str(c) for c, _ in E.path[:E.pos]), trace='; '.join(E.trace)))
      n_viol += not known
    if counted:
      E.executions += 1
      if E.trace and (len(E.samples) < 2 or (E.executions in (1000, 20000))):
        E.samples.append('; '.join(E.trace)[:1500])
    if E.replay:
      print('trace:', '\n       '.join(E.trace))
      for x in viol:
        print('violation:', x['key'], x['msg'])
      return 1 if viol else 0
    if n_viol >= 3:
      break
    del E.path[E.pos:]
    while E.path and E.path[-1][0] + 1 >= E.path[-1][1]:
      E.path.pop()
    if not E.path:
      break
    E.path[-1][0] += 1
    if len(E.path) <= E.depth:
      E.new_prefix = True
    if (E.executions & 15) == 0 and time.time() - t0 > a.budget:
      capped = True
      break
  if a.whole:
    for x in viol:
      print('violation:', x['key'], x['msg'], x['choices'])
    return 1 if viol else 0
  r = dict(harness=a.harness, executions=E.executions, steps=E.steps, points=E.points, capped=capped, wall=time.time() - t0,
           outcomes=E.outcomes, samples=E.samples, violations=viol, extra=E.extra)
  if a.out:
    with open(a.out + '.st', 'wb') as f:
      for x in E.states:
        f.write(struct.pack('=Q', x))
    with open(a.out, 'w', encoding='utf8') as f:
      json.dump(r, f)
  else:
    print(json.dumps(r, indent=1))
  return 0
