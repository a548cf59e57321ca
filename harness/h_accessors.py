"""Lists of named accessors used by the input loader generator."""
import sys

import pymc
from pymc import abandon, check, choose, eq, flag, harness, pick, rng, say, state, step, tier

from arolla.codegen.io import accessor_generator
from arolla.codegen.io import accessors
from arolla.codegen.io import cpp


def make(i):
  """Fresh accessor number i; 1 is equal to (but not the same object as) 0."""
  spec = [
      ('[](const auto& x) { return x.a; }', ['b.h', 'a.h'], 'a'),
      ('[](const auto& x) { return x.a; }', ['a.h', 'b.h', 'a.h'], 'a'),
      ('[](const auto& x) { return x.b; }', ['<vector>'], 'a'),
      ('[](const auto& x) { return x.a; }', ['a.h', 'b.h'], 'b'),
      ('[](const auto& x) { return x.a; }', ['a.h'], 'a'),
      ('[](const auto& x) { return x.c; }', [], None),
  ][i]
  return accessors.Accessor(spec[0], [cpp.Include(h) for h in spec[1]], spec[2])


KIND = [0, 0, 1, 2, 3, 4]  # equality classes of make()
DEFAULT = ['a', 'a', 'a', 'b', 'a', None]
HEADERS = [{'a.h', 'b.h'}, {'a.h', 'b.h'}, {'<vector>'}, {'a.h', 'b.h'}, {'a.h'}, set()]


def inc(h):
  return '#include ' + (h if h.startswith('<') else f'"{h}"')


def model(items):
  """(sorted names -> class) or the set of conflicting names or 'no name'."""
  by_name = {}
  for name, i in items:
    n = name or DEFAULT[i]
    if not n:
      return 'no name'
    by_name.setdefault(n, set()).add(KIND[i])
  bad = sorted(n for n, k in by_name.items() if len(k) > 1)
  if bad:
    return bad
  return {n: next(iter(k)) for n, k in by_name.items()}


def kind_of(acc):
  for i in (0, 2, 3, 4, 5):
    if acc == make(i):
      return KIND[i]
  raise pymc.Violation(f'accessor changed: {acc.lambda_str} {acc.required_includes}')


def choose_items(maxlen, names=('', 'a', 'b', 'a/b')):
  n = choose(maxlen + 1)
  return [(pick(names), choose(6)) for _ in range(n)]


@harness
def lists():
  items = choose_items(tier(3, 4), tier(('', 'a', 'b', 'a/b'), ('', 'a', 'B')))
  say(f'accessors {items}')
  arg = [(n, make(i)) for n, i in items]
  copy = list(arg)
  want = model(items)
  step()
  for fn in (accessors.sorted_accessor_list, accessors.AccessorsList):
    try:
      got = fn(arg)
    except ValueError as e:
      check(not isinstance(want, dict), f'{fn.__name__} rejected {items}: {e}')
      if want != 'no name':
        for n in want:
          check(repr(n) in str(e), f'{fn.__name__}: error does not name {n!r}: {e}')
        names = str(e)[str(e).index('['):]
        eq(names, str(want), 'conflicting names reported')
      continue
    check(isinstance(want, dict), f'{fn.__name__} accepted {items}, expected rejection ({want})')
    pairs = got if isinstance(got, list) else got.named_accessors
    eq([n for n, _ in pairs], sorted(want), f'{fn.__name__} names')
    for n, a in pairs:
      eq(kind_of(a), want[n], f'{fn.__name__}: accessor named {n}')
    if not isinstance(got, list):
      eq(len(got), len(want), 'len')
      eq(got.names, sorted(want), 'names')
      eq([kind_of(a) for a in got.accessors], [want[n] for n in sorted(want)], 'accessors')
      eq([i.include_str for i in got.required_includes],
         sorted({inc(h) for n, i in items for h in HEADERS[i] if want[n or DEFAULT[i]] == KIND[i]}), 'required includes')
      got.named_accessors.clear()
      got.names.clear()
      got.accessors.clear()
      eq(len(got), len(want), 'list after a caller cleared the returned copies')
      eq(got.names, sorted(want), 'names after a caller cleared the returned copies')
      again = accessors.AccessorsList(got.named_accessors)
      eq(again.names, got.names, 'list rebuilt from its own elements')
      for size in (1, 2, 3, 5):
        sh = got.shards(size)
        step()
        eq([n for s in sh for n in s.names], got.names, f'names over shards of size {size}')
        eq([kind_of(a) for s in sh for a in s.accessors], [want[n] for n in got.names], f'accessors over shards of size {size}')
        for s in sh[:-1]:
          eq(len(s), size, 'size of a full shard')
        check(len(sh[-1]) <= size and (len(sh[-1]) > 0 or len(got) == 0), f'last shard has {len(sh[-1])}')
  check(len(arg) == len(copy) and all(a is c for a, c in zip(arg, copy)), 'the argument was modified')
  state((sorted(want.items()) if isinstance(want, dict) else want, len(items)))


@harness
def big_shards():
  n = choose(tier(41, 161))
  lst = [(f'n{i:03}', accessors.path_accessor(f'.f{i}')) for i in range(n)]
  k = rng(-1, tier(44, 170))
  say(f'{n} accessors into {k} shards')
  got = list(accessors.split_accessors_into_shards(lst, k))
  eq([x[0] for s in got for x in s], [x[0] for x in lst], 'names over all shards')
  check(all(a[1] is b[1] for a, b in zip([x for s in got for x in s], lst)), 'accessors over all shards')
  if k <= 1:
    eq(len(got), 1, 'number of shards')
  else:
    check(all(got), 'empty shard')
    eq(len(got), min(n, k), 'number of shards')
    sizes = [len(s) for s in got]
    check(not sizes or max(sizes) - min(sizes) <= 1, f'unbalanced shards {sizes}')
    eq(sizes, sorted(sizes, reverse=True), 'larger shards first')
  if k >= 1 and n:
    al = accessors.AccessorsList(lst)
    sh = al.shards(k)
    eq([x for s in sh for x in s.names], [x[0] for x in lst], 'AccessorsList shards')
    eq([len(s) for s in sh], [k] * (n // k) + ([n % k] if n % k else []), 'AccessorsList shard sizes')
  state((n, k))


@harness
def equality():
  i, j = choose(6), choose(6)
  a, b = make(i), make(j)
  say(f'compare {i} and {j}')
  eq(a == b, KIND[i] == KIND[j], 'a == b')
  eq(a != b, KIND[i] != KIND[j], 'a != b')
  check(not a == 'x', 'accessor equals a string')
  if DEFAULT[i]:
    eq(a.default_name, DEFAULT[i], 'default name')
  else:
    try:
      a.default_name
      raise pymc.Violation('missing default name accepted')
    except ValueError:
      pass
  eq(sorted(x.include_str for x in a.required_includes), sorted(inc(h) for h in HEADERS[i]), 'required includes')
  state((i, j))


LINES = ['', '  ', 'x', ' y', 'z  ', '\tt\t', '"a b"']


@harness
def lambda_text():
  n = rng(1, tier(4, 5))
  lines = [pick(LINES) for _ in range(n)]
  text = '\n'.join(lines)
  say(repr(text))
  a = accessors.Accessor(text, [])
  got = a.lambda_str
  eq(got.split('\n') if got else [], [l.rstrip() for l in lines if l.strip()], 'formatted lambda')
  p = accessors.path_accessor('.' + lines[0], 'nm')
  eq(''.join(p.lambda_str.split()), ''.join(f'[](const auto& input) {{ return input.{lines[0]}; }}'.split()), 'path accessor')
  eq(p.default_name, 'nm', 'path accessor default name')
  eq(set(p.required_includes), set(), 'path accessor includes')
  state(text)


CFGS = [accessor_generator.Config('::T', 'DenseArray', m) for m in (False, True)]


@harness
def generators():
  """Combinators that merge and filter lists of named accessors."""
  names = ['a', 'b', 'c/d', '']
  n = rng(0, tier(3, 4))
  items = [(pick(names), choose(3)) for _ in range(n)]
  cfg = pick(CFGS)
  split = choose(n + 1)
  allowed = [x for x in ('a', 'b', 'c/d') if flag()]
  say(f'{items} split at {split}, allowed {allowed}, mutable {cfg.is_mutable}')
  objs = [(nm, make(i)) for nm, i in items]
  g1 = lambda c: list(objs[:split]) if c is cfg else []
  g2 = lambda c: list(objs[split:]) if c is cfg else []
  merged = accessor_generator.merge_accessor_list(g1, g2)(cfg)
  check(len(merged) == n and all(x is y for x, y in zip(merged, objs)), 'merged accessors')
  flt = accessor_generator.filtered_by_name_accessor(lambda c: list(objs), accessor_generator.allowed_from_set(iter(allowed)))
  want = [k for k, (nm, i) in enumerate(items) if (nm or DEFAULT[i]) in allowed]
  for _ in range(2):  # a generator can be called again
    got = flt(cfg)
    step()
    check(len(got) == len(want) and all(g[1] is objs[k][1] and g[0] == objs[k][0] for g, k in zip(got, want)),
          f'filtered by name: {[g[0] for g in got]}, expected {[items[k][0] for k in want]}')
  pa = accessor_generator.path_accessor('.q', 'nm')(cfg)
  eq([(x, y.lambda_str) for x, y in pa], [('nm', accessors.path_accessor('.q').lambda_str)], 'single path accessor')
  state((items, allowed, cfg.is_mutable))


@harness
def model_filter():
  """Accessors restricted to what at least one of the models uses."""
  import tempfile, os
  cfg = pick(CFGS)
  prefix = pick(['', 'x_', 'x'])
  universe = ['a', 'b', 'x_a', 'x_', 'xa']
  n_files = rng(0, 2)
  files = []
  used = set()
  for _ in range(n_files):
    ins = [x for x in universe[:3] if flag()]
    outs = [x for x in universe[1:4] if flag()]
    files.append((ins, outs))
    used |= set(outs if cfg.is_mutable else ins)
  say(f'models {files}, prefix {prefix!r}, mutable {cfg.is_mutable}')
  allowed = {u[len(prefix):] for u in used if u.startswith(prefix)} if prefix else used
  with tempfile.TemporaryDirectory(prefix='verif') as d:
    paths = []
    for i, (ins, outs) in enumerate(files):
      p = os.path.join(d, f'{i}.textproto')
      with open(p, 'w') as f:
        f.write(''.join(f'inputs {{ name: "{x}" }}\n' for x in ins) + ''.join(f'side_outputs {{ name: "{x}" }}\n' for x in outs))
      paths.append(p)
    objs = [(nm, accessors.path_accessor('.' + nm.replace('/', '')) if nm else make(0)) for nm in ['', 'b', '_a', 'x_a', 'a', 'xa', 'q']]
    gen = accessor_generator.filtered_for_models_accessor(lambda c: list(objs), paths, strip_prefix=prefix)
  got = gen(cfg)
  want = [o for o in objs if (o[0] or o[1].default_name) in allowed]
  check(len(got) == len(want) and all(g[1] is w[1] for g, w in zip(got, want)), f'got {[g[0] for g in got]}, expected {[w[0] for w in want]}')
  state((files, prefix, cfg.is_mutable))


if __name__ == '__main__':
  sys.exit(pymc.main())
