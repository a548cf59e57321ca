"""Protopaths: which strings are paths, the columns they denote, and the request trees built from lists of them."""
import re
import sys

import pymc
from pymc import abandon, check, choose, eq, harness, pick, state, step, tier

from arolla.codegen.io import array_generator
from arolla.codegen.io import multi_protopath as mp
from arolla.codegen.io import protopath as P

GEN = array_generator.create_generator('DenseArray')

# text -> (kind, canonical text, table name, column name)
SINGLE = [
    ('a', 'a', 'a', 'a'),
    ('Camel_1', 'Camel_1', 'Camel_1', 'Camel_1'),
    ('extern', 'extern', 'extern', 'extern'),
    ('b[0]', 'b[0]', 'b[0]', 'b[0]'),
    ('b[12]', 'b[12]', 'b[12]', 'b[12]'),
    ('m["k"]', 'm["k"]', 'm["k"]', 'm["k"]'),
    ("m['k']", 'm["k"]', 'm["k"]', 'm["k"]'),
    ('m["k.-e[y"]', 'm["k.-e[y"]', 'm["k.-e[y"]', 'm["k.-e[y"]'),
    ('Ext::x.y.z', 'Ext::x.y.z', 'Ext::x.y.z', 'Ext::x.y.z'),
    ('&::f', '&::f', 'f', 'f'),
    ('*', '*', None, None),
    ('m[*]', 'm[*]', 'm["%s"]', 'm["%s"]'),
]
MULTI = [
    ('r[:]', 'r[:]', 'r', '/r'),
    ('m[:]/@key', 'm[:]@key', 'm/@key', None),
    ('m[:]/@value', 'm[:]@value', 'm/@value', None),
    ('[:]', '[:]', '', None),
]
COUNT = [('count(r[:])', 'count(r[:])', 'r/@size'), ('count([:])', 'count([:])', '@size')]
BAD = ['', 'a b', '1a', 'a-b', 'b[-1]', 'b[x]', 'b[', 'b]', 'm[k]', 'm[""]', 'm["k\']', '@key', 'a/@key', 'a@b', 'r[::]', 'r[1:]', 'count(a)', 'count(b[0])', 'count(m["k"])', '&', '@value', '"a"', 'm["k"][0]"']


def choose_elements(maxlen):
  """Elements as (kind, text, canonical, name)."""
  n = 1 + choose(maxlen)
  res = []
  for i in range(n):
    kind = choose(4 if i + 1 == n else 2)
    if kind == 0:
      e = pick(SINGLE)
      res.append(('single', e[0], e[1], e[2]))
    elif kind == 1:
      e = pick(MULTI)
      if e[0] == '[:]' and i > 0:
        abandon()
      res.append(('multi', e[0], e[1], e[2]))
    elif kind == 2:
      e = pick(COUNT)
      if e[0] == 'count([:])' and i > 0:
        abandon()
      res.append(('count', e[0], e[1], e[2]))
    else:
      e = pick(BAD)
      res.append(('bad', e, None, None))
  return res


def name_of(elements):
  parts = [e[3] for e in elements if e[3]]
  return '/' + '/'.join(parts) if parts else '/'


@harness
def parse():
  els = choose_elements(tier(3, 4))
  slash = '/' if choose(2) else ''
  text = slash + '/'.join(e[1] for e in els)
  wild = sum(e[1] == 'm[*]' for e in els)
  bad = any(e[0] == 'bad' for e in els)
  count = els[-1][0] == 'count'
  for fn, valid in ((P.Protopath.parse, not bad and wild == 0), (P.Protopath.parse_wildcard, not bad and wild == 1 and not count)):
    try:
      p = fn(text)
    except ValueError:
      check(not valid, f'{text!r} is refused by {fn.__name__}')
      continue
    if bad:
      # What "&" and "@" alone mean is not documented; everything else in BAD is not a path.
      if any(e[1] in ('&', '@key', '@value', 'a/@key') for e in els):
        abandon()
    check(valid, f'{text!r} is accepted by {fn.__name__}')
    eq(p.is_size, count, f'is_size of {text}')
    eq(p.is_single_value, all(e[0] != 'multi' for e in els), f'is_single_value of {text}')
    eq(p.protopath, text, 'text')
    # Names start with one slash, whatever the spelling of the path.
    if not (els[0][1] == '[:]'):
      eq(p.default_name.lstrip('/'), name_of(els).lstrip('/'), f'default name of {text}')
      check(not p.default_name.startswith('//'), p.default_name)
    got = []
    for singles, multi in p.multi_elems:
      got += [s.protopath_element() for s in singles] + [multi.protopath_element()]
    got += [s.protopath_element() for s in p.last_path_list]
    eq(got, [e[2] for e in els], f'elements of {text}')
    check_accessors(p, els, text, wild)
  state(text)
  step()


def check_accessors(p, els, text, wild):
  acc = p.accessor(GEN)
  eq(acc.default_name, p.default_name, 'default name')
  eq(acc.protopath, text, 'protopath of the accessor')
  args = acc.lambda_str.split(')')[0]
  eq('feature_key' in args, wild == 1, f'wildcard argument of {text}: {args}')
  # Writable: not wildcards, not repeated scalars or map keys; loops over keys cannot be written through.
  multi = [e for e in els if e[0] == 'multi']
  writable = not wild and els[-1][0] != 'multi' and not any(e[1].endswith('@key') for e in multi)
  try:
    m = p.mutable_accessor(array_gen=GEN)
    check(writable, f'{text} has a mutable accessor')
    eq(m.default_name, p.default_name, 'default name of the mutable accessor')
  except NotImplementedError:
    check(els[-1][1] in ('*', 'count([:])'), f'{text} has no mutable accessor')
  except ValueError:
    check(not writable, f'{text} has no mutable accessor')
  # The value type of an accessor can be fixed.
  t = p.accessor(GEN, cpp_type='my::Type') if not p.is_size else None
  if t is not None:
    eq(t.cpp_type, 'my::Type', 'cpp type')
    check('my::Type' in t.lambda_str, f'type is not used for {text}')


@harness
def slashes():
  """Empty elements are refused everywhere; one leading slash does not matter."""
  n = 1 + choose(tier(5, 6))
  s = ''.join(pick(['a', '/', 'b']) for _ in range(n))
  els = s[1:].split('/') if s.startswith('/') else s.split('/')
  valid = all(els) and not s.startswith('//')
  try:
    p = P.Protopath.parse(s)
    check(valid, f'{s!r} is accepted')
    eq(p.default_name.lstrip('/'), '/'.join(els), s)
  except ValueError:
    check(not valid, f'{s!r} is refused')
  state(s)
  step()


@harness
def equality():
  """Elements are equal if and only if they denote the same access."""
  pool = [e[0] for e in SINGLE] + ['b[1]', 'm["j"]', 'a2', 'n["k"]', 'c[0]', 'Ext::x.y', '&::g', 'b', 'm', 'f']
  x, y = pick(pool), pick(pool)
  fx, fy = P._single_value_element(x), P._single_value_element(y)  # pylint: disable=protected-access
  eq(fx == fy, x.replace("'", '"') == y.replace("'", '"'), f'{x} == {y}')
  pool = ['r[:]', 's[:]', 'm[:]@key', 'm[:]@value', 'n[:]@key', 'n[:]@value', 'm[:]', '[:]', 'r[:]@key']
  u, v = pick(pool), pick(pool)
  fu, fv = P._parse_multi_value_element(u), P._parse_multi_value_element(v)  # pylint: disable=protected-access
  eq(fu == fv, u == v, f'{u} == {v}')
  check(fu is not None and not (fx == fu) and not (fu == fx), f'{x} == {u}')
  state((x, y, u, v))
  step()


@harness
def name_modifiers():
  """Modified names of different fields stay what the policy says."""
  n = 1 + choose(3)
  parts = [pick(['a', 'b_c', '_d', 'x1']) for _ in range(n)]
  size = choose(2)
  name = '/' + '/'.join(parts) + ('/@size' if size else '')
  m = P.default_name_modifiers
  eq(sorted(m), ['default', 'double_underscore', 'leaf_only', 'single_underscore'], 'policies')
  eq(m['default'](name), name, 'default')
  eq(m['single_underscore'](name), '_'.join(parts + ['@size'] * size), 'single')
  eq(m['double_underscore'](name), '__'.join(parts + ['@size'] * size), 'double')
  eq(m['leaf_only'](name), name if size else parts[-1], 'leaf')
  state(name)
  step()


# ------------------------------------------------------------------ trees
def walk(node, path=()):
  """[(path of elements, leaf node)] in order, ignoring fictive nodes."""
  if node.is_leaf():
    return [(path, node)]
  res = []
  for c in node.children:
    check(c.parent is node, 'parent link')
    el = () if c.is_fictive() else (element(c),)
    res += walk(c, path + el)
  return res


def element(node):
  if isinstance(node, mp.SingleValueProtopathTreeNode):
    return node.path_from_parent.protopath_element()
  check((node.path_from_parent_single is None) != (node.path_from_parent_multi is None), 'one element per node')
  return (node.path_from_parent_single or node.path_from_parent_multi).protopath_element()


def check_tree(root, wanted):
  """wanted: [(name, canonical elements, is_size)] in request order."""
  leaves = walk(root)
  # Every request has exactly one leaf.
  eq(sorted((l.leaf_accessor_name, '/'.join(p)) for p, l in leaves), sorted((n, '/'.join(e)) for n, e, _ in wanted), 'leaves')
  sizes = {n for n, _, s in wanted if s}
  for p, l in leaves:
    eq(l.is_size, l.leaf_accessor_name in sizes, f'is_size of {p}')
    eq(l.protopath(), '/'.join(p), 'protopath of a leaf')
    check(l.leaf_accessor is not None, 'accessor of a leaf')
    check(l.leaf_accessor_name in l.comment, 'comment')
  eq([l for _, l in leaves], root.leaves(), 'leaves')
  nodes = root.post_order_nodes()
  num = mp.create_node_numeration(root)
  eq([num.node2id[n] for n in nodes], list(range(len(nodes))), 'node ids')
  eq([num.leaf2id[l] for l in root.leaves()], list(range(len(wanted))), 'leaf ids')
  inner = [n for n in nodes if not n.is_leaf()]
  eq([num.intermediate2id[n] for n in inner], list(range(len(inner))), 'intermediate ids')
  eq(len(num.leaf2id) + len(num.intermediate2id), len(nodes), 'number of ids')
  eq(mp.size_leaf_ids(root, num), [num.leaf2id[l] for _, l in leaves if l.is_size], 'size leaves')
  # The C++ description of the tree.
  text = mp.define_protopath_tree(root, num)
  m = re.search(r'tree\((\d+)\);', text)
  check(m is not None, 'tree size')
  eq(int(m.group(1)), len(nodes), 'tree size')
  desc = {int(a): [int(x) for x in b.split(',') if x] for a, b in re.findall(r'tree\[(\d+)\] = \{([\d,]*)\};', text)}
  for n in nodes:
    i = num.node2id[n]
    eq(desc.get(i, []), [num.node2id[c] for c in n.children], 'children in the description')
    check(all(num.node2id[c] < i for c in n.children), 'children come before their parent')
    check(sum(not c.is_fictive() for c in n.children) <= 8, f'{len(n.children)} children')
    check(not n.is_fictive() or all(not c.is_fictive() for c in n.children), 'nested fictive nodes')
    if n.is_fictive():
      check(n.children, 'fictive leaf')
    check(not n.non_fictive_ancestor().is_fictive(), 'non fictive ancestor')
    eq(n.depth_without_fictive(), len([x for x in ancestors(n) if x.parent is not None and not x.is_fictive()]), 'depth')
  # Inner nodes are shared: one per distinct proper prefix.
  got = sorted('/'.join(path_of(n)) for n in inner if not n.is_fictive())
  want = sorted({'/'.join(e[:k]) for _, e, _ in wanted for k in range(len(e))} | {''})
  eq(got, want, 'inner nodes')


def ancestors(n):
  res = []
  while n is not None:
    res.append(n)
    n = n.parent
  return res


def path_of(n):
  return [element(x) for x in reversed(ancestors(n)) if x.parent is not None and not x.is_fictive()]


def canonical(text):
  p = P.Protopath.parse(text)
  res = []
  for singles, multi in p.multi_elems:
    res += [s.protopath_element() for s in singles] + [multi.protopath_element()]
  return res + [s.protopath_element() for s in p.last_path_list]


class Plain(P.accessors.Accessor):
  pass


def run_tree(paths, extract, mine, other):
  """paths: request order. mine(path): whether it belongs into the tree."""
  acc = []
  for i, t in enumerate(paths):
    if t is None:
      acc.append((f'n{i}', P.accessors.Accessor('[](const auto& x) { return x; }', [], 'plain')))
    else:
      acc.append((f'n{i}' if i % 3 else '', P.Protopath.parse(t).accessor(GEN)))
  names = [n or a.default_name for n, a in acc]
  wanted = [(names[i], canonical(t), t.rsplit('/')[-1].startswith('count(')) for i, t in enumerate(paths) if t is not None and mine(t)]
  prefix = any(len(a[1]) < len(b[1]) and b[1][:len(a[1])] == a[1] for a in wanted for b in wanted)
  try:
    rest, root = extract(acc)
  except ValueError:
    check(prefix, f'{paths} is refused')
    state(('refused', tuple(paths)))
    return
  eq([a for a in rest], [acc[i] for i, t in enumerate(paths) if t is None or not mine(t)], 'other accessors')
  if not wanted:
    check(not root.leaves(), 'empty tree')
    return
  if prefix:
    return  # a value and a message under the same name: either answer is fine
  check_tree(root, wanted)
  state(tuple(paths))
  step()


SPOOL = ['a', 'b', 'a/x', 'a/y', 'a/x/p', 'b[0]/x', 'b[1]/x', 'm["k"]', 'm["k"]/x', 'count(r[:])', 'a/count(r[:])', 'r[:]', None]
MPOOL = ['r[:]', 's[:]', 'r[:]/x', 'r[:]/y', 'r[:]/x/p', 'r[:]/t[:]', 'r[:]/t[:]/x', 'r[:]/count(t[:])', 'a/r[:]/x', 'a/s[:]', 'm[:]/@key', 'm[:]/@value/x', 'r[:]/m[:]/@value/x', 'a', None]


@harness
def tree_single():
  paths = [pick(SPOOL) for _ in range(choose(tier(5, 6)))]
  run_tree(paths, mp.extract_single_value_protopath_accessors, lambda t: '[:]' not in t.replace('count(r[:])', ''), None)


@harness
def tree_multi():
  paths = [pick(MPOOL) for _ in range(choose(tier(5, 6)))]
  run_tree(paths, mp.extract_multi_value_protopath_accessors, lambda t: '[:]' in t.split('count(')[0], None)


@harness
def tree_wide():
  """Many children: groups of at most eight, at every level."""
  n = choose(tier(75, 140))
  deep = choose(3)
  multi = choose(2)
  other = choose(3)
  base = ['', 'a/', 'a/b/'][deep] + ('r[:]/' if multi else '')
  paths = [base + f'f{i}' for i in range(n)] + [('r[:]/' if multi else '') + f'z/g{i}' for i in range(other * 8)]
  if multi:
    run_tree(paths, mp.extract_multi_value_protopath_accessors, lambda t: True, None)
  else:
    run_tree(paths, mp.extract_single_value_protopath_accessors, lambda t: True, None)


@harness
def intermediate():
  """Every repeated leaf starts from a node whose values are collected before, on its own path."""
  paths = [pick([p for p in MPOOL if p not in ('a', None)]) for _ in range(1 + choose(tier(3, 4)))]
  acc = [(f'n{i}', P.Protopath.parse(t).accessor(GEN)) for i, t in enumerate(paths)]
  try:
    _, root = mp.extract_multi_value_protopath_accessors(acc)
  except ValueError:
    return
  info = mp.nodes_for_intermediate_collection(root)
  order = root.post_order_nodes()
  V = mp.IntermediateCollectionInfo.COLLECT_VALUES
  S = mp.IntermediateCollectionInfo.COLLECT_PARENT_VALUES_AND_SIZES
  check(root not in info, 'root is collected')
  eq([n for n in order if n in info], list(info), 'post order')
  for leaf in root.leaves():
    start, kind = leaf.intermediate_start_node()
    check(start.is_ancestor_of(leaf), 'start is on the path')
    check(not start.is_fictive(), 'fictive start')
    loops = start.repeated_depth()
    if kind == V:
      eq(loops, leaf.repeated_depth(), f'values of {start} for {leaf}')
    else:
      eq(kind, S, 'kind')
      check(start.path_from_parent_multi is not None, f'sizes of {start}')
  state(tuple(paths))
  step()


# ------------------------------------------------------------------ descriptors
def enumerate_fields(d, mutable, arrays, exts, prefix, seen):
  """Independent enumeration: [(name, protopath)]."""
  FD = P.descriptor.FieldDescriptor
  res = []
  for f in list(d.fields) + [e for e in exts if e.containing_type.full_name == d.full_name]:
    msg = f.message_type
    if msg is not None and msg.GetOptions().map_entry:
      continue
    rep = f.label == FD.LABEL_REPEATED
    if rep and (not arrays or f.is_extension):
      continue
    el = f'Ext::{f.full_name}' if f.is_extension else f.name
    if rep and (msg is not None or not mutable):
      res.append(('/'.join(prefix[1] + [el, '@size']), '/'.join(prefix[0] + [f'count({el}[:])'])))
    path = (prefix[0] + [el + ('[:]' if rep else '')], prefix[1] + [el])
    if msg is not None:
      if msg.full_name not in seen | {d.full_name}:
        res += enumerate_fields(msg, mutable, arrays, exts, path, seen | {d.full_name})
    elif not (rep and mutable):
      res.append(('/'.join(path[1]), '/'.join(path[0])))
  return res


def protos():
  import vp_test_pb2  # pylint: disable=g-import-not-at-top
  import vp_test3_pb2  # pylint: disable=g-import-not-at-top
  return vp_test_pb2, vp_test3_pb2


@harness
def from_descriptor():
  """Accessors for a message type cover every supported field once, under its default name."""
  a, b = protos()
  mods = [a, b]
  descs = [m.DESCRIPTOR.message_types_by_name[n] for m in mods for n in sorted(m.DESCRIPTOR.message_types_by_name)]
  d = pick(descs)
  mutable = bool(choose(2))
  arrays = bool(choose(2))
  with_ext = bool(choose(2))
  prefix = pick([None, 'pre', 'pre[:]'])
  skip = pick([None, 's', 'sub'])
  exts = list(a.DESCRIPTOR.extensions_by_name.values()) if with_ext else []
  t2e = P.collect_extensions_per_containing_type([a.DESCRIPTOR, b.DESCRIPTOR]) if with_ext else None
  if with_ext:
    nested = [e for m in a.DESCRIPTOR.message_types_by_name.values() for e in m.extensions]
    exts += nested
    eq(sorted(e.full_name for v in t2e.values() for e in v), sorted(e.full_name for e in exts), 'extensions')
  if prefix == 'pre[:]' and mutable and not arrays:
    abandon()
  if prefix == 'pre[:]' and not arrays:
    abandon()
  got = P.accessors_from_descriptor(d, GEN if arrays else None, type2extensions=t2e, mutable=mutable, protopath_prefix=prefix,
                                    text_cpp_type='my::Text', skip_field_fn=(lambda f: f.name == skip))
  class Skip:
    pass
  base = ([prefix] if prefix else [], ['pre'] if prefix else [])
  want = enumerate_fields(d, mutable, arrays, exts, base, set())
  if skip:
    want = [w for w in want if not any(part.split('[')[0].removeprefix('count(') == skip for part in w[1].split('/'))]
  eq(sorted((n.lstrip('/'), x.protopath) for n, x in got), sorted(want), f'accessors of {d.full_name}')
  eq([n for n, _ in got], sorted(n for n, _ in got), 'sorted by name')
  eq(all(n.startswith('/') for n, _ in got), True, 'names start with a slash')
  for _, x in got:
    # String (and only string) fields use the text type.
    last = x.protopath.split('/')[-1]
    if not last.startswith('count('):
      eq(x.cpp_type == 'my::Text', is_string(d, x.protopath, exts, prefix), f'text type of {x.protopath}')
  state((d.full_name, mutable, arrays, with_ext, prefix, skip))
  step()


def is_string(d, path, exts, prefix):
  FD = P.descriptor.FieldDescriptor
  els = path.split('/')
  if prefix:
    els = els[1:]
  for e in els:
    e = e.replace('[:]', '')
    if e.startswith('Ext::'):
      f = [x for x in exts if x.full_name == e[5:]][0]
    else:
      f = d.fields_by_name[e]
    d = f.message_type
  return f.type == FD.TYPE_STRING


if __name__ == '__main__':
  sys.exit(pymc.main())
