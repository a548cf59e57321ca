"""Generates C++ accessors, input loaders and slot listeners with the repository's code generator.

Usage: gen_io.py OUT_DIR   (VERIF_REPO: the tree whose generator runs)
"""
import os
import sys

REPO = os.environ['VERIF_REPO']
OUT = sys.argv[1]
CHUNKS = 8
LCHUNKS = 6

import types  # noqa: E402

sys.path.insert(0, REPO)
from absl import flags  # noqa: E402
from arolla.codegen.io import accessors, array_generator, input_loader_lib, protopath, slot_listener_main  # noqa: E402

flags.FLAGS(['gen_io', '--build_target=//vp:listeners'])

M = '::vp::M'
P3 = '::vp::P3'
S = '::vpc::S'
V = '::vpc::V'
GEN = array_generator.create_generator('DenseArray')
P = protopath.Protopath


def q(s):
  return 'R"VP(' + s + ')VP"'


# ---------------------------------------------------------------- path grammar
TERMINALS = ['i', 'l', 'u', 'ul', 'f', 'd', 'b', 's', 'raw', 'e', 'CamelCase', 'extern', 'with_default',
             'Ext::vp.xa', 'Ext::vp.Scope.nested_x', 'ri[1]', 'rs[0]', 're[2]', 'ru[0]', 'private[1]',
             'mi["k"]', 'ms["k"]', 'ri[:]', 'rs[:]', 're[:]', 'ru[:]', 'rd[:]', 'private[:]',
             'mi[:]/@key', 'mi[:]/@value', 'ii[:]/@key', 'ii[:]/@value', 'ms[:]/@value',
             'count(ri[:])', 'count(subs[:])', 'count(mi[:])', 'count(rs[:])', 'count(ii[:])']
FEW = ['i', 's', 'u', 'e', 'Ext::vp.xa', 'ri[1]', 'mi["k"]', 'ri[:]', 'rs[:]', 'mi[:]/@key', 'ii[:]/@value',
       'count(ri[:])', 'count(mi[:])']
INTER = ['sub', 'subs[:]', 'subs[1]', 'mm["k"]', 'mm[:]/@value', 'Ext::vp.xm', 'class']
READ = list(TERMINALS)
READ += [f'{a}/{t}' for a in INTER for t in FEW]
READ += [f'{a}/{b}/{t}' for a in INTER for b in INTER for t in ('i', 'ri[:]', 'count(ri[:])')]
READ += [f'{a}/{b}/{c}/i' for a in ('sub', 'subs[:]', 'mm["k"]') for b in ('sub', 'subs[:]', 'subs[1]') for c in ('sub', 'subs[:]')]
READ += ['p3/v', 'subs[:]/p3/v']
READ += ['/' + p for p in ('i', 'sub/i', 'subs[:]/ri[:]')]
P3_READ = ['v', 'ov', 's', 'sub/v', 'sub/ov', 'subs[:]/v', 'subs[:]/ov', 'subs[:]/sub/v', 'mi["k"]', 'count(subs[:])', 'sub/sub/v']
S_READ = ['&::m/i', '&::m/sub/i', '&::m/subs[:]/i', '&::p/*/i', '&::p/*/sub/i', '&::p/*/subs[:]/ri[:]', '&::x', '&::p/*/count(ri[:])', '&::m/count(ri[:])']
V_READ = ['[:]/i', 'count([:])', '[:]/sub/i', '[:]/subs[:]/i', '[:]/ri[:]', '[:]/count(subs[:])', '[:]/mi["k"]']
WILD = ['mi[*]', 'ms[*]', 'mm[*]/i', 'mm[*]/ri[:]', 'subs[:]/mi[*]', 'sub/mi[*]', 'mm[*]/subs[:]/i', 'sub/mm[*]/mi["k"]', 'mm["k"]/mi[*]']
DEFAULTS = [(p, t, d) for p in ('i', 'sub/i', 'subs[1]/i', 'mi["k"]', 'mm["k"]/i', 'with_default', 'Ext::vp.xm/i') for t, d in (('int32_t', '-5'), ('float', '2.5f'))]
DEFAULTS += [(p, '::arolla::Text', '::arolla::Text("dflt")') for p in ('s', 'sub/s', 'rs[1]')]
TEXT = ['s', 'rs[:]', 'sub/s', 'subs[:]/s', 'mi[:]/@key', 'ms[:]/@value', 'subs[:]/ms[:]/@value', 'ms["k"]', 'Ext::vp.Scope.nested_x']
CASTS = [('i', 'int64_t'), ('i', 'double'), ('subs[:]/i', 'float'), ('ri[:]', 'int64_t'), ('u', 'uint64_t'), ('e', 'int64_t')]

MUT = ['i', 'l', 'u', 'ul', 'f', 'd', 'b', 's', 'raw', 'e', 'CamelCase', 'extern', 'with_default', 'Ext::vp.xa', 'Ext::vp.Scope.nested_x',
       'mi["k"]', 'ms["k"]', 'ri[1]', 'rs[0]', 'ru[1]']
MUT += [f'{a}/{t}' for a in INTER for t in ('i', 's', 'e', 'mi["k"]', 'Ext::vp.xa', 'ri[1]') if not (t == 'e' and a.startswith('mm[:]'))]
MUT += [f'{a}/{b}/{t}' for a in INTER for b in INTER for t in ('i', 'u')]
MUT += ['sub/sub/sub/i', 'subs[:]/subs[:]/subs[:]/i', 'p3/v']
P3_MUT = ['v', 'ov', 's', 'sub/v', 'subs[:]/v', 'subs[:]/sub/ov', 'mi["k"]']
S_MUT = ['&::m/i', '&::m/sub/i', '&::m/subs[:]/i', '&::p/*/i', '&::p/*/sub/i', '&::x']
V_MUT = ['[:]/i', '[:]/sub/i', '[:]/subs[:]/i']

out = [[] for _ in range(CHUNKS)]
n = 0


def put(s):
  global n
  out[n % CHUNKS].append(s)
  n += 1


for root, paths in ((M, READ), (P3, P3_READ), (S, S_READ), (V, V_READ)):
  for i, p in enumerate(paths):
    # The input type is spelled out or, where the result type does not depend on it, left to deduction.
    deduced = i % 3 == 0 and (not P.parse(p).is_single_value or 'count(' in p)
    acc = P.parse(p, input_type='auto' if deduced else root).accessor(GEN)
    put(f'R({root}, {q(p)}, "", {q(acc.default_name)}, ({acc.lambda_str}))')
for p in TEXT:
  put(f'R({M}, {q(p)}, "text", {q(P.parse(p).default_name)}, ({P.parse(p, input_type=M).accessor(GEN, cpp_type="::arolla::Text").lambda_str}))')
for p, t in CASTS:
  put(f'R({M}, {q(p)}, {q(t)}, {q(P.parse(p).default_name)}, ({P.parse(p, input_type=M).accessor(GEN, cpp_type=t).lambda_str}))')
for p, t, d in DEFAULTS:
  acc = P.parse(p, input_type=M).scalar_accessor_with_default_value(cpp_type=t, default_value_cpp=d)
  put(f'D({M}, {q(p)}, {q(t)}, {q(acc.default_name)}, ({acc.lambda_str}))')
for p in WILD:
  acc = P.parse_wildcard(p, input_type=M).accessor(GEN)
  put(f'W({M}, {q(p)}, {q(acc.default_name)}, ({acc.lambda_str}))')
for root, paths in ((M, MUT), (P3, P3_MUT), (S, S_MUT), (V, V_MUT)):
  for p in paths:
    acc = P.parse(p).mutable_accessor(array_gen=GEN)
    put(f'U({root}, {q(p)}, "", ({acc.lambda_str}))')
for p, t in (('i', 'int64_t'), ('sub/i', 'double'), ('subs[:]/i', 'int64_t')):
  put(f'U({M}, {q(p)}, {q(t)}, ({P.parse(p).mutable_accessor(array_gen=GEN, cpp_type=t).lambda_str}))')

files = {}
for c in range(CHUNKS):
  files[f'acc_{c}.cc'] = '#include "io_acc.h"\nnamespace {\nusing namespace vpc;\nconst bool reg = [] {\n' + ';\n'.join(out[c]) + ';\nreturn true;\n}();\n}\n'


# ------------------------------------------------- input loaders and slot listeners
# name -> (root, shard count, [(name, path, cpp type, default)])
FLAT = ['i', 'l', 'u', 'ul', 'f', 'd', 'b', 's', 'raw', 'e', 'CamelCase', 'extern', 'with_default', 'Ext::vp.xa', 'mi["k"]', 'ms["k"]', 'ri[1]', 'sub/i']
LOADERS = {
    'Flat': (M, 0, ['i', 's', 'sub/i', 'sub/s', 'count(ri[:])', 'sub/count(subs[:])']),
    'Multi': (M, 0, ['subs[:]/i', 'subs[:]/s', 'subs[:]/ri[:]', 'count(subs[:])', 'subs[:]/count(ri[:])']),
    'Nested': (M, 0, ['subs[:]/subs[:]/i', 'subs[:]/subs[:]/count(ri[:])', 'subs[:]/count(subs[:])', 'subs[:]/sub/i', 'subs[:]/sub/sub/i']),
    'Maps': (M, 0, ['mm[:]/@value/i', 'mm[:]/@key', 'mm["k"]/i', 'mi["k"]', 'mi[:]/@value', 'mm[:]/@value/ri[:]']),
    'MapsBelow': (M, 0, ['sub/mm[:]/@value/i', 'sub/mm[:]/@key', 'sub/mm["k"]/i', 'sub/count(mm[:])', 'subs[:]/mi["k"]', 'subs[:]/mi[:]/@value']),
    'Ext': (M, 0, ['Ext::vp.xa', 'Ext::vp.xm/i', 'Ext::vp.xm/s', 'class/i', 'extern', 'Ext::vp.xm/Ext::vp.xa']),
    'ExtMulti': (M, 0, ['subs[:]/Ext::vp.xa', 'subs[:]/Ext::vp.xm/i', 'Ext::vp.xm/subs[:]/i', 'subs[:]/class/i', 'Ext::vp.xm/ri[:]']),
    'Big': (M, 0, FLAT),
    'BigMulti': (M, 0, ['subs[:]/' + p for p in FLAT if p != 'raw']),
    'WideBelow': (M, 0, ['subs[:]/subs[0]/' + p for p in ['i', 'l', 'u', 'ul', 'f', 'd', 'b', 's', 'sub/i', 'Ext::vp.xm/i', 'Ext::vp.xm/s', 'Ext::vp.xm/ri[:]', 'subs[:]/i']]),
    'WideSingle': (M, 0, ['sub/sub/' + p for p in FLAT if p not in ('raw', 'sub/i', 'ri[1]', 'extern', 'e', 'f')]),
    'BigSharded': (M, 3, FLAT),
    'Dup': (M, 0, [('a', 'i'), ('b', 'i'), ('c', 'sub/i'), ('d', 'sub/i'), ('e', 'subs[:]/i'), ('f', 'subs[:]/i'), ('g', 'ri[:]'), ('h', 'ri[:]')]),
    'Default': (M, 0, [('a', 'i', 'int32_t', '-5'), ('b', 'sub/i', 'int32_t', '-5'), ('c', 'sub/s'), ('d', 'sub/f', 'float', '2.5f'), ('e', 'sub/count(ri[:])')]),
    'Wild': (M, 0, ['mi[*]', 'mm[*]/i', 'i', 'subs[:]/i']),
    'OnlyWild': (M, 0, ['ms[*]']),
    'Shard2': (M, 2, ['i', 'sub/i', 'subs[:]/i', 'subs[:]/ri[:]', 'count(subs[:])', 'mi["k"]', 'ri[:]']),
    'Shard5': (M, 5, ['i', 'sub/i', 'subs[:]/i', 'mi[*]']),
    'Proto3': (P3, 0, ['v', 'ov', 's', 'sub/v', 'subs[:]/v', 'subs[:]/ov', 'sub/sub/ov']),
    'Struct': (S, 0, ['&::m/i', '&::m/sub/i', '&::m/subs[:]/i', '&::p/*/i', '&::p/*/subs[:]/i', '&::x']),
    'Vector': (V, 0, ['[:]/i', 'count([:])', '[:]/subs[:]/i', '[:]/count(subs[:])', '[:]/sub/i']),
    'Text': (M, 0, [('s', 's', 'text'), ('t', 'sub/s', 'text'), ('u', 'subs[:]/s', 'text'), ('v', 'rs[:]', 'text'), ('w', 'rs[:]')]),
    'Deep': (M, 0, ['sub/sub/subs[:]/i', 'sub/sub/i', 'sub/subs[:]/sub/ri[:]', 'sub/subs[:]/sub/i', 'sub/subs[:]/i']),
    'Index': (M, 0, ['subs[1]/i', 'subs[1]/subs[:]/i', 'subs[:]/i', 'subs[0]/s', 'subs[1]/ri[0]']),
    'Plain': (M, 0, [('plain', None), 'i', 'subs[:]/i', 'sub/i']),
    'Empty': (M, 0, []),
    'Repeated': (M, 0, ['ri[:]', 'rs[:]', 're[:]', 'rd[:]', 'private[:]', 'count(ri[:])']),
    'ThreeLoops': (M, 0, ['subs[:]/subs[:]/subs[:]/i', 'subs[:]/subs[:]/ri[:]', 'subs[:]/subs[:]/count(subs[:])', 'subs[:]/subs[:]/sub/i']),
}
LISTENERS = {
    'Flat': (M, 0, ['i', 's', 'sub/i', 'sub/s', 'sub/sub/i', 'class/i']),
    'Sizes': (M, 0, ['count(subs[:])', 'subs[:]/i', 'subs[:]/s', 'subs[:]/sub/i']),
    'NestedSizes': (M, 0, ['count(subs[:])', 'subs[:]/count(subs[:])', 'subs[:]/subs[:]/i', 'i']),
    'SubSizes': (M, 0, ['sub/count(subs[:])', 'sub/subs[:]/i', 'sub/i']),
    'Ext': (M, 0, ['Ext::vp.xa', 'Ext::vp.xm/i', 'Ext::vp.xm/s', 'mi["k"]', 'mm["k"]/i', 'mm["k"]/s']),
    'Index': (M, 0, ['subs[1]/i', 'subs[0]/i', 'subs[1]/sub/i', 'ri[1]', 'subs[:]/s']),
    'Big': (M, 0, FLAT),
    'BigMulti': (M, 0, ['subs[:]/' + p for p in FLAT if p not in ('raw',)]),
    'BigSharded': (M, 3, FLAT),
    'Shard2': (M, 2, ['i', 'sub/i', 'subs[:]/i', 'count(subs[:])', 'mi["k"]']),
    'Dup': (M, 0, [('a', 'i'), ('b', 'l'), ('c', 'subs[:]/i'), ('d', 'subs[:]/l')]),
    'Proto3': (P3, 0, ['v', 'ov', 's', 'sub/v', 'subs[:]/v', 'count(subs[:])']),
    'Struct': (S, 0, ['&::m/i', '&::m/sub/i', '&::p/*/i', '&::x', '&::m/subs[:]/i']),
    'Vector': (V, 0, ['[:]/i', '[:]/sub/i', '[:]/subs[:]/i']),
    'Maps': (M, 0, ['mm[:]/@value/i', 'mi["k"]', 'mm[:]/@value/sub/i']),
    'MapKey': (M, 0, ['mm["k"]/s', 'mm["k"]/sub/i', 'mi["k"]']),
    'Casts': (M, 0, [('a', 'i', 'int64_t'), ('b', 'sub/i', 'double'), ('c', 'subs[:]/i', 'int64_t')]),
    'Empty': (M, 0, []),
}
CPP = {'text': '::arolla::Text'}


def norm(spec):
  """[(name, path, cpp type, default)]"""
  res = []
  for a in spec:
    if isinstance(a, str):
      a = (P.parse_wildcard(a).default_name if '*]' in a else '', a)
    res.append(tuple(a) + ('',) * (4 - len(a)))
  return res


def write_set(specs, mutable, prefix, ns):
  out_specs = {}
  regs = []
  for name, (root, shards, spec) in specs.items():
    accs = []
    for aname, path, cpp, dflt in norm(spec):
      cpp_type = CPP.get(cpp, cpp) or None
      if path is None:
        acc = accessors.path_accessor('.i() + 1', aname)
        path = ''
      elif mutable:
        acc = P.parse(path).mutable_accessor(array_gen=GEN, cpp_type=cpp_type)
      elif dflt:
        acc = P.parse(path, input_type=root).scalar_accessor_with_default_value(cpp_type=cpp_type, default_value_cpp=dflt)
      elif '*]' in path:
        acc = P.parse_wildcard(path, input_type=root).accessor(GEN, cpp_type=cpp_type)
      else:
        acc = P.parse(path, input_type=root).accessor(GEN, cpp_type=cpp_type)
      accs.append((aname, acc))
      regs.append(f'  {prefix}A("{name}", {q(aname or acc.default_name)}, {q(path)}, {q(cpp)}, {"true" if dflt else "false"});')
    regs.append(f'  {prefix}("{name}", ::vp_{ns}::Get{name}());')
    full = f'::vp_{ns}::Get{name}'
    out_specs[full] = {'output_cls' if mutable else 'input_cls': root, 'accessors': accs, 'sharding': {'shard_count': shards}, 'hdrs': ['io_check.h']}
  chunks = max(6, 1)
  order = sorted(out_specs)
  # One generated set holds several loaders; the sets are separate files to spread the compilation.
  for c in range(chunks):
    names = order[c::chunks]
    sub = {n_: out_specs[n_] for n_ in names}
    target = f'//vp:{ns}_{c}'
    flags.FLAGS.build_target = target
    gen = (slot_listener_main if mutable else input_loader_lib).AccessorGenerator(target, sub)
    files[f'{ns}_{c}.h'] = gen.header_content()
    shards = max(gen.max_shard_count(), 1)
    assert shards <= 5
    for k in range(5):
      text = ''
      if k < shards:
        text = gen.cpp_content(k) if mutable else gen.cpp_loader_content(k)
      files[f'{ns}_{c}_{k}.cc'] = '// ' + ' '.join(names) + '\n' + text
  files[f'{ns}_reg.cc'] = ''.join(f'#include "io/{ns}_{c}.h"\n' for c in range(chunks)) + '#include "io_check.h"\nnamespace {\nusing namespace vpc;\nconst bool reg = [] {\n' + '\n'.join(regs) + '\nreturn true;\n}();\n}\n'


write_set(LOADERS, False, 'L', 'loaders')
write_set(LISTENERS, True, 'N', 'listeners')

os.makedirs(OUT, exist_ok=True)
for name, text in files.items():
  p = f'{OUT}/{name}'
  if not os.path.exists(p) or open(p).read() != text:
    open(p, 'w').write(text)
print(n, 'accessors')
