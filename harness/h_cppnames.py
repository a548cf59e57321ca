"""C++ names, includes and text helpers used by code generation."""
import os
import re
import sys

import pymc
from pymc import abandon, check, choose, eq, flag, harness, pick, rng, say, state, step, tier

from arolla.codegen import utils
from arolla.codegen import render_jinja2_template as rjt
from arolla.codegen.io import cpp
from arolla.codegen.io import jinja_util

PRINTABLE = [chr(c) for c in range(32, 127)]
IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')


def include_norm(h):
  if len(h) >= 1 and h[0] == h[-1] == '"' or h[:1] == '<' and h[-1:] == '>':
    return h
  return f'"{h}"'


@harness
def includes():
  hs = []
  for _ in range(2):
    body = ''.join(pick(['a', 'b/', '.h', '_']) for _ in range(rng(1, 2)))
    hs.append(pick(['%s', '<%s>', '"%s"', '<%s', '%s>', '"%s', '%s"']) % body)
  a, b = (cpp.Include(h) for h in hs)
  say(f'includes {hs}')
  na, nb = (include_norm(h) for h in hs)
  eq(a.include_str, '#include ' + na, 'include_str')
  eq(str(a), a.include_str, 'str')
  eq(a == b, na == nb, 'equality')
  eq(a != b, na != nb, 'inequality')
  eq(a < b, na < nb, 'order')
  if na == nb:
    eq(hash(a), hash(b), 'hash of equal includes')
  eq(len({a, b}), len({na, nb}), 'size of a set')
  eq([x.include_str for x in sorted({a, b})], sorted({'#include ' + na, '#include ' + nb}), 'sorted set')
  check(not a == 'x' and a != 1, 'include equals another type')
  state((na, nb))


PARTS = ['a', 'bc', 'D_1']


@harness
def names():
  n = choose(tier(4, 5))
  ns = [pick(PARTS) for _ in range(n)]
  name = pick(['x', 'Get_1', ''])
  lead = flag()
  say(f'namespace {ns} name {name!r} leading {lead}')
  joined = '::'.join(ns)
  objs = [cpp.CppName(('::' if lead and ns else '') + joined, name)]
  if name:
    objs.append(cpp.CppName.from_full_name(('::' if lead else '') + '::'.join(ns + [name])))
  for o in objs:
    step()
    eq(o.namespace, joined, 'namespace')
    eq(o.name, name, 'name')
    eq(o.full_name, (f'::{joined}::' if ns else '') + name, 'full name')
    eq(o.open_namespace_str, f'namespace {joined} {{' if ns else '', 'open namespace')
    close = o.close_namespace_str
    eq(close.split('//')[0].strip(), '}' if ns else '', 'close namespace')
    if name:
      again = cpp.CppName.from_full_name(o.full_name)
      eq((again.namespace, again.name, again.full_name), (o.namespace, o.name, o.full_name), 'reparsed full name')
  for bad in (':', '::', 'a::b', ':a', 'a:'):
    try:
      cpp.CppName(joined, bad)
      raise pymc.Violation(f'name {bad!r} accepted')
    except ValueError:
      pass
  state((ns, name))


@harness
def header_guards():
  n = rng(0, 3)
  segs = [pick(['a', 'Bc', 'd1', 'x_y']) for _ in range(n)]
  target = pick(['t', 'Target_2'])
  label = '//' + '/'.join(segs) + ':' + target
  say(label)
  g = cpp.generate_header_guard(label)
  eq(g, '_'.join(segs + [target]).upper() + '_H_' if segs else '_' + target.upper() + '_H_', 'header guard')
  check(IDENT.fullmatch(g), f'{g} is not an identifier')
  state(g)


seen = {}


def record(key, val):
  old = seen.setdefault(val, key)
  check(old == key, lambda: f'{old} and {key} both map to {val!r}')


LOADERS = [cpp.CppName('', 'L'), cpp.CppName('', 'L_'), cpp.CppName('a', 'L'), cpp.CppName('a::b', 'L'), cpp.CppName('a_b', 'L'), cpp.CppName('a', 'b')]


def check_operator_name(loader, acc):
  s = cpp.construct_operator_name(loader, acc)
  step()
  check(IDENT.fullmatch(s), f'operator name {s!r} for {loader.full_name} {acc!r} is not an identifier')
  record((loader.full_name, acc), s)
  return s


@harness
def operator_names_all_chars():
  """All accessor names of up to two printable characters, for every loader."""
  k = rng(0, 2)
  loader = pick(LOADERS)
  name = ''.join(pick(PRINTABLE) for _ in range(k))
  say(f'{loader.full_name} {name!r}')
  state(check_operator_name(loader, name))


@harness
def operator_names_long():
  """Longer names over the characters that play a role in the encoding."""
  k = rng(3, tier(6, 7))
  name = ''.join(pick(['_', '0', 'p', ':', '/']) for _ in range(k))
  loader = LOADERS[2]
  say(f'{loader.full_name} {name!r}')
  state(check_operator_name(loader, name))


@harness
def input_qtype_operator_name():
  loader = pick(LOADERS)
  s = cpp.construct_input_qtype_operator_name(loader)
  check(IDENT.fullmatch(s), f'{s!r} is not an identifier')
  record((loader.full_name, 'input qtype'), s)
  for l in LOADERS:
    for a in ['', 'QTYPE', '__GetInputQType', '/QTYPE::__GetInputQType', 'x']:
      check(cpp.construct_operator_name(l, a) != s, f'accessor {a!r} collides with the input type operator')
  state(s)


TEXT = ['\n', 'a', ' ', 'b;', '  c']


@harness
def wrap_with_lambda():
  text = ''.join(pick(TEXT) for _ in range(rng(0, tier(5, 7))))
  wrap = flag()
  say(f'{text!r} wrap={wrap}')
  got = jinja_util.maybe_wrap_with_lambda(text, wrap)
  body = re.sub(r'^\n+', '', text)
  if not wrap:
    eq(got, body, 'unwrapped text')
  else:
    lines = got.split('\n')
    eq(lines[0], '[&]() {', 'first line')
    eq(lines[-1], '}();', 'last line')
    eq(lines[1:-1], [('  ' + l if l else '') for l in body.split('\n')], 'wrapped lines')
  state((text, wrap))


@harness
def common_prefix():
  n = rng(0, tier(3, 4))
  strs = [''.join(pick('ab') for _ in range(rng(0, tier(3, 2)))) for _ in range(n)]
  say(f'{strs}')
  for arg in (list(strs), tuple(strs), iter(strs)):
    got = utils.remove_common_prefix_with_previous_string(arg)
    step()
    want = strs[:1]
    for p, s in zip(strs, strs[1:]):
      k = 0
      while k < len(p) and k < len(s) and p[k] == s[k]:
        k += 1
      want.append(s[k:])
    eq(list(got), want, 'suffixes')
  state(strs)


@harness
def c_escape():
  """Escaped text decodes to the UTF-8 bytes of the original."""
  k = rng(1, 3)
  chars = ['a', 'F', '0', '"', '\\', '\n', '\x00', '\x7f', '\x80', 'é', '€', '🙂', '?']
  s = ''.join(pick(chars) for _ in range(k))
  for x in (s, s.encode('utf8')):
    e = rjt._cescape(x)
    step()
    check(re.fullmatch(r'(\\x[0-9a-fA-F]{2})*', e), f'{e!r}: not a sequence of two-digit escapes')
    eq(bytes(int(h, 16) for h in e.split('\\x')[1:]), s.encode('utf8'), f'decoded escape of {s!r}')
  state(s)


@harness
def c_escape_all_bytes():
  b = bytes([choose(256)])
  e = rjt._cescape(b)
  eq(e, '\\x%02x' % b[0], 'escape of a byte')
  state(b)


@harness
def c_identifier():
  s = ''.join(pick(['a', 'Z', '7', '_', '-', ' ', '.']) for _ in range(rng(0, tier(5, 6))))
  words = [w for w in re.split(r'[^A-Za-z0-9]+', s) if w]
  want = '_'.join(words)
  try:
    got = rjt._as_c_identifier(s)
  except ValueError:
    check(not want or want[0].isdigit(), f'{s!r} rejected')
    return
  check(IDENT.fullmatch(got), f'{s!r} -> {got!r}: not an identifier')
  eq(got, want, f'identifier for {s!r}')
  state(s)


if __name__ == '__main__':
  sys.exit(pymc.main())
