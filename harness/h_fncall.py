"""Build-time Python function calls: specification -> shell -> evaluation.

The .bzl macros are executed as Python (Starlark is a subset) with stand-ins for
Starlark's built-ins; the command they produce is expanded the way Bazel does
and run by a real bash.
"""
import atexit
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

import pymc
from pymc import abandon, check, choose, eq, flag, harness, pick, rng, say, state, step, tier

from arolla.codegen import render_jinja2_template as rjt
from arolla.codegen import utils

PKG = 'arolla/codegen'


class struct(types.SimpleNamespace):
  pass


class depset:

  def __init__(self, items=(), **_):
    self.items = list(dict.fromkeys(items.items if isinstance(items, depset) else items))

  def to_list(self):
    return self.items


class Anything:

  def __call__(self, *a, **k):
    return Anything()

  def __getattr__(self, n):
    return Anything()


def bzl_fail(msg, *_):
  raise RuntimeError(msg)


def to_json(x):
  return json.dumps(x, default=lambda s: vars(s), ensure_ascii=False, separators=(',', ':'))


rules = {}
pybins = {}


def genrule(name, **kw):
  if name in rules:
    raise RuntimeError(f'duplicate rule {name}')
  rules[name] = kw


def py_binary(name, **kw):
  if name in pybins:
    raise RuntimeError(f'duplicate py_binary {name}')
  pybins[name] = kw


def load_bzl(path):
  g = {}
  known = {'structs': types.SimpleNamespace(to_dict=lambda s: dict(vars(s))), 'py_binary': py_binary}

  def load(label, *names, **aliases):
    for a, n in [(n, n) for n in names] + list(aliases.items()):
      g[a] = known.get(n, Anything())

  g.update(load=load, struct=struct, depset=depset, fail=bzl_fail, Label=str,
           json=types.SimpleNamespace(encode=to_json), native=types.SimpleNamespace(genrule=genrule))
  with open(f'{pymc.REPO}/{path}', encoding='utf8') as f:
    exec(compile(f.read(), path, 'exec'), g)
  return g


BZL = load_bzl(f'{PKG}/utils.bzl')
FN = 'verif_fns'


def make_fn_module():
  m = types.ModuleType(FN)
  m.log = []

  def pair(*args, **kwargs):
    m.log.append((args, kwargs))
    return ['pair', list(args), dict(sorted(kwargs.items()))]

  def const(*args):
    m.log.append((args, {}))
    return 7

  def ident(x):
    m.log.append(((x,), {}))
    return x

  m.pair, m.const, m.ident, m.not_callable = pair, const, ident, 5
  sys.modules[FN] = m
  return m


MOD = make_fn_module()


# ---- evaluation of specifications


def gen_value(depth, budget):
  """A value (built from choices) with function-call requests inside."""
  k = choose(5 if depth and budget[0] > 0 else 1)
  if k == 0:
    budget[1] += 1
    return ['leaf', 3, None, ''][budget[1] % 4]
  budget[0] -= 1
  if k == 2:
    return [gen_value(depth - 1, budget) for _ in range(choose(3))]
  if k == 1:
    return []
  if k == 3:
    keys = ['k', 'fn'][:choose(3)]
    return {x: gen_value(depth - 1, budget) for x in keys}
  r = {'__call_python_func__': 1, 'fn': FN + '.' + pick(['pair', 'const'])}
  n = choose(3)
  if n or flag():
    r['args'] = [gen_value(depth - 1, budget) for _ in range(n)]
  if r['fn'].endswith('pair') and flag():
    r['kwargs'] = {'b': gen_value(depth - 1, budget)}
  return r


def model_eval(x, log):
  if isinstance(x, dict):
    if '__call_python_func__' in x:
      args = tuple(model_eval(a, log) for a in x.get('args', []))
      kwargs = {k: model_eval(v, log) for k, v in x.get('kwargs', {}).items()}
      log.append((args, kwargs))
      return 7 if x['fn'].endswith('const') else ['pair', list(args), dict(sorted(kwargs.items()))]
    return {k: model_eval(v, log) for k, v in x.items()}
  if isinstance(x, list):
    return [model_eval(v, log) for v in x]
  return x


@harness
def evaluation():
  """Every request in a nested context is evaluated once, innermost first."""
  x = gen_value(3, [tier(3, 4), 0])
  if pymc.thorough() and flag():
    x = [x, {'__call_python_func__': 1, 'fn': FN + '.ident', 'args': [{'in': x}]}]
  say(json.dumps(x))
  before = json.dumps(x)
  log = []
  if isinstance(x, list) and len(x) == 2 and isinstance(x[1], dict) and str(x[1].get('fn', '')).endswith('.ident'):
    first = model_eval(x[0], log)
    second = {'in': model_eval(x[0], log)}
    log.append(((second,), {}))
    want = [first, second]
  else:
    want = model_eval(x, log)
  MOD.log.clear()
  got = utils.process_call_function_requests(x)
  step(len(log) + 1)
  eq(got, want, 'evaluated context')
  eq(json.dumps(x), before, 'the specification was modified')
  eq(MOD.log, log, 'calls made')
  if isinstance(x, dict) and '__call_python_func__' in x:
    check(utils.is_function_call(x), 'request not recognized')
    MOD.log.clear()
    eq(utils.call_function(x), want, 'call_function')
    eq(MOD.log, log, 'calls made by call_function')
    MOD.log.clear()
    eq(utils.call_function_from_json(before), want, 'call_function_from_json')
    eq(MOD.log, log, 'calls made from JSON')
  else:
    check(not utils.is_function_call(x), f'{x} recognized as a request')
  state(before)


@harness
def load_function():
  mod = pick(['verif_fns', 'verif_missing', 'os.path', 'verif_fns.sub'])
  fn = pick(['pair', 'not_callable', 'nope', 'join'])
  say(f'{mod}.{fn}')
  exists = {'verif_fns': {'pair': MOD.pair, 'not_callable': 5}, 'os.path': {'join': os.path.join}}
  try:
    got = utils.load_function(f'{mod}.{fn}')
    check(mod in exists and callable(exists[mod].get(fn)), 'loaded something that is not a function')
    check(got is exists[mod][fn], 'loaded another function')
  except ImportError:
    check(mod not in exists, 'ImportError for an existing module')
  except AttributeError:
    check(mod in exists and fn not in exists[mod], 'AttributeError for an existing function')
  except TypeError:
    check(mod in exists and fn in exists[mod] and not callable(exists[mod][fn]), 'TypeError for a function')
  state((mod, fn))


@harness
def merge_dicts():
  n = choose(tier(4, 5))
  ds = []
  for i in range(n):
    ds.append({k: (i, k) for k in ('a', 'b', 'c') if flag()})
  copies = [dict(d) for d in ds]
  say(f'{ds}')
  got = utils.merge_dicts(*ds)
  want = {}
  for d in ds:
    for k in d:
      want[k] = d[k]
  eq(got, want, 'merged')
  eq(ds, copies, 'arguments')
  check(not any(got is d for d in ds), 'result aliases an argument')
  state(ds)


@harness
def files():
  k = choose(tier(3, 4))
  text = ''.join(pick(['a', '\n', '\r', '\r\n', '\x00', 'é', '🙂', '\x1a']) for _ in range(k))
  as_bytes = flag()
  pre = flag()
  say(f'write {text!r} as {"bytes" if as_bytes else "text"}')
  d = scratch()
  p = f'{d}/f'
  if pre:
    with open(p, 'wb') as f:
      f.write(b'longer previous content')
  elif os.path.exists(p):
    os.remove(p)
  utils.write_file(p, text.encode('utf8') if as_bytes else text)
  with open(p, 'rb') as f:
    eq(f.read(), text.encode('utf8'), 'written bytes')
  eq(utils.read_file(p), text.encode('utf8'), 'read_file')
  state(text)


_scratch = []


def scratch():
  if not _scratch:
    d = tempfile.mkdtemp(prefix='verif_fncall')
    _scratch.append(d)
    atexit.register(shutil.rmtree, d, True)
  return _scratch[0]


# ---- the way through Bazel and bash


def bazel_expand(cmd, execpath):
  """Expansion of $(location), make variables and $$ in a genrule command."""
  cmd = re.sub(r'\$\((?:execpath|location|rootpath) ([^)]*)\)', lambda m: execpath(m.group(1)), cmd)
  out, i = [], 0
  while i < len(cmd):
    if cmd[i] != '$':
      out.append(cmd[i])
      i += 1
    elif cmd.startswith('$$', i):
      out.append('$')
      i += 2
    elif cmd.startswith('$@', i) or cmd.startswith('$<', i):
      out.append('OUT' if cmd[i + 1] == '@' else 'IN')
      i += 2
    else:
      raise pymc.Violation(f'undefined make variable at {cmd[i:i + 20]!r}')
  return ''.join(out)


class Bash:
  """A bash process that evaluates one word at a time."""

  def __init__(self):
    env = {'PATH': os.environ['PATH'], 'LC_ALL': 'C.UTF-8', 'a': 'EXPANDED', 'b': 'EXPANDED', 'HOME': 'EXPANDED'}
    self.p = subprocess.Popen(['bash', '--norc', '--noprofile', '-s'], cwd=scratch(), stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

  def words(self, text):
    """The words the shell makes of `text`."""
    f = f'{scratch()}/cmd'
    with open(f, 'w', encoding='utf8', newline='') as h:
      h.write('printf "%s\\0" ' + text + '\n')
    self.p.stdin.write(f'( . {f} ); printf "\\1\\0"\n'.encode())
    self.p.stdin.flush()
    buf = b''
    while not buf.endswith(b'\x01\x00'):
      b = os.read(self.p.stdout.fileno(), 65536)
      if not b:
        raise pymc.Violation(f'the shell ended at {text!r}')
      buf += b
    return [w.decode('utf8') for w in buf[:-2].split(b'\0')[:-1]]


_bash = []


def bash():
  if not _bash or _bash[0].p.poll() is not None:
    _bash[:] = [Bash()]
  return _bash[0]


CHARS = ['a', '$', '\\', '"', '`', "'", ' ', '\n', '!', '*', '{b}', '(', ')', '#', ';', '&', '|', '<', '>', '~', '%', '@', '1', '\t', '[', '?', '=', '🙂']
MAKE = re.compile(r'\$\$?\((location|execpath|rootpath)|\$@|\$<')


def bazel_tokenize(s):
  """Words of one element of a Bazel `args` list (Bourne tokenization)."""
  out, cur, q, i = [], None, None, 0
  while i < len(s):
    c = s[i]
    i += 1
    if q == "'":
      if c == "'":
        q = None
      else:
        cur += c
    elif q == '"':
      if c == '"':
        q = None
      elif c == '\\' and i < len(s):
        cur += s[i] if s[i] in '\\"' else '\\' + s[i]
        i += 1
      else:
        cur += c
    elif c in '"\'':
      q, cur = c, cur or ''
    elif c == '\\' and i < len(s):
      cur = (cur or '') + s[i]
      i += 1
    elif c in ' \t\n':
      if cur is not None:
        out.append(cur)
      cur = None
    else:
      cur = (cur or '') + c
  check(q is None, 'unterminated quotation')
  return out + ([cur] if cur is not None else [])


@harness
def argument_strings():
  """A string argument arrives at the function unchanged."""
  k = rng(1, tier(2, 3))
  s = ''.join(pick(CHARS) for _ in range(k)) + pick(['', 'a', '(a)'])
  if MAKE.search(s):
    abandon()
  obj = BZL['call_python_function'](f'{FN}.ident', [s], [])
  w = bash().words('"' + bazel_expand(BZL['encode_call_python_function'](obj), None) + '"')
  say(f'{s!r} -> {w}')
  step()
  eq(len(w), 1, 'words')
  eq(utils.call_function_from_json(w[0]), s, 'argument seen by the function')
  state(s)


@harness
def escaping():
  """A quoted escaped string is one word with the original content."""
  k = rng(1, tier(2, 3))
  s = ''.join(pick(CHARS) for _ in range(k)) + pick(['', 'a', '(a)'])
  for fn in ['bash_escape'] + ([] if MAKE.search(s) else ['bash_escape_wo_make_vars']):
    if fn not in BZL:
      continue
    esc = BZL[fn](s)
    say(f'{s!r} escaped by {fn} as {esc!r}')
    step()
    q = '"' + bazel_expand(esc, None) + '"'
    if '$' not in s:
      eq(bash().words(q), [s], f'words delivered for {s!r}')
    if '`' not in s:
      eq(bazel_tokenize(q), [s], f'argument delivered for {s!r}')
  state(s)


@harness
def make_variables():
  """Make variables stay make variables inside an escaped string."""
  var = pick(['$(location x)', '$(execpath x)', '$(rootpath x)', '$@', '$<'])
  pre = ''.join(pick(['', 'a', '"', '\\', '$ ', '$', '$a']) for _ in range(tier(1, 2)))
  post = pick(['', 'b', '"', '\\', '$', '$a', var])
  s = pre + var + post
  if '$' + var in s:
    abandon()
  val = {'$@': 'OUT', '$<': 'IN'}.get(var, 'PATH')
  esc = BZL['bash_escape_wo_make_vars'](s)
  say(f'{s!r} escaped as {esc!r}')
  q = '"' + bazel_expand(esc, lambda l: 'PATH') + '"'
  eq(bazel_tokenize(q), [s.replace(var, val)], f'argument delivered for {s!r}')
  obj = BZL['call_python_function'](f'{FN}.ident', [s], [])
  w = bash().words('"' + bazel_expand(BZL['encode_call_python_function'](obj), lambda l: 'PATH') + '"')
  eq(len(w), 1, 'words')
  eq(utils.call_function_from_json(w[0]), s.replace(var, val), 'argument seen by the function')
  state(s)


LEAF = ['x', '$a', 'q"\\`', '\n\'$(a)', 'Мир📍', 3, True, None, 1.5, '']


def gen_spec(depth, budget):
  """(bzl object, its meaning after evaluation, deps, data)."""
  k = choose(5 if depth and budget[0] > 0 else 1)
  if k == 0:
    budget[1] += 1
    v = LEAF[budget[1] % len(LEAF)]
    return v, v, set(), set()
  budget[0] -= 1
  if k == 1:
    parts = [gen_spec(depth - 1, budget) for _ in range(choose(3))]
    return [p[0] for p in parts], [p[1] for p in parts], set().union(*[p[2] for p in parts]), set().union(*[p[3] for p in parts])
  if k in (2, 3):
    v = gen_spec(depth - 1, budget)
    return ({'key': v[0]} if k == 2 else struct(key=v[0])), {'key': v[1]}, v[2], v[3]
  parts = [gen_spec(depth - 1, budget) for _ in range(choose(3))]
  kw = {'kw': gen_spec(depth - 1, budget)} if flag() else {}
  budget[1] += 1
  dep, dat = [([], []), (['//d:1'], ['//f:1']), (['//d:2', '//d:1'], [])][budget[1] % 3]
  obj = BZL['call_python_function'](f'{FN}.pair', [p[0] for p in parts], dep, data=dat, **({'kwargs': {k: v[0] for k, v in kw.items()}} if kw else {}))
  val = ['pair', [p[1] for p in parts], {k: v[1] for k, v in kw.items()}]
  allp = parts + list(kw.values())
  return obj, val, set(dep).union(*[p[2] for p in allp]), set(dat).union(*[p[3] for p in allp])


@harness
def specification():
  """The encoded call evaluates to the specified value; dependencies propagate."""
  budget = [tier(2, 3), tier(4, 3) * choose(tier(3, 4))]
  parts = [gen_spec(3, budget) for i in range(rng(1, 2))]
  kw = {'z': gen_spec(1, budget)} if flag() else {}
  obj = BZL['call_python_function'](f'{FN}.pair', [p[0] for p in parts], ['//d:0'], **({'kwargs': {k: v[0] for k, v in kw.items()}} if kw else {}))
  allp = parts + list(kw.values())
  check(BZL['is_python_function_call'](obj), 'not recognized as a call')
  eq(obj.deps, sorted({'//d:0'}.union(*[p[2] for p in allp])), 'propagated deps')
  eq(obj.data, sorted(set().union(*[p[3] for p in allp])), 'propagated data')
  enc = BZL['encode_call_python_function'](obj)
  words = bash().words('"' + bazel_expand(enc, None) + '"')
  step()
  eq(len(words), 1, 'words')
  say(words[0])
  got = utils.call_function_from_json(words[0])
  eq(got, ['pair', [p[1] for p in parts], {k: v[1] for k, v in kw.items()}], 'evaluated call')
  state(words[0])


@harness
def merged_dicts_rule():
  n = rng(1, 3)
  ds, vals = [], []
  for i in range(n):
    v = pick([{}, {'a': i}, {'b': f'$a{i}', 'a': 'z'}])
    vals.append(v)
    ds.append(BZL['call_python_function'](f'{FN}.ident', [v], [f'//d:{i}'], data=[f'//f:{i}']))
  obj = BZL['merge_dicts'](*ds)
  eq(set(obj.deps) >= {f'//d:{i}' for i in range(n)}, True, 'deps')
  eq(obj.data, [f'//f:{i}' for i in range(n)], 'data')
  got = utils.call_function_from_json(bash().words('"' + bazel_expand(BZL['encode_call_python_function'](obj), None) + '"')[0])
  want = {}
  for v in vals:
    want.update(v)
  eq(got, want, 'merged')
  state(vals)


# ---- the complete rule


def run_rule(name, paths):
  """Runs the command of a rule in the scratch directory."""
  kw = rules[name]

  def execpath(label):
    label = label.strip()
    if label in paths:
      return paths[label]
    tool = label.lstrip(':')
    if tool in pybins or tool == '//arolla/codegen:eval_python_function_call':
      if tool in pybins:
        src = pybins[tool]['srcs'][0]
        r = [r for r in rules.values() if r.get('outs') == [src]]
        eq(len(r), 1, 'rules that produce the generated tool')
        check(label in [str(t) for t in kw['tools']] or tool in kw['tools'], f'{label} is not among the tools')
      return f'{sys.executable} {pymc.REPO}/{PKG}/eval_python_function_call.py'
    raise pymc.Violation(f'unknown label {label}')

  cmd = bazel_expand(kw['cmd'], execpath)
  env = {'PATH': os.environ['PATH'], 'PYTHONPATH': f'{pymc.REPO}:{pymc.BUILD}/gen/py:{scratch()}', 'a': 'EXPANDED', 'PYTHONDONTWRITEBYTECODE': '1'}
  return subprocess.run(['bash', '-c', cmd], cwd=scratch(), env=env, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)


DUMP = 'verif_dump'
DUMP_SRC = '''
import json, os
def dump(path, *args, **kwargs):
  with open(path, 'w') as f:
    json.dump([list(args), kwargs, {k: os.environ.get(k) for k in ('VA', 'VB', 'LC_ALL')}], f)
'''
ENVV = ['x', 'two words', '$a', '"q"', 'a\\b', '*', "it's", ';', '']


@harness
def rule():
  """A genrule calls the function with the given arguments and environment."""
  arg = pick(tier(['plain', '$a "\\`', "new\nline 'q' 📍", {'k': ['$a', 1]}], LEAF + [{'k': ['$a', 1]}, ['`'], '*', '-x', '--y=1', '=']))
  env = pick([{}] + [{'VA': v} for v in ENVV] + [{'VA': '1', 'VB': 'b c', 'LC_ALL': 'C'}])
  dep = pick([[], ['//verif:dep']])
  if env and arg != 'plain' and not pymc.thorough():
    abandon()
  rules.clear()
  pybins.clear()
  d = scratch()
  with open(f'{d}/{DUMP}.py', 'w') as f:
    f.write(DUMP_SRC)
  out = f'{d}/out.json'
  if os.path.exists(out):
    os.remove(out)
  fn = BZL['call_python_function'](f'{DUMP}.dump', ['$(execpath out.json)', arg], dep, data=['//verif:data'])
  BZL['python_function_call_genrule'](name='r', function=fn, outs=['out.json'], **({'env': env} if env else {}))
  kw = rules['r']
  eq(list(kw['outs']), ['out.json'], 'outs')
  check('//verif:data' in kw['tools'], f'data missing from the tools {kw["tools"]}')
  say(f'arg {arg!r} env {env} deps {dep}')
  r = run_rule('r', {'out.json': 'out.json'})
  step()
  check(r.returncode == 0, f'the command failed: {r.stderr.decode()[-400:]}')
  with open(out) as f:
    got = json.load(f)
  want_env = {'VA': None, 'VB': None, 'LC_ALL': 'C.UTF-8'} | env
  eq(got, [[arg], {}, want_env], 'arguments and environment seen by the function')
  if dep:
    check(any(set(['//verif:dep']) <= set(b['deps'].to_list() if isinstance(b['deps'], depset) else b['deps']) for b in pybins.values()),
          'no generated tool depends on the function\'s dependencies')
  state((str(arg), str(env), dep))


TEMPL = ['{{ s }}', '{{ s|cescape }}', '{% for x in l %}<{{ x }}>{% endfor %}', 'const {{ "a-b c"|as_c_identifier }};', '{{ "x/y.h"|basename }}',
         '{% for x in l %}{% if x == 2 %}{% break %}{% endif %}{{ x }}{% endfor %}', '{{ missing }}', 'no variables\n\n  z']


@harness
def templates():
  """Rendering a template with a context that may hold function calls."""
  t = pick(TEMPL)
  via_call = flag()
  s = pick(['plain', '', '"\n\\', '📍'])
  l = [1, 2, 3][:choose(4)]
  call = lambda v: {'__call_python_func__': 1, 'fn': f'{FN}.ident', 'args': [v]}
  ctx = {'s': call(s), 'l': call(l)} if via_call else {'s': s, 'l': l}
  say(f'{t!r} with s={s!r} l={l}')
  old = os.getcwd()
  os.chdir(scratch())
  try:
    with open('t.jinja2', 'w', encoding='utf8') as f:
      f.write(t)
    try:
      rjt.render_jinja2_template('t.jinja2', ctx, 'out.txt')
    except Exception as e:
      check('missing' in t, f'rendering failed: {e!r}')
      return
    check('missing' not in t, 'undefined variable accepted')
    with open('out.txt', encoding='utf8', newline='') as f:
      got = f.read()
  finally:
    os.chdir(old)
  esc = ''.join(f'\\x{b:02x}' for b in s.encode('utf8'))
  want = [s, esc, ''.join(f'<{x}>' for x in l), 'const a_b_c;', 'y.h', ''.join(str(x) for x in l if x < 2), None, 'no variables\n\n  z'][TEMPL.index(t)]
  eq(got, want, 'rendered text')
  state((t, s, l, via_call))


if __name__ == '__main__':
  sys.exit(pymc.main())
