"""Evaluates /repo's BUILD files (Starlark, executed as Python with stubs) to
collect the render_jinja2_template() calls that generate qexpr operator
registration sources. Bazel itself is not available offline."""
import os
import re
import types


class struct(types.SimpleNamespace):
  pass


class depset:

  def __init__(self, items=(), **_):
    self.items = list(dict.fromkeys(items.items if isinstance(items, depset) else items))

  def to_list(self):
    return list(self.items)


class Anything:

  def __call__(self, *a, **k):
    return Anything()

  def __getattr__(self, n):
    return Anything()

  def __add__(self, o):
    return o

  def __radd__(self, o):
    return o

  def __iter__(self):
    return iter(())


def _to_plain(x):
  if isinstance(x, struct):
    return {k: _to_plain(v) for k, v in vars(x).items()}
  if isinstance(x, dict):
    return {k: _to_plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [_to_plain(v) for v in x]
  return x


class Evaluator:

  def __init__(self, root):
    self.root = root
    self.cache = {}
    self.calls = []
    self.pkg = ''

  def _render(self, name, out, template, context=None, **_):
    self.calls.append(dict(pkg=self.pkg, name=name, out=out, template=template,
                           context=_to_plain(context)))

  def _load(self, g, label, names, aliases):
    pairs = [(n, n) for n in names] + list(aliases.items())
    if label.startswith('//arolla'):
      path, f = label[2:].split(':')
      mod = self._bzl(f'{path}/{f}')
    elif label.startswith(':'):
      mod = self._bzl(f'{self.pkg}/{label[1:]}')
    else:
      mod = None
    for alias, n in pairs:
      g[alias] = mod[n] if mod is not None and n in mod else Anything()

  def _bzl(self, path):
    if path not in self.cache:
      self.cache[path] = self._run(path)
      if path == 'arolla/codegen/utils.bzl':
        self.cache[path]['render_jinja2_template'] = self._render
    return self.cache[path]

  def _run(self, path):
    g = {}
    noop = lambda *a, **k: None
    g.update(
        load=lambda label, *names, **al: self._load(g, label, names, al),
        zip=lambda *a: list(zip(*a)), range=lambda *a: list(range(*a)),
        struct=struct, depset=depset, Label=str,
        fail=lambda *a: (_ for _ in ()).throw(RuntimeError(str(a))),
        select=lambda d: list(d.get('//conditions:default', [])),
        glob=lambda *a, **k: [], package=noop, licenses=noop, exports_files=noop,
        package_group=noop, test_suite=noop, genrule=noop, config_setting=noop,
        native=types.SimpleNamespace(package_name=lambda: self.pkg, genrule=noop),
        json=types.SimpleNamespace(encode=str))
    with open(os.path.join(self.root, path), encoding='utf8') as f:
      src = f.read()
    exec(compile(src, path, 'exec'), g)  # pylint: disable=exec-used
    return g

  def run_package(self, pkg):
    self.pkg = pkg
    p = f'{pkg}/BUILD'
    try:
      self._run(p)
    finally:
      self.pkg = ''


def collect(root, pkgs):
  ev = Evaluator(root)
  for p in pkgs:
    ev.run_package(p)
  return ev.calls


if __name__ == '__main__':
  import sys, collections
  root = sys.argv[1]
  pk = sorted({os.path.relpath(d, root) for d, _, fs in os.walk(root + '/arolla') if 'BUILD' in fs and
        re.search(r'operator_libraries|operator_family', open(d + '/BUILD').read())} - {'arolla/codegen/qexpr'})
  cnt = collections.Counter()
  for c in collect(root, pk):
    cx = c['context']
    if 'overloads' in cx and 'is_individual_operator' in cx and not cx['is_individual_operator']:
      cnt[(c['pkg'], c['name'].rsplit('_', 3)[-3:-1][-1] if 0 else re.sub(r'.*_(plain|on_\w+)_cc$', r'\1', c['name']))] += len(cx['overloads'])
    elif 'op_family_class' in cx and 'registration' in c['template']:
      cnt[(c['pkg'], 'family')] += 1
  for k, v in sorted(cnt.items()): print(v, k)
