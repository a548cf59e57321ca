#!/opt/arolla-venv/bin/python
"""Builds verification targets from /repo's working tree.

  vbuild.py TARGET...      (targets are listed in targets.py)

/repo is mirrored by content into build/src (a file is rewritten only when its
content changed, so modification times in the mirror are meaningful), qexpr
operator registrations and protobuf code are generated from the mirror, and
ninja does the rest. Nothing is written under /repo.
"""
import fcntl
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', f'{VERIF}/build')
SRC = f'{B}/src'
GEN = f'{B}/gen'
sys.path.insert(0, f'{VERIF}/tools')

MIRROR_EXT = ('.snapshot', '.cc', '.h', '.proto', '.jinja2', '.py', '.bzl', '.bin')


def write_if_changed(path, data):
  if isinstance(data, str):
    data = data.encode()
  try:
    with open(path, 'rb') as f:
      if f.read() == data:
        return False
  except OSError:
    os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'wb') as f:
    f.write(data)
  return True


# Comments never change what the code does: the mirror drops them (keeping line
# numbers), so that an edit of a comment rebuilds nothing.
_TOKEN = re.compile(
    r"""//(?:[^\\\n]|\\(?:\n|.))*|/\*.*?\*/|R"([^()\\\s]{0,16})\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])+'""",
    re.S)


def strip_comments(text):
  def sub(m):
    t = m.group(0)
    if t.startswith('//') or t.startswith('/*'):
      return ' ' + '\n' * t.count('\n')
    return t
  # C++14 digit separators (1'000) look like character literals: hide them.
  text = re.sub(r"(?<=[0-9a-fA-F])'(?=[0-9a-fA-F])", '\x01', text)
  text = _TOKEN.sub(sub, text).replace('\x01', "'")
  return '\n'.join(l.rstrip() for l in text.split('\n')).rstrip('\n') + '\n'


def mirror():
  seen = set()
  import hashlib
  import json
  state_file = f'{B}/mirror.json'
  try:
    with open(state_file) as f:
      state = json.load(f)
  except (OSError, ValueError):
    state = {}
  new_state = {}
  for root, dirs, files in os.walk(f'{REPO}/arolla'):
    dirs[:] = [d for d in dirs if d != '__pycache__']
    for fn in files:
      if fn.endswith(MIRROR_EXT) or fn == 'BUILD':
        p = f'{root}/{fn}'
        rel = os.path.relpath(p, REPO)
        seen.add(rel)
        with open(p, 'rb') as f:
          data = f.read()
        h = hashlib.sha1(data).hexdigest()
        new_state[rel] = h
        if state.get(rel) != h or not os.path.exists(f'{SRC}/{rel}'):
          if fn.endswith(('.cc', '.h')):
            data = strip_comments(data.decode('utf8', 'surrogateescape')).encode('utf8', 'surrogateescape')
          write_if_changed(f'{SRC}/{rel}', data)
  os.makedirs(B, exist_ok=True)
  with open(state_file, 'w') as f:
    json.dump(new_state, f)
  for root, _, files in os.walk(f'{SRC}/arolla'):
    for fn in files:
      rel = os.path.relpath(f'{root}/{fn}', SRC)
      if rel not in seen and not fn.endswith('.pyc'):
        os.remove(f'{SRC}/{rel}')


# Not built: third-party code that is not installed (see DESIGN.md).
EXCLUDE = {
    'arolla/serialization/riegeli.cc', 'arolla/io/proto/testing/benchmark_util.cc',
    'arolla/codegen/expr/scalar_types_test_gen.cc',
}
EXCLUDE_DIRS = (
    'arolla/codegen/io/testing', 'arolla/codegen/dict', 'arolla/serialization/demo',
    'arolla/examples', 'arolla/naming/testing', 'arolla/util/testing', 'arolla/expr/testing',
)
EXCLUDE_RE = re.compile(r'(_test|_benchmark|benchmarks?|_test_gen|_testing_main|_main)\.cc$')


def core_sources():
  out = []
  for root, _, files in os.walk(f'{SRC}/arolla'):
    rel = os.path.relpath(root, SRC)
    if rel.startswith(EXCLUDE_DIRS):
      continue
    for fn in files:
      p = f'{rel}/{fn}'
      if fn.endswith('.cc') and not EXCLUDE_RE.search(fn) and p not in EXCLUDE:
        out.append(p)
  return sorted(out)


BASE_DIRS = tuple(f'arolla/{d}/' for d in (
    'util', 'memory', 'qtype', 'dense_array', 'array', 'jagged_shape', 'sequence', 'naming', 'algorithm'))


def protos():
  out = []
  for root, _, files in os.walk(f'{SRC}/arolla'):
    out += [os.path.relpath(f'{root}/{f}', SRC) for f in files if f.endswith('.proto')]
  return sorted(out)


def gen_ops():
  """Operator registration sources; returns {group: [cc paths]}."""
  import op_select
  import starlark_ops
  import jinja2
  pkgs = []
  for root, _, files in os.walk(f'{SRC}/arolla'):
    if 'BUILD' in files:
      with open(f'{root}/BUILD', encoding='utf8') as f:
        if re.search(r'operator_libraries|operator_family', f.read()):
          pkgs.append(os.path.relpath(root, SRC))
  groups = {}
  env = jinja2.Environment(loader=jinja2.FileSystemLoader(f'{SRC}/arolla/codegen/qexpr'),
                           undefined=jinja2.StrictUndefined,
                           extensions=['jinja2.ext.loopcontrols'])
  keep = set()
  for c in starlark_ops.collect(SRC, sorted(pkgs)):
    for group, name, context in op_select.select(c):
      t = env.get_template(os.path.basename(c['template'].split(':')[-1]))
      rel = f"ops/{c['pkg']}/{name}.cc"
      keep.add(rel)
      write_if_changed(f'{GEN}/{rel}', t.render(context))
      groups.setdefault(group, []).append(rel)
  for root, _, files in os.walk(f'{GEN}/ops'):
    for fn in files:
      rel = os.path.relpath(f'{root}/{fn}', GEN)
      if rel not in keep:
        os.remove(f'{GEN}/{rel}')
  return groups


CXX = 'g++'
STD = '-std=gnu++20 -w -fPIC -DAROLLA_SHARED_COMPILATION -DAROLLA_IMPLEMENTATION'
INC = f'-I{VERIF}/compat -I{B}/compat -I{GEN}/proto -I{GEN}/hproto -I{GEN} -I{SRC} -I{VERIF}/harness'
CONFIGS = {
    # Functional configuration: DCHECKs on, address sanitizer on.
    'asan': '-O1 -g0 -fsanitize=address -fno-omit-frame-pointer',
    # Generated operator registrations: as above, cheaper to compile.
    'asan0': '-O0 -g0 -fsanitize=address -fno-omit-frame-pointer',
    'plain': '-O1 -g0',
    # Every memory access, atomic and lock goes through the exploration runtime.
    'rt': '-O2 -g0 -fno-builtin -fno-tree-loop-distribute-patterns',
    'mc': '-O1 -g0 -fsanitize=thread -DVERIF_MC=1',
}
NOPCH = ('mc', 'rt')
ABSL = ('absl_status absl_statusor absl_strings absl_strings_internal absl_str_format_internal absl_cord absl_cordz_info '
        'absl_cordz_functions absl_cord_internal absl_cordz_handle absl_hash absl_city absl_low_level_hash '
        'absl_raw_hash_set absl_hashtablez_sampler absl_synchronization absl_time absl_time_zone absl_base '
        'absl_raw_logging_internal absl_throw_delegate absl_spinlock_wait absl_int128 absl_random_distributions '
        'absl_random_internal_randen absl_random_internal_randen_hwaes absl_random_internal_randen_hwaes_impl '
        'absl_random_internal_randen_slow absl_random_internal_platform absl_random_internal_pool_urbg '
        'absl_random_internal_seed_material absl_random_seed_gen_exception absl_random_seed_sequences '
        'absl_examine_stack absl_stacktrace absl_symbolize absl_malloc_internal absl_graphcycles_internal '
        'absl_bad_optional_access absl_bad_variant_access absl_exponential_biased absl_demangle_internal '
        'absl_flags_internal absl_flags_marshalling absl_flags_reflection absl_flags_config absl_flags_commandlineflag absl_flags_commandlineflag_internal absl_flags_program_name absl_flags_private_handle_accessor absl_debugging_internal absl_civil_time absl_strerror absl_log_severity').split()


def ninja_escape(s):
  return s.replace(' ', '$ ').replace(':', '$:')


def generate():
  import targets
  os.makedirs(B, exist_ok=True)
  mirror()
  subprocess.run([sys.executable, f'{VERIF}/tools/gen_compat.py', f'{B}/compat'], check=True)
  write_if_changed(f'{B}/compat/verif_paths.h', f'#define VERIF_SRC "{SRC}"\n')
  ops = gen_ops()
  core = core_sources()
  prot = protos()
  L = ['ninja_required_version = 1.10', f'builddir = {B}']
  for cfg, fl in CONFIGS.items():
    if cfg not in NOPCH:
      pch = f'{B}/pch-{cfg}/pch.h'
      write_if_changed(pch, open(f'{VERIF}/tools/pch.h').read())
      L += [f'rule pch_{cfg}', f'  command = {CXX} {STD} {fl} {INC} -x c++-header -MD -MF $out.d $in -o $out',
            '  depfile = $out.d', '  deps = gcc', '  description = PCH $out',
            f'build {pch}.gch: pch_{cfg} {pch} || protoheaders']
    first = f'-I{VERIF}/harness/mcrt' if cfg == 'mc' else ''
    L += [f'rule cxx_{cfg}', f'  command = {CXX} {f"-include {pch}" if cfg not in NOPCH else ""} {STD} {fl} {first} {INC} $extra -MD -MF $out.d -c $in -o $out',
          '  depfile = $out.d', '  deps = gcc', '  description = CXX $out']
    L += [f'rule so_{cfg}',
          f'  command = {CXX} {fl} -shared -fuse-ld=gold -Wl,-soname,$soname -o $out @$out.rsp -lprotobuf {" ".join("-l" + a for a in ABSL)} -licuuc -licui18n',
          '  rspfile = $out.rsp', '  rspfile_content = $in', '  description = SO $out']
    L += [f'rule link_{cfg}',
          f'  command = {CXX} {fl} -fuse-ld=gold -o $out @$out.rsp $libs -lprotobuf {" ".join("-l" + a for a in ABSL)} -licuuc -lpthread',
          '  rspfile = $out.rsp', '  rspfile_content = $in', '  description = LINK $out']
  L += ['rule link_mcrt',
        f'  command = {CXX} -fuse-ld=gold -o $out $in $libs {" ".join("-l" + a for a in ABSL)} -lpthread -ldl',
        '  description = LINK $out']
  L += ['rule protoc', f'  command = cd {SRC} && protoc -I. --cpp_out={GEN}/proto $rel', '  description = PROTOC $rel']
  pbh = []
  for p in prot:
    base = f'{GEN}/proto/{p[:-6]}.pb'
    L += [f'build {base}.cc {base}.h: protoc {SRC}/{p}', f'  rel = {p}']
    pbh.append(f'{base}.h')
  L += [f'build protoheaders: phony {" ".join(pbh)}']
  L += ['rule pyproto', f'  command = cd {SRC} && protoc -I. --python_out={GEN}/py $rel', '  description = PYPROTO $rel']
  pyp = []
  for p in prot:
    L += [f'build {GEN}/py/{p[:-6]}_pb2.py: pyproto {SRC}/{p}', f'  rel = {p}']
    pyp.append(f'{GEN}/py/{p[:-6]}_pb2.py')
  L += [f'build pyprotos: phony {" ".join(pyp)}']
  L += ['rule hproto', f'  command = cd {VERIF}/harness && protoc -I. -I{SRC} --cpp_out={GEN}/hproto --python_out={GEN}/py $rel', '  description = HPROTO $rel']
  hpbh = []
  for p in sorted(f for f in os.listdir(f'{VERIF}/harness') if f.endswith('.proto')):
    b = f'{GEN}/hproto/{p[:-6]}.pb'
    L += [f'build {b}.cc {b}.h {GEN}/py/{p[:-6]}_pb2.py: hproto {VERIF}/harness/{p}', f'  rel = {p}']
    hpbh.append(f'{b}.h')
  L += ['rule hgen', f'  command = VERIF_REPO={SRC} PYTHONPATH={GEN}/py {sys.executable} $in $dir', '  restat = 1', '  description = HGEN $in']
  for g in targets.GENS:
    deps = [f'{SRC}/{os.path.relpath(r, SRC)}/{f}' for d in g['deps'] for r, _, fs in sorted(os.walk(f'{SRC}/{d}')) for f in sorted(fs)
            if f.endswith(('.py', '.jinja2')) and not f.endswith('_test.py')]
    outs = [f"{GEN}/{g['dir']}/{o}" for o in g['outs']]
    L += [f"build {' '.join(outs)}: hgen {VERIF}/harness/{g['script']} | {' '.join(deps)} || {' '.join(hpbh + pyp)}", f"  dir = {GEN}/{g['dir']}"]
    hpbh += [o for o in outs if o.endswith('.h')]
  L += [f'build hprotos: phony {" ".join(hpbh + pyp)}']
  os.makedirs(f'{GEN}/py', exist_ok=True)
  os.makedirs(f'{GEN}/hproto', exist_ok=True)

  objs = {}

  def obj(src, cfg, extra='', order='|| protoheaders'):
    """src: absolute path."""
    key = (src, cfg, extra)
    if key in objs:
      return objs[key]
    rel = os.path.relpath(src, B) if src.startswith(B) else 'v/' + os.path.relpath(src, VERIF)
    o = f'{B}/obj-{cfg}/{rel}'
    if extra:
      import hashlib
      o += '.' + hashlib.md5(extra.encode()).hexdigest()[:6]
    o += '.o'
    pch = f'| {B}/pch-{cfg}/pch.h.gch ' if cfg not in NOPCH else ''
    L.append(f'build {o}: cxx_{cfg} {src} {pch}{order}')
    if extra:
      L.append(f'  extra = {extra}')
    objs[key] = o
    return o

  pbcc = [f'{GEN}/proto/{p[:-6]}.pb.cc' for p in prot]
  libs = {}

  def lib(name, cfg):
    if (name, cfg) in libs:
      return libs[name, cfg]
    ocfg = cfg
    if name == 'base':
      srcs = [f'{SRC}/{s}' for s in core if s.startswith(BASE_DIRS)]
    elif name == 'core':
      srcs = [f'{SRC}/{s}' for s in core if not s.startswith(BASE_DIRS)] + pbcc
    else:
      srcs = [f'{GEN}/{s}' for s in ops.get(name, [])]
      ocfg = 'asan0' if cfg == 'asan' else cfg
    out = f'{B}/lib/lib{name}-{cfg}.so'
    L.append(f'build {out}: so_{cfg} {" ".join(obj(s, ocfg) for s in srcs)}')
    L.append(f'  soname = lib{name}-{cfg}.so')
    libs[name, cfg] = out
    return out

  for t in targets.TARGETS:
    cfg = t.get('cfg', 'asan')
    out = f"{B}/bin/{t['name']}"
    extra = t.get('extra', '')
    os_ = [obj(f'{VERIF}/harness/{s}', cfg, extra) for s in t.get('srcs', [])]
    os_ += [obj(f'{SRC}/{s}', cfg, extra) for s in t.get('repo_srcs', [])]
    os_ += [obj(f'{GEN}/{s}', cfg, extra, '|| hprotos') for s in t.get('gen_srcs', [])]
    os_ += [obj(f'{VERIF}/harness/{s}', 'rt') for s in t.get('plain_srcs', [])]
    ls = [lib(n, cfg) for n in t.get('libs', [])]
    rule = 'link_mcrt' if cfg == 'mc' else f'link_{cfg}'
    L.append(f'build {out}: {rule} {" ".join(os_)} | {" ".join(ls)}')
    libflags = (f'-Wl,--no-as-needed ' if ls else '') + ' '.join(ls) + (f' -Wl,-rpath,{B}/lib' if ls else '')
    if t.get('libs') is None and cfg != 'mc':
      pass
    L.append(f'  libs = {libflags} {t.get("ldflags", "")}')
    L.append(f"build {t['name']}: phony {out}")
  write_if_changed(f'{B}/build.ninja', '\n'.join(L) + '\n')


def build(names, quiet=True):
  """Returns (ok, output)."""
  os.makedirs(B, exist_ok=True)
  with open(f'{B}/.lock', 'w') as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    generate()
    r = subprocess.run(['ninja', '-C', B, '-k', '0' if not quiet else '1', *names],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
  return r.returncode == 0, r.stdout


def main():
  names = sys.argv[1:]
  if names == ['--all']:
    import props
    names = sorted({u['bin'] for p in props.PROPS.values() for u in p['units'] if 'bin' in u}) + ['pyprotos', 'hprotos']
  ok, out = build(names, quiet=False)
  print(out[-6000:])
  sys.exit(not ok)


if __name__ == '__main__':
  main()
