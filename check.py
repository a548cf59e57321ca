#!/opt/arolla-venv/bin/python
"""Runs the check of one property.

  check.py PROPERTY [--thorough] [--replay FILE] [--only HARNESS]

Exit 0: held on everything explored. Exit 1: a line
"VIOLATION property=<id> replay=<path>" on stdout.
"""
import argparse
import array
import concurrent.futures
import json
import os
import re
import resource
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get('VERIF_BUILD', f'{VERIF}/build')
sys.path.insert(0, f'{VERIF}/tools')
sys.dont_write_bytecode = True
import props  # noqa: E402
import targets  # noqa: E402
import vbuild  # noqa: E402

NPROC = os.cpu_count() or 8
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0:hard_rss_limit_mb=3000',
           LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
HANG_S = 120


def known_findings(prop):
  out = []
  path = f'{VERIF}/known_findings.txt'
  if os.path.exists(path):
    for line in open(path, encoding='utf8'):
      m = re.match(r'property=(\S+) key=(\S+) (.*)', line.strip())
      if m and m.group(1) == prop:
        out.append((m.group(2), m.group(3)))
  return out


class Job:
  """One shard of one harness."""

  def __init__(self, unit, harness, shard, nshards, depth, opts):
    self.unit, self.harness, self.shard, self.nshards, self.depth = unit, harness, shard, nshards, depth
    self.opts = opts

  def cmd(self):
    if self.unit['kind'] == 'py':
      return ['/opt/arolla-venv/bin/python', f"{VERIF}/harness/{self.unit['script']}"]
    return [f"{B}/bin/{self.unit['bin']}"]

  def env(self):
    e = dict(ENV)
    e.update(self.unit.get('env', {}))
    return e


def read_choices(path):
  try:
    with open(path, 'rb') as f:
      data = f.read()
  except OSError:
    return None
  a = array.array('i')
  a.frombytes(data[8:])
  depth = a[0]
  return ','.join(map(str, a[2:2 + max(0, min(depth, 4096))]))


def heartbeat(path):
  try:
    with open(path, 'rb') as f:
      return f.read(8)
  except OSError:
    return None


def asan(cmd):
  """Whether the command is a binary with a shadow map (which has a limit of its own)."""
  name = os.path.basename(cmd[0])
  return any(t['name'] == name and t.get('cfg', 'asan').startswith('asan') for t in targets.TARGETS)


def limit_memory():
  resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_once(cmd, env, limit, shared=None, hang=None):
  """Returns (rc or 'timeout', output)."""
  with open(f'{RUN}/log-{os.getpid()}-{time.monotonic_ns()}', 'w+b') as log:
    p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=RUN, preexec_fn=None if asan(cmd) else limit_memory)
    t0 = time.time()
    last, last_t = None, t0
    rc = None
    while True:
      try:
        rc = p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
        break
      except subprocess.TimeoutExpired:
        pass
      now = time.time()
      if shared:
        hb = heartbeat(shared)
        if hb != last:
          last, last_t = hb, now
      if now - t0 > limit or (shared and now - last_t > hang):
        p.kill()
        p.wait()
        rc = 'timeout'
        break
    log.seek(0)
    out = log.read().decode('utf8', 'replace')
    os.remove(log.name)
  return rc, out


def replay(job, choices, limit=300):
  cmd = job.cmd() + ['--harness', job.harness] + (['--thorough'] if job.opts.thorough else [])
  # A harness that compares executions with each other is replayed as a whole.
  cmd += ['--whole'] if job.harness in job.unit.get('whole', ()) else ['--replay', choices]
  return run_once(cmd, job.env(), limit)


def run_job(job):
  base = f"{RUN}/{job.unit['name']}-{job.harness}-{job.shard}"
  cmd = job.cmd() + ['--harness', job.harness, '--shard', str(job.shard), '--shards', str(job.nshards),
                     '--depth', str(job.depth), '--out', base + '.json', '--shared', base + '.sh',
                     '--budget', str(job.opts.budget)]
  if job.opts.thorough:
    cmd.append('--thorough')
  for k, _ in job.opts.known:
    cmd += ['--known', k]
  rc, out = run_once(cmd, job.env(), job.opts.budget + 2 * HANG_S, base + '.sh', HANG_S)
  if rc == 0 and os.path.exists(base + '.json'):
    with open(base + '.json', encoding='utf8') as f:
      r = json.load(f)
    st = array.array('Q')
    if os.path.exists(base + '.json.st'):
      with open(base + '.json.st', 'rb') as f:
        st.frombytes(f.read())
    r['state_hashes'] = st
    return job, r, None
  ch = read_choices(base + '.sh')
  return job, None, dict(rc=rc, out=out, choices=ch)


def violation_text(prop, job, choices, msg, out):
  return json.dumps(dict(property=prop, unit=job.unit['name'], harness=job.harness, choices=choices,
                         thorough=job.opts.thorough, message=msg, log=out[-6000:]), indent=1)


def main():
  global RUN
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--thorough', action='store_true')
  ap.add_argument('--replay')
  ap.add_argument('--only')
  ap.add_argument('--budget', type=float, default=None)
  opts = ap.parse_args()
  prop = opts.prop
  opts.thorough = opts.thorough or os.environ.get('VERIF_TIER') == 'thorough'
  if opts.budget is None:
    opts.budget = 5400.0 if opts.thorough else 400.0
  opts.known = known_findings(prop)
  spec = props.PROPS[prop]
  t0 = time.time()
  evidence = os.environ.get('VERIF_EVIDENCE', f'{VERIF}/evidence')
  os.makedirs(evidence, exist_ok=True)
  replays = f'{evidence}/replay'
  os.makedirs(replays, exist_ok=True)
  RUN = f'{B}/run/{prop}-{os.getpid()}'
  os.makedirs(RUN, exist_ok=True)
  try:
    return run(prop, spec, opts, t0, evidence, replays)
  finally:
    import shutil
    shutil.rmtree(RUN, ignore_errors=True)


def run(prop, spec, opts, t0, evidence, replays):
  bins = sorted({u['bin'] for u in spec['units'] if 'bin' in u})
  if any(u['kind'] == 'py' for u in spec['units']):
    bins.append('pyprotos')
  ok, out = vbuild.build(bins)
  build_s = time.time() - t0
  if not ok:
    print(out[-8000:])
    if spec.get('compile_decides') and ('error: ' in out or 'Traceback' in out):
      # The harness uses only what the property promises: that it compiles is part of it.
      ok2, out = vbuild.build(bins)
      # So is that the generators (run by harness/gen_*.py) accept what the harness asks for.
      frames = re.findall(r'^ +File "(\S+)", line', out, re.M) if 'Traceback' in out else []
      raised = bool(frames) and '/build/src/arolla/' in frames[-1]
      if not ok2 and (raised or re.search(r'harness/\S+:\d+:\d+: error|required from|gen/\S+:\d+:\d+: error', out)):
        path = f'{replays}/{prop}-build.json'
        with open(path, 'w', encoding='utf8') as f:
          json.dump(dict(property=prop, unit='build', harness='build', choices='', thorough=opts.thorough, message='does not compile', log=out[-6000:]), f)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('build failed', file=sys.stderr)
    return 2

  if opts.replay:
    with open(opts.replay, encoding='utf8') as f:
      r = json.load(f)
    opts.thorough = r['thorough']
    unit = next(u for u in spec['units'] if u['name'] == r['unit'])
    rc, out = replay(Job(unit, r['harness'], 0, 1, 0, opts), r['choices'])
    print(out)
    return 0 if rc == 0 else 1

  jobs = []
  for u in spec['units']:
    cmd = Job(u, None, 0, 1, 0, opts).cmd() + ['--list']
    names = subprocess.run(cmd, env=Job(u, None, 0, 1, 0, opts).env(), stdout=subprocess.PIPE, text=True).stdout.split()
    sel = u.get('harnesses')
    if sel is not None:
      missing = [n for n in sel if n not in names]
      if missing:
        print('missing harnesses', missing, file=sys.stderr)
        return 2
      names = sel
    if not names:
      print('no harness in', u['name'], file=sys.stderr)
      return 2
    for n in names:
      if opts.only and n != opts.only:
        continue
      d, s = u.get('sharding', {}).get(n, (2, 1) if n in u.get('whole', ()) else u.get('shard', (2, NPROC)))
      for i in range(s):
        jobs.append(Job(u, n, i, s, d, opts))
  # Interleave shards so that long harnesses start early.
  results, violations, errors = {}, [], []
  stop = False
  with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
    futs = [ex.submit(run_job, j) for j in jobs]
    for f in concurrent.futures.as_completed(futs):
      if f.cancelled():
        continue
      job, r, err = f.result()
      key = (job.unit['name'], job.harness)
      if err is not None:
        ch = err['choices']
        if err['rc'] == 2 and 'mc: nondeterministic' not in err['out']:
          errors.append((key, err['out'][-3000:]))
        elif ch is None:
          violations.append((job, '', None, f"abnormal end ({err['rc']}) before the first execution", err['out']))
        else:
          violations.append((job, ch, None, f"abnormal end ({err['rc']})", err['out']))
      else:
        m = results.setdefault(key, dict(executions=0, steps=0, points=0, capped=False, wall=0.0, outcomes={}, samples=[],
                                         states=set(), extra={}))
        for k in ('executions', 'steps', 'points'):
          m[k] += r[k]
        for k, v in r.get('extra', {}).items():
          m['extra'][k] = m['extra'].get(k, 0) + v
        m['capped'] |= r['capped']
        m['wall'] += r['wall']
        for k, v in r['outcomes'].items():
          m['outcomes'][k] = m['outcomes'].get(k, 0) + v
        if len(m['samples']) < 3:
          m['samples'] += r['samples'][:2]
        m['states'].update(r['state_hashes'])
        for v in r['violations']:
          violations.append((job, v['choices'], v['key'], v['msg'], v.get('trace', '')))
      unknown = [v for v in violations if v[2] not in [k for k, _ in opts.known]]
      if unknown and not stop:
        stop = True
        for g in futs:
          g.cancel()
  # Replay before reporting.
  known_hit, reported = set(), []
  seen_msgs = set()
  for job, ch, key, msg, detail in violations:
    if key and key in [k for k, _ in opts.known]:
      known_hit.add(key)
      continue
    if len(reported) >= 5:
      break
    rc, out = replay(job, ch)
    rc2, out2 = replay(job, ch)
    if rc == 0 or rc2 == 0:
      # Not reproducible from the choices alone: an error of the machinery.
      errors.append(((job.unit['name'], job.harness), f'not reproducible: {str(ch)[:300]}: {msg}: {detail[-2000:]}\n{out[-2000:]}'))
      continue
    if rc == 'timeout':
      msg += ' (hangs: no progress within the replay limit)'
    sig = (job.harness, re.sub(r'\d+', '', msg)[:80])
    if sig in seen_msgs and len(reported) >= 1:
      continue
    seen_msgs.add(sig)
    path = f'{replays}/{prop}-{len(reported)}.json'
    with open(path, 'w', encoding='utf8') as f:
      f.write(violation_text(prop, job, ch, msg, out))
    reported.append((path, job, msg, out))
  wall = time.time() - t0
  total = dict(states=0, transitions=0, traces=0, points=0)
  per, samples, capped = {}, [], False
  for (u, h), m in sorted(results.items()):
    total['states'] += len(m['states'])
    total['transitions'] += m['steps']
    total['traces'] += m['executions']
    total['points'] += m['points']
    capped |= m['capped']
    per[f'{u}.{h}'] = dict(executions=m['executions'], states=len(m['states']), transitions=m['steps'], choice_points=m['points'],
                           distinct_outcomes=len(m['outcomes']), cpu_s=round(m['wall'], 2), capped=m['capped'], **m['extra'])
    few = sorted(m['outcomes'].items(), key=lambda kv: -kv[1])[:6]
    if few:
      per[f'{u}.{h}']['outcomes'] = dict(few)
    samples += [f'{u}.{h}: {s}' for s in m['samples'][:2] if s]
  ev = dict(
      property=prop, tier='thorough' if opts.thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
      level=spec.get('level', 'model_checking'),
      coverage=dict(states=total['states'], transitions=total['transitions'], traces_validated_against_impl=total['traces'],
                    samples=samples[:24] or ['(none)'], exhaustive=not capped and not stop and not errors,
                    bounds=spec['bounds'], harnesses=per, build_s=round(build_s, 2),
                    explanation='Every trace is an execution of the compiled /repo sources compared step by step with the reference '
                                'model; states are distinct canonical states/inputs hashed by the harness, transitions are compared calls.'),
      assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(reported))
  tmp = f'{evidence}/{prop}.json.tmp'
  with open(tmp, 'w', encoding='utf8') as f:
    json.dump(ev, f, indent=1)
  os.replace(tmp, f'{evidence}/{prop}.json')
  for k, text in opts.known:
    if k in known_hit:
      print(f'KNOWN-FINDING: property={prop} {text}')
  for path, job, msg, out in reported:
    print(f"{job.unit['name']}.{job.harness}: {msg}")
    print('\n'.join(l for l in out.strip().split('\n')[-40:]))
    print(f'VIOLATION property={prop} replay={path}')
  print(f"{prop}: executions={total['traces']} states={total['states']} transitions={total['transitions']} "
        f"capped={capped} wall={wall:.1f}s (build {build_s:.1f}s)")
  if reported:
    return 1
  if errors:
    for k, t in errors[:5]:
      print('ERROR', k, t, file=sys.stderr)
    return 2
  if total['traces'] == 0:
    print('nothing explored', file=sys.stderr)
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
