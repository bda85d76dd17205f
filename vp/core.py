"""Harness core: Hypothesis-driven search sharded over worker processes.

A property module (vp/props/<id>.py) exports
  STRATA : list of Stratum -- one generator + one executable oracle each
  RULE   : text, how cases are made and what makes one non-trivial
  WARM   : optional callable, imports done once before the workers fork
Cases are plain JSON values, so a failing case is its own replay file.
"""
import argparse
import contextlib
import hashlib
import importlib
import importlib.machinery
import importlib.util
import io
import json
import multiprocessing as mp
import os
import queue as queue_mod
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks run on /repo; the tools try planted bugs on a scratch copy
REPO = os.environ.get('VP_DEV_REPO', '/repo')
OUT = os.environ.get('VP_DEV_OUT', VERIF)
HYP_DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WORKERS = int(os.environ.get('VP_WORKERS', '8'))
HANG_S = 330.0      # a single case takes seconds; one that takes this long hangs


# ---------------------------------------------------------------- hypothesis
class _HypFinder:
  """Makes `hypothesis` importable from the tooling venv and nothing else."""

  NAMES = ('hypothesis', '_hypothesis', 'sortedcontainers')

  @classmethod
  def find_spec(cls, name, path=None, target=None):
    top = name.split('.')[0]
    if top.startswith(cls.NAMES) and path is None:
      return importlib.machinery.PathFinder.find_spec(name, [HYP_DIR])
    return None


if not any(f is _HypFinder for f in sys.meta_path):
  sys.meta_path.append(_HypFinder)
if REPO not in sys.path:
  sys.path.insert(1, REPO)


# ---------------------------------------------------------------- vocabulary
class Violation(AssertionError):
  """The property does not hold on this case."""


class HarnessError(Exception):
  """The check itself is broken; never reported as a violation."""


class _Stop(BaseException):
  """Budget is over."""


def require(cond, msg, *args):
  if not cond:
    raise Violation(msg % args if args else msg)


class Stratum:

  def __init__(self, name, strategy, check, quick, thorough=None, shards=8,
               nontrivial=None):
    self.name = name
    self.strategy = strategy      # callable -> hypothesis strategy
    self.check = check            # case -> label str | (label, nontrivial)
    self.quick = quick
    self.thorough = thorough if thorough is not None else quick * 10
    self.shards = shards


def rng_of(*parts):
  """A numpy Generator that is a pure function of its arguments."""
  import numpy as np
  h = hashlib.sha256(json.dumps(parts).encode()).digest()
  return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def int_hash(*parts):
  h = hashlib.sha256(json.dumps(parts).encode()).digest()
  return int.from_bytes(h[:4], 'little')


# ---------------------------------------------------------------- one case
def blame(exc):
  """'repo' if any frame of the traceback is repository code, else 'verif'.

  A reference model of ours that raises while the repository calls it counts
  as 'repo': it was handed an input no valid step produces.
  """
  tb = exc.__traceback__
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
      return 'repo'
    tb = tb.tb_next
  return 'verif'


def run_case(stratum, case):
  """Returns (kind, label, nontrivial, message); kind in ok|violation|error."""
  buf = io.StringIO()
  try:
    with contextlib.redirect_stdout(buf):
      out = stratum.check(case)
  except Violation as e:
    return 'violation', '', True, str(e)
  except _Stop:
    raise
  except (KeyboardInterrupt, MemoryError):
    raise
  except Exception as e:  # pylint: disable=broad-except
    text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if isinstance(e, HarnessError) or blame(e) != 'repo':
      return 'error', '', False, text
    return ('violation', '', True,
            'the code under test raised on a valid input: %s: %s\n%s' %
            (type(e).__name__, e, text[-3000:]))
  if isinstance(out, tuple):
    label, nontrivial = out
  else:
    label, nontrivial = out, True
  return 'ok', str(label), bool(nontrivial), ''


# ---------------------------------------------------------------- one shard
def run_shard(prop, stratum, shard, n, seed, t_end, shrink_s=45.0):
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings

  stats = dict(evaluations=0, labels={}, hashes=set(), samples=[], fail=None,
               error=None, budget_hit=False, planned=n, max_case_s=0.0)
  first_fail = [None]
  calls = [0]

  class _Fail(Exception):
    pass

  def body(case):
    now = time.time()
    calls[0] += 1
    if calls[0] == 1 and shard > 0:
      return       # Hypothesis starts with the simplest case: shard 0 has it
    if first_fail[0] is None and now > t_end:
      stats['budget_hit'] = True
      raise _Stop()
    if first_fail[0] is not None and now > first_fail[0] + shrink_s:
      raise _Stop()
    case = json.loads(json.dumps(case))
    _mark(dict(stratum=stratum.name, case=case, start=now,
               shrinking=first_fail[0] is not None))
    kind, label, nontrivial, msg = run_case(stratum, case)
    _mark(None)
    stats['max_case_s'] = max(stats['max_case_s'], time.time() - now)
    if first_fail[0] is None:
      stats['evaluations'] += 1
    if kind == 'error':
      stats['error'] = dict(case=case, stratum=stratum.name, message=msg)
      raise _Stop()
    if kind == 'violation':
      if first_fail[0] is None:
        first_fail[0] = time.time()
      size = len(json.dumps(case))
      if stats['fail'] is None or size <= stats['fail']['size']:
        stats['fail'] = dict(case=case, stratum=stratum.name, message=msg,
                             size=size)
      raise _Fail('violation')
    if first_fail[0] is None:
      stats['labels'][label] = stats['labels'].get(label, 0) + 1
      if nontrivial:
        stats['hashes'].add(
            hashlib.sha1(json.dumps([stratum.name, case], sort_keys=True)
                         .encode()).hexdigest())
        if len(stats['samples']) < 3:
          stats['samples'].append(dict(stratum=stratum.name, case=case,
                                       label=label))

  test = given(stratum.strategy())(body)
  test = settings(max_examples=n + (shard > 0), database=None, deadline=None,
                  suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False, print_blob=False)(test)
  test = hypothesis.seed(int_hash(prop, stratum.name, shard, seed))(test)
  try:
    with contextlib.redirect_stderr(io.StringIO()):
      test()
  except _Stop:
    pass
  except BaseException as e:  # pylint: disable=broad-except
    if stats['fail'] is None and stats['error'] is None:
      stats['error'] = dict(
          case=None, stratum=stratum.name,
          message=''.join(traceback.format_exception(type(e), e,
                                                     e.__traceback__)))
  return stats


def _mark(rec, pid=None):
  """Notes the case a worker is busy with, for the hang watch."""
  if 'VP_WORKER' not in os.environ:
    return
  path = os.path.join(os.environ['VP_SCRATCH'], 'busy-%d' % os.getpid())
  if rec is None:
    with contextlib.suppress(OSError):
      os.unlink(path)
    return
  with open(path + '.tmp', 'w') as f:
    json.dump(rec, f)
  os.replace(path + '.tmp', path)


def _hung(procs, scratch):
  """The case of a live worker that has not returned for HANG_S seconds."""
  for p in procs:
    path = os.path.join(scratch, 'busy-%d' % p.pid)
    try:
      with open(path) as f:
        rec = json.load(f)
    except (OSError, ValueError):
      continue
    if p.is_alive() and not rec['shrinking'] and \
        time.time() - rec['start'] > HANG_S:
      return rec
  return None


def _worker(prop, strata, tasks, results, seed, t_end):
  os.environ['VP_WORKER'] = '1'
  scratch = os.environ['VP_SCRATCH']
  os.chdir(scratch)
  logf = open(os.path.join(scratch, 'worker-%d.log' % os.getpid()), 'w')
  os.dup2(logf.fileno(), 1)
  os.dup2(logf.fileno(), 2)
  while True:
    try:
      task = tasks.get_nowait()
    except queue_mod.Empty:
      return
    si, shard, n = task
    t0 = time.time()
    try:
      st = run_shard(prop, strata[si], shard, n, seed, t_end)
    except BaseException as e:  # pylint: disable=broad-except
      st = dict(evaluations=0, labels={}, hashes=set(), samples=[], fail=None,
                error=dict(case=None, stratum=strata[si].name,
                           message=traceback.format_exc()),
                budget_hit=False, planned=n)
    st['task'] = (si, shard)
    st['seconds'] = time.time() - t0
    st['hashes'] = list(st['hashes'])
    results.put(st)


# ---------------------------------------------------------------- property run
def load_prop(pid):
  return importlib.import_module('vp.props.%s' % pid.lower())


def load_known():
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return json.load(f).get('findings', [])


def scratch_dir():
  base = os.environ.get('TMPDIR', '/tmp')
  return tempfile.mkdtemp(prefix='vp-', dir=base)


def main(argv):
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--replay')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1') or '1'))
  ap.add_argument('--stratum')
  ap.add_argument('--scale', type=float, default=1.0)
  args = ap.parse_args(argv)
  scratch = scratch_dir()
  os.environ['VP_SCRATCH'] = scratch
  try:
    return _main(args, scratch)
  finally:
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)


def _replay(mod, args):
  with open(args.replay) as f:
    rec = json.load(f)
  st = [s for s in mod.STRATA if s.name == rec['stratum']][0]

  def hang(*_):
    print('the case did not end within %d s' % HANG_S)
    print('VIOLATION property=%s replay=%s' % (args.property, args.replay),
          flush=True)
    os._exit(1)
  signal.signal(signal.SIGALRM, hang)
  signal.alarm(int(HANG_S))
  kind, label, _, msg = run_case(st, rec['case'])
  signal.alarm(0)
  print('replay %s [%s]: %s %s' % (args.property, st.name, kind, label or ''))
  if msg:
    print(msg)
  if kind == 'violation':
    print('VIOLATION property=%s replay=%s' % (args.property, args.replay))
    return 1
  return 0 if kind == 'ok' else 2


def _main(args, scratch):
  t0 = time.time()
  pid, tier = args.property, args.tier
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  mod = load_prop(pid)
  if args.replay:
    return _replay(mod, args)
  if hasattr(mod, 'WARM'):
    try:
      with contextlib.redirect_stdout(io.StringIO()):
        mod.WARM()
    except Exception:  # the cases meet the same failure and report it
      pass
  strata = mod.STRATA
  budget = (getattr(mod, 'QUICK_S', 240.0) if tier == 'quick'
            else getattr(mod, 'THOROUGH_S', 3000.0))
  t_end = t0 + budget

  tasks = []
  for si, s in enumerate(strata):
    if args.stratum and s.name != args.stratum:
      continue
    n = s.quick if tier == 'quick' else s.thorough
    n = max(1, int(round(n * args.scale)))
    shards = min(s.shards, n)
    if tier == 'thorough':
      shards = min(n, max(s.shards, WORKERS))
    for k in range(shards):
      per = n // shards + (1 if k < n % shards else 0)
      if per:
        tasks.append((si, k, per))
  ctx = mp.get_context('fork')
  tq, rq = ctx.Queue(), ctx.Queue()
  # interleave strata so that every stratum starts early
  tasks.sort(key=lambda t: (t[1], t[0]))
  for t in tasks:
    tq.put(t)
  time.sleep(0.05)
  procs = [ctx.Process(target=_worker,
                       args=(pid, strata, tq, rq, args.seed, t_end),
                       daemon=True)
           for _ in range(min(WORKERS, len(tasks)))]
  for p in procs:
    p.start()
  done, stats = set(), []
  dead_since = None
  fail_at = None
  hard_end = t_end + HANG_S + 30
  hung, next_look = None, 0.0
  while len(done) < len(tasks):
    try:
      st = rq.get(timeout=0.5)
      done.add(st['task'])
      stats.append(st)
      if (st['fail'] or st['error']) and fail_at is None:
        fail_at = time.time()
    except queue_mod.Empty:
      pass
    if fail_at is not None and any(s['fail'] for s in stats):
      break
    if fail_at is not None and time.time() > fail_at + 30:
      break
    if not any(p.is_alive() for p in procs):
      if dead_since is None:
        dead_since = time.time()
      elif time.time() - dead_since > 2:
        break
    if time.time() > hard_end:
      break
    if time.time() > next_look:
      next_look = time.time() + 5
      hung = _hung(procs, scratch)
      if hung:
        break
  for p in procs:
    if p.is_alive():
      p.kill()
  for p in procs:
    p.join(5)

  fails = [s['fail'] for s in stats if s['fail']]
  if hung:
    fails.append(dict(case=hung['case'], stratum=hung['stratum'],
                      size=len(json.dumps(hung['case'])),
                      message='the case did not end within %d s' % HANG_S))
  errors = [s['error'] for s in stats if s['error']]
  missing = [t for t in tasks if (t[0], t[1]) not in done]
  findings = [k for k in load_known() if k.get('property') == pid]
  real, known_hits = [], []
  for f in fails:
    hit = None
    for k in findings:
      if hasattr(mod, 'KNOWN') and mod.KNOWN(k, f):
        hit = k
        break
    (known_hits if hit else real).append((f, hit))

  evidence = dict(
      property=pid, tier=tier, seed=args.seed,
      level=getattr(mod, 'LEVEL', 'exploration'),
      coverage=dict(
          evaluations=sum(s['evaluations'] for s in stats),
          distinct_nontrivial=len(set(h for s in stats for h in s['hashes'])),
          rule=mod.RULE,
          samples=_pick_samples(stats),
          strata={
              s.name: dict(
                  evaluations=sum(x['evaluations'] for x in stats
                                  if x['task'][0] == si),
                  labels=_merge([x['labels'] for x in stats
                                 if x['task'][0] == si]),
                  busy_s=round(sum(x['seconds'] for x in stats
                                   if x['task'][0] == si), 1),
                  max_case_s=round(max([x.get('max_case_s', 0.0) for x in stats
                                        if x['task'][0] == si] or [0.0]), 1),
                  budget_hit=any(x['budget_hit'] for x in stats
                                 if x['task'][0] == si))
              for si, s in enumerate(strata)},
      ),
      assumptions=getattr(mod, 'ASSUMPTIONS', []),
      wall_s=round(time.time() - t0, 2),
      violations=len(real),
  )
  os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
  with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1, sort_keys=True)

  print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s' %
        (pid, tier, args.seed, evidence['coverage']['evaluations'],
         evidence['coverage']['distinct_nontrivial'], evidence['wall_s']))
  for name, c in evidence['coverage']['strata'].items():
    print('  %-28s %6d cases %8.1f cpu-s %s' %
          (name, c['evaluations'], c['busy_s'],
           ' '.join('%s:%d' % kv for kv in sorted(c['labels'].items())[:14])))
  for k in findings:
    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  if real:
    f = min((x for x, _ in real), key=lambda x: x['size'])
    rdir = os.path.join(OUT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    name = '%s-%s.json' % (pid, hashlib.sha1(
        json.dumps(f['case'], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(rdir, name)
    with open(path, 'w') as fh:
      json.dump(dict(property=pid, stratum=f['stratum'], case=f['case'],
                     message=f['message']), fh, indent=1)
    print('stratum: %s' % f['stratum'])
    print('case: %s' % json.dumps(f['case'])[:1500])
    print('why: %s' % f['message'][:4000])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  if errors:
    for e in errors[:3]:
      print('HARNESS ERROR in %s\ncase: %s\n%s' %
            (e['stratum'], json.dumps(e['case'])[:1500], e['message'][-4000:]))
    return 2
  if missing:
    print('HARNESS ERROR: %d shards gave no result: %s' %
          (len(missing), missing[:5]))
    for fn in os.listdir(scratch):
      if fn.startswith('worker-'):
        txt = open(os.path.join(scratch, fn), errors='replace').read()[-1500:]
        if txt:
          print('--', fn, txt)
    return 2
  return 0


def _merge(dicts):
  out = {}
  for d in dicts:
    for k, v in d.items():
      out[k] = out.get(k, 0) + v
  return out


def _pick_samples(stats):
  by = {}
  for s in stats:
    for x in s['samples']:
      by.setdefault(x['stratum'], []).append(x)
  out = []
  for _, xs in sorted(by.items()):
    for x in xs[:2]:
      t = json.dumps(x)
      out.append(x if len(t) < 3000 else dict(stratum=x['stratum'],
                                              case=t[:3000] + '...'))
  return out
