"""C37: the launcher starts one job per combination of every sweep."""
import asyncio
import contextlib
import importlib
import itertools
import json
import os
import sys
import types

from vp import core, exper
from vp.props import c31, c33

DISCS = c33.DISCS
BERT = c33.BERT


def WARM():
  import ml_collections  # noqa: F401
  from discs.plot_results import plot_utils  # noqa: F401


# ------------------------------------------------- a recording XManager
class _Any:
  """Accepts whatever the launcher asks of a service it only passes on."""

  def __init__(self, *a, **k):
    self.a, self.k = a, k
    self.accelerator = None

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return _Any()

  def __call__(self, *a, **k):
    return _Any(*a, **k)

  def __rmul__(self, n):
    return n

  __mul__ = __rmul__


class _Job:

  def __init__(self, executable=None, args=None, executor=None, **k):
    self.executable, self.args = executable, dict(args or {})


class _Executable:

  def __init__(self, args):
    self.args = dict(args or {})


class _Unit:

  def __init__(self, log, n):
    self.log, self.work_unit_id = log, n

  def add(self, job, *a, **k):
    self.log.jobs.append((self.work_unit_id, job))


class _Experiment:

  def __init__(self, log, title, first):
    self.log, self.experiment_id = log, 1000 + first
    log.titles.append(title)
    self.n = first

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def package(self, specs):
    out = []
    for s in specs:
      self.log.packaged.append(s)
      out.append(_Executable(s.k.get('args')))
    return out

  def add(self, job, args=None, **k):
    unit = _Unit(self.log, self.n)
    self.n += 1
    if isinstance(job, _Job):
      if args:
        job = _Job(job.executable, dict(job.args, **(
            args.get('args', args))))
      unit.add(job)
      return
    res = job(unit, **(args or {}))
    if asyncio.iscoroutine(res):
      asyncio.run(res)


def _other(name):
  if name.startswith('__'):
    raise AttributeError(name)
  return _Any


class Log:

  def __init__(self):
    self.jobs, self.packaged, self.titles = [], [], []


@contextlib.contextmanager
def launcher(argv, first):
  """The launcher imported afresh with a recording stand-in for XManager."""
  from absl import flags
  F = flags.FLAGS
  log = Log()
  xm, abc, local, contrib, fd = [types.ModuleType(n) for n in (
      'xm', 'xm_abc', 'xm_local', 'contrib', 'framework_defaults')]
  for m in (xm, abc, local, contrib, fd):
    m.__getattr__ = _other
  xm.ServiceTier = _Any()
  xm.GiB = 2**30
  xm.Job = _Job
  for m in (abc, local):
    m.create_experiment = lambda experiment_title=None, **k: _Experiment(
        log, experiment_title, first)
  top = types.ModuleType('xmanager')
  top.xm, top.xm_abc, top.xm_local, top.contrib = xm, abc, local, contrib
  contrib.framework_defaults = fd
  mods = {'xmanager': top, 'xmanager.xm': xm, 'xmanager.xm_abc': abc,
          'xmanager.xm_local': local, 'xmanager.contrib': contrib,
          'xmanager.contrib.framework_defaults': fd}
  mine = ('config', 'save_folder_pattern', 'launch_locally', 'num_gpus',
          'use_batch')

  def clear():
    for n in list(F):
      if n.split('.')[0] in mine:
        delattr(F, n)

  old = sys.argv, {k: sys.modules.get(k) for k in mods}
  sys.argv = ['xm_launcher'] + argv
  try:
    clear()
    sys.modules.update(mods)
    sys.modules.pop('discs.xm_launcher', None)
    m = importlib.import_module('discs.xm_launcher')
    F(sys.argv)
    yield m, log
  finally:
    sys.argv = old[0]
    for k, v in old[1].items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v
    clear()
    sys.modules.pop('discs.xm_launcher', None)


# ------------------------------------------------- the oracle
def combos(sweep):
  out = []
  for sw in sweep:
    keys = list(sw)
    for vals in itertools.product(*[list(sw[k]) for k in keys]):
      out.append(dict(zip(keys, vals)))
  return out


def canon(d):
  return json.dumps(d, sort_keys=True, default=repr)


def judge(log, job, sweep, overrides, what):
  from discs.plot_results import plot_utils
  want = []
  for c in combos(sweep):
    a = dict(
        model_config='models/configs/%s_config.py' % job['model'],
        sampler_config='samplers/configs/%s_config.py' % c.get(
            'sampler_config.name', job['sampler']),
        config=c33.exp_file(job['model'], job.get('graph_type')))
    if job.get('graph_type'):
      a['model_config.graph_type'] = job['graph_type']
    a.update(overrides)
    a.update(c)
    want.append((a, c))
  core.require(len(log.jobs) == len(want), '%s started %d jobs for %d '
               'combinations', what, len(log.jobs), len(want))
  need = {}
  for a, c in want:
    need.setdefault(canon(a), []).append(c)
  roots, dirs = set(), set()
  for ident, j in log.jobs:
    a = dict(j.args)
    root = a.pop('config.experiment.save_root', None)
    for k in ('model_config', 'sampler_config', 'config'):
      p = str(a.get(k))
      core.require('/discs/' in p, '%s: a job runs with %s=%s', what, k, p)
      a[k] = p.split('/discs/', 1)[1]
      core.require(os.path.exists(os.path.join(DISCS, a[k])), '%s: a job '
                   'needs the missing file %s', what, a[k])
    if 'model_config.data_root' not in overrides:
      if not any('model_config.data_root' in c for _, c in want):
        # where the graphs lie is a matter of the installation
        a.pop('model_config.data_root', None)
    cs = need.get(canon(a))
    core.require(bool(cs), '%s started a job with the settings %s, which is '
                 'no combination of the sweep or was started before; the '
                 'combinations are %s', what, a, [x for x, _ in want][:4])
    c = cs.pop()
    core.require(isinstance(root, str) and root not in roots, '%s: two jobs '
                 'save to %s', what, root)
    roots.add(root)
    base, name = os.path.split(root)
    dirs.add(base)
    head = name.split('_')[0]
    core.require(head == str(ident), '%s: job %s saves to %r', what, ident,
                 root)
    got = plot_utils.get_experiment_config(name)
    exp = c31.expected(c)
    core.require(got == exp, '%s: the job with %s saves to %r, which reads '
                 'as %s', what, c, root, got)
  core.require(len(dirs) <= 1, '%s: the results are spread over %s', what,
               sorted(dirs))
  core.require(len(log.packaged) == 1, '%s packaged %d programs', what,
               len(log.packaged))
  return want


def check(case):
  job = case['job']
  with exper.scratch() as d:
    folder = os.path.join(d, case['folder'])
    os.makedirs(folder)
    path = os.path.join(folder, case['file'] + '.py')
    body = dict(job, sweep=case['sweep'])
    if case['overrides']:
      body['experiment'] = {k: v[0] for k, v in case['overrides'].items()}
    with open(path, 'w') as f:
      f.write('from ml_collections import config_dict\n\ndef get_config():\n'
              '  return config_dict.ConfigDict(%r)\n' % (body,))
    argv = ['--config=' + path]
    over = {}
    for k, (_, v) in case['overrides'].items():
      argv.append('--config.experiment.%s=%s' % (k, v))
      over['config.experiment.' + k] = v
    if case['pattern']:
      argv.append('--save_folder_pattern=' + case['pattern'])
    if case['local']:
      argv.append('--launch_locally')
    with launcher(argv, case['first']) as (m, log):
      m.main(['xm_launcher'])
    want = judge(log, job, case['sweep'], over, 'the launcher')
    if case['pattern']:
      exp = case['pattern'].format(user=_user(), exp_name='discs-%s-%s' % (
          case['folder'], case['file']), exp_id=1000 + case['first'])
      for _, j in log.jobs:
        r = j.args['config.experiment.save_root']
        core.require(r.startswith(exp + '/'), 'results go to %s, the pattern '
                     '%s stands for %s', r, case['pattern'], exp)
  return ('%s%s' % ('graph' if job.get('graph_type') else
                    'lm' if job['model'] == BERT else 'plain',
                    '-x%d' % min(len(case['sweep']), 3))), len(want) > 1


def _user():
  import getpass
  return getpass.getuser()


def check_shipped(case):
  files = c33.sweep_files()
  n = 0
  for f in files[case['part']::case['parts']]:
    job = c33.load(f).get_config()
    body = {k: job[k] for k in ('model', 'sampler', 'graph_type') if k in job}
    sweep = [{k: list(v) for k, v in s.items()} for s in job.sweep]
    with launcher(['--config=' + f], 1) as (m, log):
      m.main(['xm_launcher'])
    n += len(judge(log, body, sweep, {}, 'launching %s' %
                   os.path.relpath(f, DISCS)))
  return 'part %d' % case['part'], n > 1


# ------------------------------------------------- generators
VALUES = dict(c31.SETTINGS)
for _k in ('model_config.cfg_str', 'model_config.data_path'):
  VALUES[_k] = list(VALUES[_k])
VALUES.update({
    'config.experiment.save_samples': [True, False],
    'config.experiment.log_every_steps': [100, 1],
    'sampler_config.balancing_fn_type': ['SQRT', 'RATIO', 'MAX', 'MIN'],
    'sampler_config.adaptive': [False, True],
})
GROUPS = [['randomwalk', 'blockgibbs', 'hammingball'],
          ['path_auxiliary', 'gwg', 'dmala'], ['dlmc'], ['gibbs', 'dlmc']]


def strat():
  from hypothesis import strategies as st
  gt = c33.graph_types()

  @st.composite
  def s(draw):
    kind = draw(st.sampled_from(['plain', 'graph', 'lm']))
    job = dict(sampler=draw(st.sampled_from(c33.SAMPLERS)))
    if kind == 'graph':
      job['model'] = draw(st.sampled_from(sorted(gt)))
      job['graph_type'] = draw(st.sampled_from(gt[job['model']]))
    else:
      job['model'] = BERT if kind == 'lm' else draw(st.sampled_from(c33.PLAIN))
    sweep = []
    for _ in range(draw(st.integers(1, 4))):
      sw = {}
      keys = draw(st.lists(st.sampled_from(sorted(VALUES)), unique=True,
                           min_size=0, max_size=3))
      for k in keys:
        sw[k] = draw(st.lists(st.sampled_from(VALUES[k]), min_size=1,
                              max_size=3, unique=True))
      if not keys or draw(st.integers(0, 3)):
        names = draw(st.sampled_from(GROUPS))
        sw['sampler_config.name'] = names[:draw(st.integers(1, len(names)))]
      sweep.append(dict(draw(st.permutations(sorted(sw.items())))))
    over = {}
    if draw(st.integers(0, 2)) == 0:
      k, a, b = draw(st.sampled_from([
          ('num_saved_samples', 4, 7), ('chain_length', 10, 20),
          ('batch_size', 5, 6), ('decay_rate', 0.5, 0.25)]))
      over[k] = [a, b]
    return dict(job=job, sweep=sweep, overrides=over,
                folder=draw(st.sampled_from(['ising', 'maxcut', 'my_runs'])),
                file=draw(st.sampled_from(['sampler_sweep', 'x', 'a-b'])),
                pattern=draw(st.sampled_from(
                    ['', '/tmp/{user}/r/{exp_name}_{exp_id}',
                     'gs://b/{exp_id}/{exp_name}'])),
                local=draw(st.booleans()), first=draw(st.integers(1, 40)))
  return s()


def strat_shipped():
  from hypothesis import strategies as st
  return st.integers(0, PARTS - 1).map(lambda i: dict(part=i, parts=PARTS))


PARTS = 6
STRATA = [
    core.Stratum('generated', strat, check, 500, 20000, shards=4),
    core.Stratum('shipped', strat_shipped, check_shipped, 40, 40),
]
RULE = ('A case is a run configuration (plain, graph or language model; one '
        'to four sweep groups over 1-5 settings of all kinds, with settings '
        'on the command line); the real launcher runs against a recording '
        'stand-in for XManager. The jobs it started must be exactly the '
        'combinations of each group, each with its own result directory that '
        'the plotting code decodes to that combination. shipped: all '
        'configurations under run_configs. Non-trivial: more than one job.')
ASSUMPTIONS = ['XManager itself is replaced: a job counts as started when it '
               'is added to a work unit.']
