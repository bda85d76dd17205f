"""C33: the configuration of a run merges in the documented precedence."""
import ast
import contextlib
import csv
import glob
import importlib
import importlib.util
import os
import sys

from vp import core, exper

DISCS = os.path.join(core.REPO, 'discs')
SAMPLERS = ['blockgibbs', 'dlmc', 'dmala', 'gibbs', 'gwg', 'hammingball',
            'path_auxiliary', 'randomwalk']
PLAIN = ['bernoulli', 'categorical', 'fhmm', 'ising', 'potts', 'rbm',
         'resnet']
BERT = 'text_infilling'
PREFIX = ('config', 'model_config', 'sampler_config')


def graph_types():
  """{graph model: its graph types}, from the shipped configurations."""
  out = {}
  for d in sorted(glob.glob(os.path.join(DISCS, 'models', 'configs', '*', ''))):
    t = sorted(os.path.basename(f)[:-3] for f in glob.glob(d + '*.py')
               if not f.endswith('__init__.py'))
    if t:
      out[os.path.basename(d[:-1])] = t
  return out


def WARM():
  exper.warm()
  import yaml  # noqa: F401
  from discs.experiment import main_sampling  # noqa: F401
  for n in ('bernoulli_eval', 'lm_eval'):
    importlib.import_module('discs.evaluators.%s' % n)
  for n in PLAIN + sorted(graph_types()) + [BERT]:
    importlib.import_module('discs.models.%s' % n)


@contextlib.contextmanager
def program(argv):
  """The main program imported afresh with the given command line."""
  from absl import flags
  F = flags.FLAGS

  def clear():
    for n in list(F):
      if n.split('.')[0] in PREFIX + ('run_local',):
        delattr(F, n)

  old = sys.argv
  sys.argv = ['main_sampling'] + argv
  try:
    clear()
    sys.modules.pop('discs.experiment.main_sampling', None)
    m = importlib.import_module('discs.experiment.main_sampling')
    F(sys.argv)
    yield m
  finally:
    sys.argv = old
    clear()
    sys.modules.pop('discs.experiment.main_sampling', None)


def load(path):
  sp = importlib.util.spec_from_file_location('vp_cfg', path)
  m = importlib.util.module_from_spec(sp)
  sp.loader.exec_module(m)
  return m


def plain(cfg):
  d = cfg.to_dict() if hasattr(cfg, 'to_dict') else cfg
  return {k: plain(v) if isinstance(v, dict) else v for k, v in d.items()}


def over(base, new):
  """base with new on top of it, level by level."""
  out = dict(base)
  for k, v in new.items():
    if isinstance(v, dict) and isinstance(out.get(k), dict):
      out[k] = over(out[k], v)
    else:
      out[k] = v
  return out


def set_in(d, dotted, v):
  ks = dotted.split('.')
  for k in ks[:-1]:
    d = d[k]
  d[ks[-1]] = v


def flag_value(v):
  return str(tuple(v)) if isinstance(v, (tuple, list)) else str(v)


def merge(model, sampler, experiment):
  """The precedence in words: defaults, experiment, sampler, model; a graph
  type's settings, optimisation defaults and the experiment file come last for
  graph problems; the experiment file comes last for language models."""
  base = plain(load(os.path.join(DISCS, 'common', 'configs.py')).get_config())
  graph = 'graph_type' in model
  bert = 'bert_model' in model
  c = base if graph or bert else over(base, experiment)
  c = over(c, dict(sampler=sampler, model=model))
  if graph:
    g = load(os.path.join(DISCS, 'models', 'configs', model['name'],
                          model['graph_type'] + '.py'))
    c = over(c, dict(model=plain(g.get_model_config(model['cfg_str']))))
    c = over(c, dict(experiment=dict(
        evaluator='co_eval', name='CO_Experiment', co_opt_prob=True)))
    c = over(c, experiment)
    c['experiment']['num_models'] = c['model']['num_models']
  if bert:
    c = over(c, experiment)
  return c


def same(a, b):
  if isinstance(a, dict) or isinstance(b, dict):
    return isinstance(a, dict) and isinstance(b, dict) and \
        sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
    return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
        len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  return type(a) == type(b) and a == b  # pylint: disable=unidiomatic-typecheck


def differ(a, b, at=''):
  """First difference between what a run got and what is expected."""
  if isinstance(a, dict) and isinstance(b, dict):
    for k in sorted(set(a) | set(b)):
      if k not in a:
        return '%s.%s is missing (expected %r)' % (at, k, b[k])
      if k not in b:
        return '%s.%s = %r is set by nothing' % (at, k, a[k])
      d = differ(a[k], b[k], at + '.' + k)
      if d:
        return d
    return ''
  return '' if same(a, b) else '%s is %r, expected %r' % (at, a, b)


def paths(case, tmp):
  """(argv, model, sampler, experiment settings) of one case."""
  dirs = dict(model_config='models/configs/%s_config.py' % case['model'],
              sampler_config='samplers/configs/%s_config.py' % case['sampler'],
              config=case['config'])
  argv, sett = [], {}
  for flag in PREFIX:
    path = os.path.join(DISCS, dirs[flag])
    cfg = plain(load(path).get_config())
    extra = case.get('extra', {}).get(flag)
    if extra:                     # a user's own file: shipped one plus settings
      cfg = over(cfg, tupled(extra))
      path = os.path.join(tmp, flag + '_file.py')
      with open(path, 'w') as f:
        f.write('from ml_collections import config_dict\n\n\n'
                'def get_config():\n  return config_dict.ConfigDict(%r)\n' %
                (cfg,))
    argv.append('--%s=%s' % (flag, path))
    sett[flag] = cfg
  for k, v in case.get('flags', {}).items():
    v = tupled(v)
    flag, key = k.split('.', 1)
    argv.append('--%s=%s' % (k, flag_value(v)))
    set_in(sett[flag], key, v)
  if case.get('order'):
    r = core.rng_of('order', case['order'])
    n = len(PREFIX)             # files come before their overrides
    argv = [argv[i] for i in r.permutation(n)] + \
        [argv[n + i] for i in r.permutation(len(argv) - n)]
  return (argv, sett['model_config'], sett['sampler_config'], sett['config'])


def tupled(v):
  if isinstance(v, dict):
    return {k: tupled(x) for k, x in v.items()}
  return tuple(v) if isinstance(v, list) else v


# ------------------------------------------------- merging
def check_merge(case):
  with exper.scratch() as tmp:
    argv, model, sampler, experiment = paths(case, tmp)
    if case['local']:
      argv = argv + ['--run_local=True']
    want = merge(model, sampler, experiment)
    with program(argv) as m:
      cfg = m.get_main_config()
      got = plain(cfg)
      d = differ(got, want)
      core.require(not d, 'merged configuration: %s', d)
      m.update_save_dir(cfg)
      got = plain(cfg)
    if case['local']:
      want['experiment']['save_root'] = './discs/results/' + \
          want['model'].get('save_dir_name', want['model']['name'])
    d = differ(got, want)
    core.require(not d, 'configuration with the result directory: %s', d)
  kind = 'graph' if 'graph_type' in model else \
      'bert' if 'bert_model' in model else 'plain'
  return kind, bool(case['flags'] or case['extra'])


def exp_file(model, gtype):
  if model == BERT:
    return 'experiment/configs/lm_experiment.py'
  if gtype:
    return 'experiment/configs/%s/%s.py' % (model, gtype)
  return 'common/configs.py'


def options(cfg, prefix):
  """[(dotted key, value)] of the scalar and tuple settings of a file."""
  out = []
  for k, v in cfg.items():
    if isinstance(v, dict):
      out += options(v, prefix + '.' + k)
    else:
      out.append((prefix + '.' + k, v))
  return out


KEEP = ('name', 'graph_type', 'cfg_str', 'bert_model')
CFG_STRS = ['r-ba-4-n-256-300', 'r-er-0.15-n-512-600', 'r-800', 'r-10k',
            'r-0.15', 'r-INCEPTION', 'r-b', 'r-ba-4-n-1024-1100,seed-1',
            'seed-2,r-x-16-20']


def strat_merge():
  from hypothesis import strategies as st
  gt = graph_types()

  def value_of(draw, v):
    if isinstance(v, bool):
      return draw(st.booleans())
    if isinstance(v, int):
      return draw(st.integers(1, 5000))
    if isinstance(v, float):
      return draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 1.5, 10.0, 1e-6]))
    if isinstance(v, str):
      return draw(st.sampled_from(['abc', './a/b', 'SQRT', 'x_y-2']))
    if isinstance(v, (tuple, list)):
      return draw(st.lists(st.integers(1, 60), min_size=1, max_size=3))
    raise core.HarnessError('option of type %s' % type(v))

  @st.composite
  def s(draw):
    kind = draw(st.sampled_from(['plain', 'graph', 'graph', 'bert']))
    flags, extra = {}, {}
    gtype = None
    if kind == 'plain':
      model = draw(st.sampled_from(PLAIN))
    elif kind == 'bert':
      model = BERT
    else:
      model = draw(st.sampled_from(sorted(gt)))
      gtype = draw(st.sampled_from(gt[model]))
      flags['model_config.graph_type'] = gtype
      flags['model_config.cfg_str'] = draw(st.sampled_from(CFG_STRS))
    sampler = draw(st.sampled_from(SAMPLERS))
    dirs = dict(model_config='models/configs/%s_config.py' % model,
                sampler_config='samplers/configs/%s_config.py' % sampler,
                config=exp_file(model, gtype))
    common = plain(load(os.path.join(DISCS, 'common', 'configs.py'))
                   .get_config())
    opts, base = [], {}
    for flag in PREFIX:
      base[flag] = plain(load(os.path.join(DISCS, dirs[flag])).get_config())
      opts += options(base[flag], flag)
    opts = [o for o in opts if o[0].split('.')[-1] not in KEEP]
    for _ in range(draw(st.integers(0, 5))):
      k, v = draw(st.sampled_from(opts))
      flags[k] = value_of(draw, v)
    # a user's own experiment, model or sampler file with further settings:
    # common options it did not mention, and sections of the other kinds
    if draw(st.booleans()):
      e = {}
      for k in draw(st.lists(st.sampled_from(sorted(common['experiment'])),
                             max_size=4)):
        if k not in ('name', 'evaluator', 'num_models'):
          e.setdefault('experiment', {})[k] = value_of(
              draw, common['experiment'][k])
      if draw(st.booleans()):
        e['model'] = dict(data_root=draw(st.sampled_from(['p', './q/'])),
                          vp_new=draw(st.integers(0, 9)))
        for k, v in base['model_config'].items():
          if k not in KEEP and draw(st.integers(0, 3)) == 0:
            e['model'][k] = value_of(draw, v)
        if gtype and draw(st.booleans()):
          e['model']['num_models'] = draw(st.integers(1, 99))
      if draw(st.booleans()):
        e['sampler'] = {}
        for k, v in base['sampler_config'].items():
          if k not in KEEP and draw(st.booleans()):
            e['sampler'][k] = value_of(draw, v)
      if e:
        extra['config'] = e
    if draw(st.integers(0, 2)) == 0:
      e = dict(data_root=draw(st.sampled_from(['m', './n/'])))
      if gtype:
        e['num_models'] = draw(st.integers(1, 99))
      if draw(st.booleans()):
        e['vp_new'] = draw(st.integers(10, 19))
      extra['model_config'] = e
    if draw(st.integers(0, 3)) == 0:
      extra['sampler_config'] = dict(vp_opt=draw(st.floats(0, 1)))
    return dict(model=model, sampler=sampler, config=dirs['config'],
                flags=flags, extra=extra, local=draw(st.booleans()),
                order=draw(st.integers(0, 5)))

  return s()


# ------------------------------------------------- shipped sweeps
def sweep_files():
  root = os.path.join(DISCS, 'run_configs')
  return [f for f in sorted(glob.glob(os.path.join(root, '**', '*.py'),
                                      recursive=True))
          if not f.endswith('__init__.py')]


def sweep_runs(job):
  import itertools
  for sw in job.get('sweep', []):
    sw = dict(sw.items())
    keys = list(sw)
    for vals in itertools.product(*[list(sw[k]) for k in keys]):
      yield dict(zip(keys, vals))


def resolve(cfg, what):
  """Every component the run names exists and accepts the options."""
  import copy
  try:
    mod = importlib.import_module('discs.models.%s' % cfg.model.name)
    samp = importlib.import_module('discs.samplers.%s' % cfg.sampler.name)
    ev = importlib.import_module('discs.evaluators.%s' %
                                 cfg.experiment.evaluator)
  except ImportError as e:
    raise core.Violation('%s names a missing component: %s' % (what, e))
  exp = importlib.import_module('discs.experiment.sampling')
  core.require(hasattr(mod, 'build_model') and hasattr(samp, 'build_sampler')
               and hasattr(ev, 'build_evaluator') and
               hasattr(exp, cfg.experiment.name), '%s names a component that '
               'cannot be built (%s, %s, %s, %s)', what, cfg.model.name,
               cfg.sampler.name, cfg.experiment.evaluator,
               cfg.experiment.name)
  c = copy.deepcopy(cfg)
  if 'num_categories' in c.model:
    with c.unlocked():
      c.model.shape = (4,)
    samp.build_sampler(c)
  getattr(exp, cfg.experiment.name)(c)
  ev.build_evaluator(c)


def check_sweep(case):
  files = sweep_files()
  n = 0
  built = set()
  for f in files[case['part']::case['parts']]:
    name = os.path.relpath(f, DISCS)
    job = load(f).get_config()
    core.require(isinstance(job.get('model'), str) and
                 isinstance(job.get('sampler'), str), '%s does not say which '
                 'model and sampler to run', name)
    for run in sweep_runs(job):
      args = dict(
          model_config=os.path.join(DISCS, 'models', 'configs',
                                    job.model + '_config.py'),
          sampler_config=os.path.join(
              DISCS, 'samplers', 'configs', '%s_config.py' %
              run.get('sampler_config.name', job.sampler)),
          config=os.path.join(DISCS, exp_file(job.model,
                                              job.get('graph_type'))))
      what = 'the sweep %s, run %s,' % (name, run)
      for p in args.values():
        core.require(os.path.exists(p), '%s needs the missing file %s', what,
                     p)
      if job.get('graph_type'):
        args['model_config.graph_type'] = job.graph_type
      args.update(run)
      argv = ['--%s=%s' % (k, flag_value(v)) for k, v in args.items()]
      try:
        with program(argv) as m:
          cfg = m.get_main_config()
      except core.Violation:
        raise
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation('%s cannot be started: %s: %s' %
                             (what, type(e).__name__, e))
      for k, v in run.items():
        flag, key = k.split('.', 1)
        sec = cfg if flag == 'config' else cfg[flag[:-len('_config')]]
        for p in key.split('.'):
          core.require(p in sec, '%s sets %s, which is no option', what, k)
          sec = sec[p]
        if isinstance(sec, (tuple, list)) and isinstance(v, str):
          v = ast.literal_eval(v)
        ok = tuple(sec) == tuple(v) if isinstance(sec, (tuple, list)) else \
            sec == v
        core.require(ok, '%s sets %s to %r but runs with %r', what, k, v, sec)
      core.require(cfg.sampler.name == run.get('sampler_config.name',
                                               job.sampler) and
                   cfg.model.name == job.model, '%s runs %s on %s', what,
                   cfg.sampler.name, cfg.model.name)
      key = tuple(sorted((k, str(v)) for k, v in run.items() if
                         k.startswith('sampler')))
      if key not in built:
        built.add(key)
        resolve(cfg, what)
      n += 1
  return 'part %d' % case['part'], n > 1


def strat_sweep():
  from hypothesis import strategies as st
  return st.integers(0, 7).map(lambda i: dict(part=i, parts=8))


# ------------------------------------------------- shipped pairs
def check_pair(case):
  """Any shipped model configuration with any shipped sampler configuration."""
  gtype = case['gtype']
  flags = {'model_config.graph_type': gtype} if gtype else {}
  c = dict(model=case['model'], sampler=case['sampler'],
           config=exp_file(case['model'], gtype), flags=flags)
  with exper.scratch() as tmp:
    argv, model, sampler, experiment = paths(c, tmp)
    with program(argv) as m:
      cfg = m.get_main_config()
  d = differ(plain(cfg), merge(model, sampler, experiment))
  core.require(not d, 'merged configuration: %s', d)
  core.require(cfg.model.name == case['model'] and cfg.sampler.name ==
               case['sampler'], 'the files of %s and %s configure %s and %s',
               case['model'], case['sampler'], cfg.model.name,
               cfg.sampler.name)
  if gtype:
    core.require(cfg.experiment.name == 'CO_Experiment' and
                 cfg.experiment.evaluator == 'co_eval' and
                 cfg.experiment.co_opt_prob, 'graph problem runs as %s',
                 cfg.experiment.name)
    core.require(cfg.experiment.num_models == cfg.model.num_models,
                 '%d model slots for batches of %d instances',
                 cfg.experiment.num_models, cfg.model.num_models)
  elif case['model'] == BERT:
    core.require(cfg.experiment.name == 'Text_Infilling_Experiment' and
                 cfg.experiment.evaluator == 'lm_eval',
                 'text infilling runs as %s', cfg.experiment.name)
  else:
    core.require(not cfg.experiment.co_opt_prob, '%s runs as optimisation',
                 case['model'])
  resolve(cfg, '%s with %s' % (case['model'], case['sampler']))
  return gtype or case['model']


def strat_pair():
  from hypothesis import strategies as st
  ms = [(m, None) for m in PLAIN + [BERT]]
  ms += [(m, t) for m, ts in sorted(graph_types().items()) for t in ts]
  # block samplers enumerate num_categories ** block_size values: not with a
  # vocabulary
  pairs = [(m, s) for m in ms for s in SAMPLERS if m[0] != BERT or
           s not in ('gibbs', 'blockgibbs', 'hammingball')]
  return st.sampled_from(pairs).map(
      lambda t: dict(model=t[0][0], gtype=t[0][1], sampler=t[1]))


# ------------------------------------------------- whole program
def check_main(case):
  import yaml
  with exper.scratch() as tmp, exper.devices(1):
    argv, model, sampler, experiment = paths(case, tmp)
    out = os.path.join(tmp, 'out')
    argv.append('--config.experiment.save_root=' + out)
    experiment['experiment']['save_root'] = out
    if case['local']:
      argv.append('--run_local=True')
    want = merge(model, sampler, experiment)
    old = os.getcwd()
    os.chdir(tmp)
    try:
      with program(argv) as m:
        m.main([])
    finally:
      os.chdir(old)
    if case['local']:
      root = './discs/results/' + model.get('save_dir_name', model['name'])
      want['experiment']['save_root'] = root
      core.require(not os.path.exists(out), 'a local run wrote to the '
                   'configured directory')
      out = os.path.join(tmp, root)
    core.require(os.path.isdir(out), 'the run wrote nothing to its result '
                 'directory')
    with open(os.path.join(out, 'config.yaml')) as f:
      got = plain(yaml.unsafe_load(f))
    got['experiment'].pop('fig_folder', None)
    want['experiment'].pop('fig_folder')
    d = differ(got, want)
    core.require(not d, 'saved configuration: %s', d)
    with open(os.path.join(out, 'results.csv')) as f:
      rows = list(csv.DictReader(f))
    core.require(len(rows) == 1, 'results.csv has %d rows', len(rows))
  return case['model']


def strat_main():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    model = draw(st.sampled_from(['bernoulli', 'ising', 'categorical',
                                  'potts']))
    sampler = draw(st.sampled_from(['gibbs', 'randomwalk', 'gwg', 'dmala',
                                    'path_auxiliary', 'dlmc']))
    shape = [2, 3] if model in ('ising', 'potts') else [5]
    flags = {'model_config.shape': shape,
             'config.experiment.chain_length': draw(st.integers(20, 40)),
             'config.experiment.batch_size': draw(st.integers(2, 4)),
             'config.experiment.run_parallel': draw(st.booleans())}
    if draw(st.booleans()):
      flags['model_config.init_sigma'] = 0.25
    return dict(model=model, sampler=sampler, config='common/configs.py',
                flags=flags, extra={}, local=draw(st.booleans()), order=0)

  return s()


# ------------------------------------------------- outside the pipeline
def check_alone(case):
  """A sampler built from the documented two-section configuration is the one
  the pipeline builds from the merged configuration."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from ml_collections import config_dict
  path = os.path.join(DISCS, 'samplers', 'configs', '%s_config.py' %
                      case['sampler'])
  mod = importlib.import_module('discs.samplers.%s' % case['sampler'])
  opts = over(plain(load(path).get_config()), case['opts'])
  shape = tuple(case['shape'])
  sec = dict(model=dict(shape=shape, num_categories=case['C']), sampler=opts)
  full = over(plain(load(os.path.join(DISCS, 'common', 'configs.py'))
                    .get_config()), sec)
  kind = 'bernoulli' if case['C'] == 2 else 'categorical'
  mm = importlib.import_module('discs.models.' + kind)
  mc = over(plain(load(os.path.join(DISCS, 'models', 'configs', kind +
                                    '_config.py')).get_config()),
            dict(shape=shape, num_categories=case['C']))
  model = mm.build_model(config_dict.ConfigDict(dict(model=mc)))
  key = jax.random.PRNGKey(case['seed'])
  params = model.make_init_params(key)
  x0 = model.get_init_samples(jax.random.fold_in(key, 1), 2)
  runs = []
  for c in (sec, full):
    try:
      s = mod.build_sampler(config_dict.ConfigDict(c))
    except Exception as e:  # pylint: disable=broad-except
      raise core.Violation('%s cannot be built from the %s configuration: %s: '
                           '%s' % (case['sampler'], 'documented model and '
                                   'sampler' if c is sec else 'merged',
                                   type(e).__name__, e))
    st = s.make_init_state(jax.random.fold_in(key, 2))
    x, xs = x0, []
    for t in range(case['steps']):
      x, st, _ = s.step(model=model, rng=jax.random.fold_in(key, 10 + t), x=x,
                        model_param=params, state=st, x_mask=None)
      xs.append(np.asarray(x))
    core.require(xs[-1].shape == (2,) + shape, '%s returned shape %s for '
                 'samples of shape %s', case['sampler'], xs[-1].shape, shape)
    runs.append((np.stack(xs), [np.asarray(v) for v in
                                jax.tree_util.tree_leaves(st)]))
  core.require((runs[0][0] == runs[1][0]).all(), '%s draws other samples when '
               'built from the documented configuration', case['sampler'])
  for a, b in zip(runs[0][1], runs[1][1]):
    core.require(np.array_equal(a, b, equal_nan=True), '%s ends in another '
                 'state when built from the documented configuration',
                 case['sampler'])
  return case['sampler'], bool((runs[0][0][-1] != np.asarray(x0)).any())


def strat_alone():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    sampler = draw(st.sampled_from(SAMPLERS))
    opts = {}
    if sampler in ('dmala', 'dlmc', 'path_auxiliary') or draw(st.booleans()):
      opts['balancing_fn_type'] = draw(st.sampled_from(
          ['SQRT', 'RATIO', 'MAX', 'MIN']))
    if sampler in ('dmala', 'dlmc', 'path_auxiliary', 'randomwalk'):
      opts['adaptive'] = draw(st.booleans())
    if sampler in ('blockgibbs', 'hammingball'):
      opts['block_size'] = 2
      if sampler == 'hammingball':
        opts['hamming'] = draw(st.sampled_from([1, 2]))
    return dict(sampler=sampler, opts=opts,
                C=draw(st.sampled_from([2, 3])),
                shape=draw(st.sampled_from([[4], [2, 3], [6]])),
                steps=draw(st.integers(1, 3)),
                seed=draw(st.integers(0, 10**6)))
  return s()


STRATA = [
    core.Stratum('standalone', strat_alone, check_alone, 80, 800),
    core.Stratum('merge', strat_merge, check_merge, 1600, 30000),
    core.Stratum('sweeps', strat_sweep, check_sweep, 48, 160),
    core.Stratum('pairs', strat_pair, check_pair, 400, 4000),
    core.Stratum('program', strat_main, check_main, 16, 200),
]
RULE = ('A case is a command line for the sampling program: shipped or '
        'generated model, sampler and experiment files plus overriding flags '
        '(merge, program), one eighth of all shipped sweeps with every run in '
        'them (sweeps), or a shipped model and sampler pair (pairs). Non-'
        'trivial: at least one setting is overridden (merge) or more than one '
        'run is resolved (sweeps); all pairs and program runs count.')
ASSUMPTIONS = ['text infilling is not paired with the samplers that enumerate '
               'all values of a block']
