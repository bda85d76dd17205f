"""C31: saved results are read back, grouped and labelled correctly."""
import csv
import glob
import importlib.util
import itertools
import os

import numpy as np

from vp import core, exper

SAMPLERS = ['hammingball', 'blockgibbs', 'randomwalk', 'gwg', 'dmala',
            'path_auxiliary', 'dlmc']
SHORT = dict(hammingball='hb-10-1', blockgibbs='bg-2', randomwalk='rwm',
             path_auxiliary='pas')
FN = dict(SQRT='(s)', RATIO='(r)', MIN='(min)', MAX='(max)')
SAMPLER_KEYS = ('name', 'solver', 'approx_with_grad', 'adaptive', 'step_size',
                'n', 'num_flips', 'balancing_fn_type')


def WARM():
  import matplotlib
  matplotlib.use('Agg')
  from discs.common import configs  # noqa: F401
  from discs.common import experiment_saver  # noqa: F401
  from discs.plot_results import plot_results  # noqa: F401


# ------------------------------------------------- directory names
def encode(ident, sweep):
  """The launcher's directory name of one run."""
  parts = []
  for k, v in sweep.items():
    for p in ('config.experiment.', 'model_config.', 'sampler_config.'):
      if k.startswith(p):
        k = k[len(p):]
        break
    if isinstance(v, str) and v.startswith('/gcs'):
      v = '/'.join(v.split('/')[-3:])
    parts.append('%s=%r' % (k, v))
  return ('%s_%s' % (ident, ','.join(parts))).replace('/', '-')


def expected(sweep):
  out = {}
  for k, v in sweep.items():
    k = k.split('.')[-1]
    if isinstance(v, str):
      if v.startswith('/gcs'):
        v = '/'.join(v.split('/')[-3:])
      v = v.replace('/', '-')
      if v.startswith('('):
        v = v[1:].split(',')[0]
      elif k == 'cfg_str':
        v = v.split(',')[0]
        v = v[2:] if v.startswith('r-') else v
    else:
      v = repr(v)
    out[k] = v
  return out


def display(sweep):
  """The display name of a sampler variant."""
  d = expected(sweep)
  s = SHORT.get(d['name'], d['name'])
  if d.get('solver') == 'euler_forward':
    s += 'f'
  if 'adaptive' in d:
    if d['adaptive'] == 'False':
      s += '-nA'
    s += d.get('step_size', '')
    for k in ('n', 'num_flips'):
      if k in d:
        s += '-' + d[k]
  return s + FN.get(d.get('balancing_fn_type'), '')


def check_decode(case):
  from discs.plot_results import plot_utils
  for i, sweep in enumerate(case['runs']):
    name = encode(i + case['first'], sweep)
    got = plot_utils.get_experiment_config(name)
    want = expected(sweep)
    core.require(got == want, 'directory %r is decoded to %s instead of %s',
                 name, got, want)
    if 'name' in want:
      shown = plot_utils.process_keys(dict(got))
      core.require(shown['name'] == display(sweep), 'variant %s is shown as %r '
                   'instead of %r', sweep, shown['name'], display(sweep))
      rest = {k: v for k, v in want.items() if k not in SAMPLER_KEYS}
      left = {k: v for k, v in shown.items() if k in rest}
      core.require(rest == left, 'settings %s became %s', rest, left)
      plot_utils.get_color(shown['name'])
  return 'runs%d' % len(case['runs']), any(len(s) > 2 for s in case['runs'])


# ------------------------------------------------- grouping
def group_oracle(key, runs):
  out = {}
  for i, r in enumerate(runs):
    if key not in r:
      continue
    sig = tuple(sorted((k, v) for k, v in r.items()
                       if k not in (key, 'name', 'results')))
    out.setdefault(sig, []).append(i)
  return sorted(out.values())


def check_groups(case):
  from discs.plot_results import plot_utils
  runs = [plot_utils.process_keys(plot_utils.get_experiment_config(
      encode(i, s))) for i, s in enumerate(case['runs'])]
  for r in runs:
    r['results'] = {}
  keep = [dict(r) for r in runs]
  got = plot_utils.get_clusters_key_based(case['key'], runs)
  got = sorted(sorted(c) for c in got)
  want = group_oracle(case['key'], keep)
  core.require(got == want, 'runs %s are grouped by %s as %s instead of %s',
               keep, case['key'], got, want)
  return '%s/g%d' % (case['key'], min(len(want), 4)), \
      len(want) > 1 and any(len(c) > 1 for c in want)


def load_sweeps():
  """All shipped sweeps: {file: list of runs}."""
  out = {}
  root = os.path.join(core.REPO, 'discs', 'run_configs')
  for f in sorted(glob.glob(os.path.join(root, '**', '*.py'), recursive=True)):
    if f.endswith('__init__.py'):
      continue
    sp = importlib.util.spec_from_file_location('vp_sweep', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    cfg = m.get_config()
    runs = []
    for sw in cfg.get('sweep', []):
      sw = dict(sw.items())
      keys = list(sw)
      for vals in itertools.product(*[list(sw[k]) for k in keys]):
        runs.append(dict(zip(keys, vals)))
    out[os.path.relpath(f, root)] = runs
  return out


def check_shipped(case):
  """Runs picked from one shipped sweep decode, show and group correctly."""
  sweeps = load_sweeps()
  names = [n for n in sorted(sweeps) if sweeps[n] and
           all('sampler_config.name' in r and 'config.experiment.name' not in r
               for r in sweeps[n])]
  name = names[case['which'] % len(names)]
  runs = sweeps[name]
  r = core.rng_of('shipped', case['seed'])
  pick = r.permutation(len(runs))[:60]
  runs = [runs[i] for i in pick]
  check_decode(dict(runs=runs, first=1))
  shown = {}
  for s in runs:
    v = tuple(sorted((k, str(x)) for k, x in expected(s).items()
                     if k in SAMPLER_KEYS and k != 'approx_with_grad' and
                     not (k == 'solver' and x != 'euler_forward')))
    shown.setdefault(display(s), set()).add(v)
  check_groups(dict(runs=runs, key='name'))
  return name.split('/')[0], len(runs) > 1


# ------------------------------------------------- whole reports
def write_run(root, i, sweep, kind, r, single):
  """One result directory written by the real saver; returns the truth."""
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  d = os.path.join(root, encode(i, sweep))
  cfg = common_configs.get_config()
  cfg.experiment.save_root = d
  cfg.model.update(dict(name='potts', shape=(3, 3), num_categories=3))
  cfg.sampler.name = sweep['sampler_config.name']
  saver = experiment_saver.build_saver(cfg)
  if kind == 'co':
    traj = np.sort(r.random((4, 3)), axis=0)
    best = traj[-1]
    saver.save_co_resuts(list(traj), best, 1.5, [])
    return dict(best_ratio_mean=best.mean(), best_ratio_std=best.std())
  if kind == 'lm':
    res = dict(bleu=float(r.random()), infill_sents=['a'],
               self_bleu=float(r.random()))
    saver.save_lm_results(res, dict(res))
    return {k: v for k, v in res.items() if k != 'infill_sents'}
  m = (10.0 ** r.uniform(-4, 4, size=(4, 2))).astype(np.float32)
  if r.random() < 0.3:
    m[:, 1] = 0
  import jax.numpy as jnp
  mets = [jnp.asarray(v if single else v[None]) for v in m]
  saver.save_results([], [], mets, 2.5)
  with open(os.path.join(d, 'results.csv')) as f:
    rows = list(csv.DictReader(f))
  core.require(len(rows) == 1, '%d rows saved', len(rows))
  for k, v in zip(('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE'), m):
    back = np.array(rows[0][k].replace('[', ' ').replace(']', ' ').split(),
                    float)
    core.require(np.allclose(back, v, rtol=1e-5), '%s %s was saved as %s', k, v,
                 rows[0][k])
  L = int(float(sweep.get('config.experiment.chain_length', 100000)) // 2)
  return dict(ess_ee=float(m[3, 0]) * L, ess_ee_std=float(m[3, 1]) * L,
              ess_clock=float(m[2, 0]), ess_clock_std=float(m[2, 1]))


def check_report(case):
  from absl import flags
  import matplotlib
  matplotlib.use('Agg')
  plot_results = load_script('plot_results')
  plt = plot_results.plt
  F = flags.FLAGS
  cwd = os.getcwd()
  kind, key = case['kind'], case['key']
  r = core.rng_of('report', case['seed'])
  figs = []                        # one dict per figure
  old = {n: getattr(plt, n) for n in ('bar', 'figure', 'savefig', 'show',
                                      'xticks')}

  def figure(*a, **k):
    figs.append(dict(bars=[], ticks=None, ylabel=None))
    return old['figure'](*a, **k)

  def bar(x, h, w, label=None, yerr=None, **k):
    figs[-1]['bars'].append((label, np.atleast_1d(np.array(h, float)).tolist(),
                             np.atleast_1d(np.array(yerr, float)).tolist(),
                             np.atleast_1d(np.array(x, float)).tolist()))

  def xticks(pos=None, labels=None, **k):
    figs[-1]['ticks'] = [str(v) for v in labels]
    figs[-1]['tickpos'] = np.atleast_1d(np.array(pos, float)).tolist()

  def savefig(*a, **k):
    figs[-1]['ylabel'] = plt.gca().get_ylabel()
    plt.close('all')

  def savefig2(*a, **k):
    if figs[-1]['ylabel'] is None:
      savefig()

  with exper.scratch() as d:
    try:
      os.chdir(d)
      root = './discs-%s-x' % case['model']
      os.makedirs(root)
      truth = [write_run(root, i + 1, s, kind, r, case['single'])
               for i, s in enumerate(case['runs'])]
      if not F.is_parsed():
        F(['x'])
      F.gcs_results_path, F.evaluation_type, F.key = root, kind, key
      plt.bar, plt.figure, plt.xticks = bar, figure, xticks
      plt.savefig, plt.show = savefig2, lambda *a, **k: None
      plot_results.main(['x'])
      out = []
      for path in glob.glob('%s_csv/**/*.csv' % kind, recursive=True):
        with open(path) as f:
          out.append(list(csv.DictReader(f)))
    finally:
      for n, v in old.items():
        setattr(plt, n, v)
      plt.close('all')
      os.chdir(cwd)

  runs = [expected(s) for s in case['runs']]
  rest = [{k: v for k, v in e.items() if k not in SAMPLER_KEYS + (key,)}
          for e in runs]
  groups = {}
  for i, e in enumerate(rest):
    groups.setdefault(tuple(sorted(e.items())), []).append(i)
  if kind in ('co', 'lm'):
    core.require(len(out) == len(groups), '%d tables for %d groups of runs',
                 len(out), len(groups))
    want = []
    for g in groups.values():
      t = {}
      for i in g:
        t.setdefault(display(case['runs'][i]), []).append(i)
      want.append({n: {k: sorted(round(float(truth[i][k]), 9) for i in ids)
                       for k in truth[ids[0]]} for n, ids in t.items()})
    got = []
    for rows in out:
      names = [row['sampler'] for row in rows]
      core.require(len(set(names)) == len(names), 'sampler rows repeat: %s',
                   names)
      got.append({row['sampler']: {
          k: sorted(round(float(v), 9) for v in
                    _floats(row[k])) for k in truth[0]} for row in rows})
    ks = lambda t: repr(sorted((n, sorted(v.items())) for n, v in t.items()))
    core.require(sorted(map(ks, got)) == sorted(map(ks, want)),
                 'the tables are %s, the saved results are %s', got, want)
  else:
    core.require(len(figs) == 2 * len(groups), '%d figures for %d groups x 2 '
                 'measures', len(figs), len(groups))
    want, got = [], []
    for g in groups.values():
      for meas in ('ess_ee', 'ess_clock'):
        t = {}
        for i in g:
          nm = display(case['runs'][i])
          tick = runs[i].get(key) if key != 'name' else ''
          if key == 'balancing_fn_type':
            nm = nm[:nm.find('(')]
          t.setdefault(nm, {})[tick] = (truth[i][meas], truth[i][meas + '_std'])
        want.append((meas, t))
    for f in figs:
      meas = 'ess_ee' if 'Energy' in f['ylabel'] else 'ess_clock'
      t = {}
      for label, h, e, x in f['bars']:
        label = label.replace('$\\frac{t}{t+1}$', '(r)').replace(
            '$\\sqrt{t}$', '(s)')
        core.require(label not in t, 'sampler %s is drawn twice', label)
        if key == 'name':
          t[label] = {'': (h[0], e[0])}
          core.require(len(h) == 1, '%d values for one run', len(h))
        else:
          ticks = [v.split('x')[0] for v in f['ticks']]
          core.require(len(h) == len(ticks), '%d bars, %d ticks', len(h),
                       len(ticks))
          # a bar belongs to the tick it is drawn at (up to a common offset)
          core.require(np.allclose(np.diff(x), np.diff(f['tickpos'])),
                       'bars at %s, ticks at %s', x, f['tickpos'])
          if key == 'balancing_fn_type':
            lut = {'$\\sqrt{t}$': 'SQRT', '$\\frac{t}{t+1}$': 'RATIO',
                   '1 \u2227 t': 'MIN', '1 \u2228 t': 'MAX'}
            ticks = [lut[v] for v in ticks]
          t[label] = {k: (a, b) for k, a, b in zip(ticks, h, e)}
      got.append((meas, t))
    for meas, t in want:
      core.require(any(m == meas and _close(t, u) for m, u in got),
                   'no figure shows %s of %s; the figures show %s', meas, t,
                   got)
  return '%s/%s' % (kind, key), len(case['runs']) > 2


def _floats(text):
  import re
  text = re.sub(r'np\.float\d+\(([^)]*)\)', r'\1', text)
  return [float(v) for v in text.strip('[]').split(',')]


def _close(t, u):
  if set(t) != set(u):
    return False
  return all(set(t[n]) == set(u[n]) and
             all(np.allclose(t[n][k], u[n][k], rtol=1e-4) for k in t[n])
             for n in t)


def check_saved(case):
  """What one run saves: table row with its label, pickled arrays."""
  import jax.numpy as jnp
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  r = core.rng_of('saved', case['seed'])
  opts = {k.split('.')[-1]: v for k, v in case['variant'].items()}
  with exper.scratch() as d:
    cfg = common_configs.get_config()
    cfg.experiment.save_root = os.path.join(d, 'a', 'b')
    cfg.experiment.update(dict(batch_size=case['B'], chain_length=case['T'],
                               ess_ratio=case['ratio']))
    cfg.model.update(dict(name=case['model'], shape=tuple(case['shape']),
                          num_categories=case['K']))
    cfg.sampler.update(opts)
    saver = experiment_saver.build_saver(cfg)
    mets = (10.0 ** r.uniform(-3, 3, size=(4, 2))).astype(np.float32)
    saver.save_results([], [], [jnp.asarray(v) for v in mets], 12.25)
    samples = r.integers(0, case['K'], size=[3, 2] + case['shape'])
    saver.dump_samples([jnp.asarray(v) for v in samples])
    par = r.normal(size=5)
    if case['seed'] % 2:
      saver.dump_params(par)
    else:
      saver.dump_params(dict(w=par, b=1))
    logz = [list(r.normal(size=3))]
    saver.save_logz(logz)
    with open(os.path.join(cfg.experiment.save_root, 'results.csv')) as f:
      rows = list(csv.DictReader(f))
    pk = {n: exper.load_pickle(os.path.join(cfg.experiment.save_root, n + '.pkl'))
          for n in ('samples', 'params', 'logz')}
  core.require(len(rows) == 1, '%d rows', len(rows))
  row = rows[0]
  label = ('a_' if opts.get('adaptive') else '') + opts['name'] + (
      'f' if opts.get('solver') == 'euler_forward' else '')
  fn = opts.get('balancing_fn_type')
  if fn:
    label += '(%s)' % fn.lower()
  core.require(row['sampler'] == label, 'sampler %s is labelled %r instead of '
               '%r', opts, row['sampler'], label)
  want = dict(model=case['model'], num_categories=case['K'],
              shape=tuple(case['shape']), batch_size=case['B'],
              chain_length=case['T'], ess_ratio=case['ratio'], Time=12.25)
  for k, v in want.items():
    core.require(row.get(k) == str(v), '%s is saved as %r instead of %r', k,
                 row.get(k), v)
  for k, v in zip(('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE'), mets):
    back = np.array(row[k].strip('[]').split(), float)
    core.require(np.allclose(back, v, rtol=1e-5), '%s %s was saved as %s', k, v,
                 row[k])
  core.require(np.array_equal(np.asarray(pk['samples']['trajectory']), samples),
               'saved samples differ')
  if case['seed'] % 2:
    core.require(np.array_equal(pk['params']['params'], par), 'saved parameters '
                 '%s instead of %s', pk['params'], par)
  else:
    core.require(set(pk['params']) == {'w', 'b'} and
                 np.array_equal(pk['params']['w'], par), 'saved parameters %s',
                 pk['params'])
  core.require(np.allclose(pk['logz']['logz'], logz, rtol=1e-6),
               'saved estimates %s instead of %s', pk['logz'], logz)
  return opts['name'], True


# ------------------------------------------------- generators
def strat_saved():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    return dict(variant=variant(draw, st), B=draw(st.integers(1, 100)),
                T=draw(st.integers(1, 10**6)),
                ratio=draw(st.sampled_from([0.5, 0.25, 0.1])),
                model=draw(st.sampled_from(['ising', 'potts', 'rbm'])),
                shape=draw(st.lists(st.integers(1, 4), min_size=1, max_size=2)),
                K=draw(st.integers(2, 5)), seed=draw(st.integers(0, 10**6)))
  return s()


def variant(draw, st):
  name = draw(st.sampled_from(SAMPLERS))
  out = {}
  if name in ('gwg', 'dmala', 'path_auxiliary', 'dlmc'):
    if draw(st.booleans()):
      out['sampler_config.balancing_fn_type'] = draw(st.sampled_from(sorted(FN)))
  if name == 'dlmc' and draw(st.booleans()):
    out['sampler_config.solver'] = draw(st.sampled_from(
        ['interpolate', 'euler_forward']))
  if name in ('gwg', 'dmala', 'path_auxiliary', 'dlmc', 'randomwalk') and \
      draw(st.booleans()):
    out['sampler_config.adaptive'] = draw(st.booleans())
    extra = dict(gwg='num_flips', path_auxiliary='num_flips', dmala='step_size',
                 dlmc='n').get(name)
    if extra and draw(st.booleans()):
      out['sampler_config.' + extra] = draw(st.sampled_from(
          [1, 2, 3, 10] if extra != 'step_size' else [0.1, 0.25, 2.0]))
  if name == 'path_auxiliary' and draw(st.booleans()):
    out['sampler_config.approx_with_grad'] = draw(st.booleans())
  out['sampler_config.name'] = name
  return out


SETTINGS = {
    'config.experiment.chain_length': [50, 1000, 100000],
    'config.experiment.batch_size': [16, 32],
    'config.experiment.decay_rate': [0.05, 0.1],
    'config.experiment.t_schedule': ['exp_decay', 'constant'],
    'config.experiment.final_temperature': [1e-05],
    'model_config.shape': ['(10, 10)', '(100,)', '(25, 25)'],
    'model_config.num_categories': [2, 4, 16, 256],
    'model_config.init_sigma': [0, 0.5, 1.5, 3],
    'model_config.penalty': [1.001, 2],
    'model_config.cfg_str': ['r-800', 'r-ALEXNET', 'r-0.05,x-1', 'r-10k'],
    'model_config.data_path': ['/gcs/x/y/RBM_DATA/mnist-2-25/',
                               '/gcs/x/BINARY_EBM/omniglot-64/'],
}


def strat_decode():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    runs = []
    for _ in range(draw(st.integers(1, 3))):
      v = variant(draw, st)
      keys = draw(st.lists(st.sampled_from(sorted(SETTINGS)), unique=True,
                           max_size=5))
      items = list(v.items()) + [(k, draw(st.sampled_from(SETTINGS[k])))
                                 for k in keys]
      runs.append(dict(draw(st.permutations(items))))
    return dict(runs=runs, first=draw(st.integers(1, 120)))
  return s()


def strat_groups():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    keys = draw(st.lists(st.sampled_from(sorted(SETTINGS)), unique=True,
                         min_size=1, max_size=3))
    runs = []
    for _ in range(draw(st.integers(2, 10))):
      v = variant(draw, st)
      v.update({k: draw(st.sampled_from(SETTINGS[k][:2])) for k in keys})
      runs.append(v)
    key = draw(st.sampled_from(['name'] + [k.split('.')[-1] for k in keys]))
    return dict(runs=runs, key=key)
  return s()


def strat_shipped():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(which=st.integers(0, 200),
                                    seed=st.integers(0, 10**6)))


def strat_report():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    kind = draw(st.sampled_from(['co', 'lm', 'ess', 'ess']))
    vs = draw(st.lists(st.builds(lambda: 0), min_size=1, max_size=4))
    variants, seen = [], set()
    for _ in vs:
      v = variant(draw, st)
      if display(v) not in seen:
        seen.add(display(v))
        variants.append(v)
    key = 'name'
    if kind == 'ess':
      key = draw(st.sampled_from(['name', 'num_categories', 'shape',
                                  'chain_length', 'balancing_fn_type']))
    other = draw(st.sampled_from(['model_config.init_sigma',
                                  'model_config.penalty']))
    ovals = draw(st.lists(st.sampled_from(SETTINGS[other]), unique=True,
                          min_size=1, max_size=2))
    runs = []
    for o in ovals:
      if key == 'name':
        runs += [dict(v, **{other: o}) for v in variants]
      elif key == 'balancing_fn_type':
        names = draw(st.lists(st.sampled_from(
            ['gwg', 'dmala', 'path_auxiliary', 'dlmc']), unique=True,
            min_size=1, max_size=3))
        fns = sorted(FN)[:draw(st.integers(2, 4))] if o == ovals[0] else fns
        runs += [{'sampler_config.name': n, 'sampler_config.balancing_fn_type':
                  f, other: o} for n in names for f in fns]
      else:
        full = [k for k in SETTINGS if k.endswith('.' + key)][0]
        # one tick set for the whole report, as the shared axis needs
        ticks = SETTINGS[full][:2 + case_bit(draw, st)] if o == ovals[0] \
            else ticks
        runs += [dict(v, **{other: o, full: t}) for v in variants
                 for t in ticks]
    runs = draw(st.permutations(runs))
    model = draw(st.sampled_from(
        ['potts', 'ising', 'bernoulli', 'categorical', 'fhmm', 'rbm',
         'text'] if kind == 'ess' else ['maxcut', 'mis', 'lm']))
    return dict(kind=kind, key=key, runs=list(runs), model=model, single=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))
  return s()


def case_bit(draw, st):
  return draw(st.integers(0, 1))


# ------------------------------------------------- the other plot scripts
SCRIPTS = ('discs.plot_results.plot_', 'discs.common.normcut_evaluator')


def load_script(name):
  """A plotting script, imported afresh: the flags of the scripts clash."""
  import importlib
  import sys
  from absl import flags
  full = name if '.' in name else 'discs.plot_results.' + name
  F = flags.FLAGS
  for f in list(F):
    mod = F.find_module_defining_flag(f)
    if mod and mod.startswith(SCRIPTS):
      delattr(F, f)
  sys.modules.pop(full, None)
  mod = importlib.import_module(full)
  if not F.is_parsed():
    F(['x'])
  return mod


class Figures:
  """Records what is on a figure whenever it is saved."""

  def __enter__(self):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import figure
    self.saved, self.old = [], figure.Figure.savefig
    rec = self.saved

    def savefig(fig, fname, *a, **k):
      rec.append((str(fname), [self.axes(ax) for ax in fig.get_axes()]))
      with open(fname, 'w') as f:
        f.write('x')
    figure.Figure.savefig = savefig
    return self

  @staticmethod
  def axes(ax):
    leg = ax.get_legend()
    return dict(
        xlabel=ax.get_xlabel(),
        lines=[(l.get_label(), np.array(l.get_xdata(), float),
                np.array(l.get_ydata(), float)) for l in ax.get_lines()],
        bands=[np.concatenate([p.vertices for p in c.get_paths()])
               for c in ax.collections if c.get_paths()],
        legend=[t.get_text() for t in leg.get_texts()] if leg else None)

  def __exit__(self, *a):
    from matplotlib import figure
    import matplotlib.pyplot as plt
    figure.Figure.savefig = self.old
    plt.close('all')


def check_through_time(case):
  from absl import flags
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  mod = load_script('plot_co_through_time')
  F = flags.FLAGS
  r = core.rng_of('through', case['seed'])
  cwd = os.getcwd()
  truth = []
  with exper.scratch() as d:
    try:
      os.chdir(d)
      root = './discs-%s-x' % case['graph']
      os.makedirs(root)
      for i, s in enumerate(case['runs']):
        cfg = common_configs.get_config()
        cfg.experiment.save_root = os.path.join(root, encode(i + 1, s))
        saver = experiment_saver.build_saver(cfg)
        T, n = case['T'][i % len(case['T'])], case['inst'] + i % 2
        lo, hi = case['range']
        traj = np.sort(r.uniform(lo, hi, size=(T, n)), axis=0)
        rt = float(r.uniform(0.5, 100))
        saver.save_co_resuts(list(traj), traj[-1], rt, [])
        truth.append((traj, rt))
      if case['empty']:
        e = dict(case['runs'][0])
        os.makedirs(os.path.join(root, encode(len(case['runs']) + 1, e)))
      F.gcs_results_path, F.graphtype = root, case['graph']
      with Figures() as figs:
        mod.main(['x'])
    finally:
      os.chdir(cwd)
  groups = {}
  skip = SAMPLER_KEYS + ('log_every_steps',)
  for i, s in enumerate(case['runs']):
    e = tuple(sorted((k, v) for k, v in expected(s).items() if k not in skip))
    groups.setdefault(e, []).append(i)
  by_file = {}
  for f, axes in figs.saved:
    by_file.setdefault(os.path.splitext(os.path.basename(f))[0], axes)
  core.require(len(by_file) == 2 * len(groups), '%d figures are saved for %d '
               'groups of runs x 2 axes: %s', len(by_file), len(groups),
               sorted(by_file))
  found = []
  for f, axes in by_file.items():
    core.require(len(axes) == 1, '%d axes', len(axes))
    ax = axes[0]
    steps = ax['xlabel'] == 'Steps'
    lines = {l: (x, y) for l, x, y in ax['lines'] if not l.startswith('_')}
    for ids in groups.values():
      names = {display(case['runs'][i]): i for i in ids}
      if set(names) != set(lines) or any(
          lines[n][1].shape != (len(truth[i][0]),) or
          not np.allclose(lines[n][1], truth[i][0].mean(-1), rtol=1e-5,
                          atol=1e-6) for n, i in names.items()):
        continue
      found.append((steps, tuple(ids)))
      for n, i in names.items():
        traj, rt = truth[i]
        x, m = lines[n][0], traj.mean(-1)
        k = int(expected(case['runs'][i]).get('log_every_steps', 1000))
        if steps:
          core.require(np.allclose(np.diff(x), k) and 0 <= x[0] <= k,
                       'step axis %s for a value every %d steps', x, k)
        else:
          want = np.arange(len(m)) / len(m) * 2 * rt
          core.require(np.allclose(x, want, rtol=1e-6, atol=1e-9),
                       'time axis %s instead of %s (%g s recorded for half of '
                       'the chain)', x, want, rt)
        sd = np.clip(traj, 0, None).std(-1)
        pts = np.concatenate([np.stack([x, m - sd], 1),
                              np.stack([x, m + sd], 1)])
        ok = any(all(np.isclose(b, q, rtol=1e-4, atol=1e-5).all(1).any()
                     for q in pts) for b in ax['bands'])
        core.require(ok, 'no band of one standard deviation around %s', n)
      core.require(sorted(ax['legend']) == sorted('sampler=' + n for n in names),
                   'legend %s of samplers %s', ax['legend'], sorted(names))
      last = [truth[names[t.split('=', 1)[1]]][0][-1].mean()
              for t in ax['legend']]
      core.require(all(a >= b - 1e-6 for a, b in zip(last, last[1:])),
                   'legend %s is not sorted by final value %s', ax['legend'],
                   last)
  want = sorted((st, tuple(g)) for g in groups.values() for st in (False, True))
  core.require(sorted(found) == want, 'figures show the runs %s instead of %s; '
               'lines: %s', sorted(found), want,
               [[l[0] for l in a[0]['lines']] for a in by_file.values()])
  return case['graph'], len(case['runs']) > 2


def check_ais(case):
  from absl import flags
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  mod = load_script('plot_ais')
  F = flags.FLAGS
  r = core.rng_of('ais', case['seed'])
  cwd = os.getcwd()
  truth = []
  with exper.scratch() as d:
    try:
      os.chdir(d)
      root = './discs-binary_ebm-logz'
      os.makedirs(root)
      for i, s in enumerate(case['runs']):
        cfg = common_configs.get_config()
        cfg.experiment.save_root = os.path.join(root, encode(i + 1, s))
        logz = r.normal(size=case['T']) * 10
        experiment_saver.build_saver(cfg).save_logz(list(logz))
        truth.append(logz)
      F.gcs_results_path, F.key = root, 'name'
      with Figures() as figs:
        mod.main(['x'])
    finally:
      os.chdir(cwd)
  want = {}
  for i, s in enumerate(case['runs']):
    e = tuple(sorted((k, v) for k, v in expected(s).items()
                     if k not in SAMPLER_KEYS))
    n = display(s).replace('rwm', 'rmw')
    for a, b in (('(r)', '$\\frac{t}{t+1}$'), ('(s)', '$\\sqrt{t}$')):
      n = n.replace(a, b)
    want.setdefault(e, {})[n] = [round(float(v), 4) for v in truth[i]]
  got = {}
  for f, axes in figs.saved:
    got[os.path.splitext(os.path.basename(f))[0]] = {
        l: [round(float(v), 4) for v in y] for l, x, y in axes[0]['lines']}
  ks = lambda t: repr(sorted(t.items()))
  core.require(sorted(map(ks, got.values())) == sorted(map(ks, want.values())),
               'the figures show %s, the saved estimates are %s', got, want)
  return 'g%d' % len(want), len(case['runs']) > 2


def check_tiles(case):
  from discs.plot_results import plot
  r = core.rng_of('tiles', case['seed'])
  n, h, w, c, p = (case[k] for k in ('n', 'h', 'w', 'c', 'pad'))
  imgs = r.integers(0, 256, size=(n, h, w, c)).astype(np.uint8)
  kw = dict(pad_pixels=p, pad_val=case['val'])
  side = int(np.ceil(np.sqrt(n)))
  cols, rows = side, side
  if case['cols'] and n % case['cols'] == 0:
    kw['num_col'] = cols = case['cols']
    rows = n // cols
  got = np.asarray(plot.np_tile_imgs(imgs, **kw))
  H, W = rows * (h + 2 * p) - 2 * p, cols * (w + 2 * p) - 2 * p
  want = np.full((H, W, c), case['val'], np.uint8)
  for i in range(n):
    y, x = (i // cols) * (h + 2 * p), (i % cols) * (w + 2 * p)
    want[y:y + h, x:x + w] = imgs[i]
  if c == 1:
    want = want[..., 0]
  core.require(got.shape == want.shape and np.array_equal(got, want),
               '%d images of %s tiled with %s differ from the sheet with image '
               'i in row i // %d, column i %% %d', n, (h, w, c), kw, cols, cols)
  return 'c%d/pad%d' % (c, p), n > 1


def check_sheet(case):
  """The image file of sampled states shows them in order."""
  import io
  from PIL import Image
  from discs.plot_results import plot
  r = core.rng_of('sheet', case['seed'])
  n, h, w = case['n'], case['h'], case['w']
  x = r.integers(0, 2, size=(1, n, h * w))
  with exper.scratch() as d:
    f = os.path.join(d, 'a.png')
    plot.plot_shareded_image(f, np.asarray(x), h, w, 1, rescale=255.0,
                             max_num_plot=case['top'])
    with open(f, 'rb') as fh:
      got = np.array(Image.open(io.BytesIO(fh.read())))
  m = min(n, case['top'])
  side = int(np.ceil(np.sqrt(m)))
  core.require(got.shape == (side * (h + 2) - 2, side * (w + 2) - 2),
               '%d samples of %s on a sheet of %s', m, (h, w), got.shape)
  for i in range(m):
    yy, xx = (i // side) * (h + 2), (i % side) * (w + 2)
    core.require(np.array_equal(got[yy:yy + h, xx:xx + w],
                                x[0, i].reshape(h, w) * 255),
                 'sample %d of %d is not shown in its place', i, m)
  return 'n%d' % min(n, 9), n > 1


def strat_through():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    variants, seen = [], set()
    for _ in range(draw(st.integers(1, 4))):
      v = variant(draw, st)
      if display(v) not in seen:
        seen.add(display(v))
        variants.append(v)
    other = draw(st.sampled_from(['model_config.penalty',
                                  'model_config.cfg_str',
                                  'config.experiment.decay_rate']))
    ovals = draw(st.lists(st.sampled_from(SETTINGS[other]), unique=True,
                          min_size=1, max_size=2))
    extra = draw(st.sampled_from([{}, {'config.experiment.log_every_steps': 1},
                                  {'config.experiment.log_every_steps': 100}]))
    runs = draw(st.permutations([dict(v, **{other: o}, **extra)
                                 for o in ovals for v in variants]))
    return dict(runs=list(runs), graph=draw(st.sampled_from(
        ['mis', 'maxclique', 'maxcut'])),
        T=draw(st.lists(st.one_of(st.integers(1, 12), st.integers(40, 120)),
                        min_size=1, max_size=2)),
        inst=draw(st.integers(1, 4)),
        range=draw(st.sampled_from([[0.2, 1.1], [-50.0, 40.0], [-3.0, -1.0]])),
        empty=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))
  return s()


def strat_ais():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    variants, seen = [], set()
    for _ in range(draw(st.integers(1, 4))):
      v = variant(draw, st)
      if display(v) not in seen:
        seen.add(display(v))
        variants.append(v)
    ovals = draw(st.lists(st.sampled_from(SETTINGS['model_config.init_sigma']),
                          unique=True, min_size=1, max_size=2))
    runs = draw(st.permutations([dict(v, **{'model_config.init_sigma': o})
                                 for o in ovals for v in variants]))
    return dict(runs=list(runs), T=draw(st.integers(1, 9)),
                seed=draw(st.integers(0, 10**6)))
  return s()


def strat_tiles():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      n=st.integers(1, 40), h=st.integers(1, 5), w=st.integers(1, 5),
      c=st.sampled_from([1, 3]), pad=st.integers(0, 3), val=st.integers(0, 255),
      cols=st.integers(0, 6), seed=st.integers(0, 10**6)))


def strat_sheet():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      n=st.integers(1, 20), h=st.integers(1, 5), w=st.integers(1, 5),
      top=st.integers(1, 25), seed=st.integers(0, 10**6)))


def check_pictures(case):
  """Samples saved with visualisation on: one picture per step and chain."""
  import jax.numpy as jnp
  from PIL import Image
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  T, B, side = case['T'], case['B'], case['side']
  r = core.rng_of('pictures', case['seed'])
  x = (r.random((T, B, side * side)) < case['p']).astype(np.int32)
  with exper.scratch() as d:
    cfg = common_configs.get_config()
    cfg.experiment.save_root = os.path.join(d, 'out')
    saver = experiment_saver.build_saver(cfg)
    saver.dump_samples([jnp.asarray(v) for v in x], visualize=True)
    back = exper.load_pickle(os.path.join(d, 'out', 'samples.pkl'))
    pics = {}
    for root, _, names in os.walk(d):
      for n in names:
        if not n.endswith('.pkl'):
          pics[n] = np.array(Image.open(os.path.join(root, n)).convert('L'))
  core.require(np.array_equal(np.array(back['trajectory']), x),
               'the saved samples differ from the chain')
  core.require(len(pics) == T * B, '%d pictures for %d steps of %d chains: %s',
               len(pics), T, B, sorted(pics)[:4])
  # which picture is which is read off its name: the step and chain numbers
  import re
  for n, img in pics.items():
    nums = [int(v) for v in re.findall(r'\d+', n.rsplit('.', 1)[0])]
    core.require(len(nums) == 2 and nums[0] < T and nums[1] < B,
                 'picture %r names no step and chain', n)
    want = x[nums[0], nums[1]].reshape(side, side)
    core.require(img.shape == want.shape, 'picture %r of %s has shape %s', n,
                 want.shape, img.shape)
    if want.min() != want.max():
      wrong = np.mean((img > 127) != (want == 1))
      core.require(wrong <= 0.06, 'picture %r shows another sample: %d%% of '
                   'the pixels differ', n, 100 * wrong)
  return '%dx%d' % (T, B), T > 1 and B > 1


def check_curves(case):
  """The acceptance and distance curves of a run."""
  import jax.numpy as jnp
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  r = core.rng_of('curves', case['seed'])
  acc = r.random(case['n']).astype(np.float32)
  hops = (r.random(case['n']) * 20).astype(np.float32)
  opts = {k.split('.')[-1]: v for k, v in case['variant'].items()}
  with exper.scratch() as d, Figures() as figs:
    cfg = common_configs.get_config()
    cfg.experiment.save_root = os.path.join(d, 'out')
    cfg.experiment.get_additional_metrics = case['on']
    cfg.experiment.evaluator = case['evaluator']
    cfg.model.update(dict(name='ising', shape=(3, 3), num_categories=2))
    cfg.sampler.update(opts)
    saver = experiment_saver.build_saver(cfg)
    for _ in range(case['times']):
      saver.save_results([jnp.float32(v) for v in acc],
                         [jnp.float32(v) for v in hops],
                         [jnp.ones(2)] * 4, 3.5)
    table = os.path.exists(os.path.join(d, 'out', 'results.csv'))
  core.require(table == (case['evaluator'] == 'ess_eval'),
               'an effective-sample-size table is %s for evaluator %s',
               'written' if table else 'missing', case['evaluator'])
  if not case['on']:
    core.require(not figs.saved, 'curves are drawn although they are off: %s',
                 [f[0] for f in figs.saved])
    return 'off', False
  for name, want in (('acc', acc), ('hops', hops)):
    mine = [f for f in figs.saved if name in os.path.basename(f[0]).lower()]
    core.require(len(mine) == case['times'], '%d pictures of %s: %s',
                 len(mine), name, [f[0] for f in figs.saved])
    for f, axes in mine:
      lines = [l for a in axes for l in a['lines']]
      core.require(len(lines) == 1, '%s shows %d curves', f, len(lines))
      _, xs, ys = lines[0]
      core.require(np.array_equal(xs, 1 + np.arange(case['n'])),
                   'the steps of %s are %s', f, xs)
      core.require(np.allclose(ys, want, rtol=1e-6), '%s shows %s instead of '
                   '%s', f, ys, want)
  return 'on', True


def strat_pictures():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      T=st.integers(1, 3), B=st.integers(1, 4), side=st.integers(2, 14),
      p=st.sampled_from([0.1, 0.5, 0.9]), seed=st.integers(0, 10**6)))


def strat_curves():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    return dict(variant=variant(draw, st), n=draw(st.integers(1, 40)),
                on=draw(st.sampled_from([True, True, False])),
                evaluator=draw(st.sampled_from(['ess_eval', 'co_eval',
                                                'bernoulli_eval'])),
                times=draw(st.integers(1, 2)),
                seed=draw(st.integers(0, 10**6)))
  return s()


STRATA = [
    core.Stratum('decode', strat_decode, check_decode, 3000, 80000),
    core.Stratum('groups', strat_groups, check_groups, 3000, 80000),
    core.Stratum('shipped', strat_shipped, check_shipped, 160, 1600),
    core.Stratum('report', strat_report, check_report, 960, 20000),
    core.Stratum('saved', strat_saved, check_saved, 240, 8000),
    core.Stratum('through-time', strat_through, check_through_time, 200, 6000),
    core.Stratum('ais', strat_ais, check_ais, 96, 3000),
    core.Stratum('tiles', strat_tiles, check_tiles, 800, 40000),
    core.Stratum('sheet', strat_sheet, check_sheet, 160, 4000),
    core.Stratum('pictures', strat_pictures, check_pictures, 120, 4000),
    core.Stratum('curves', strat_curves, check_curves, 120, 4000),
]
RULE = ('decode: generated run settings, written as the launcher writes the '
        'result directory name, are decoded and displayed. groups: 2-10 runs '
        'sharing their keys, grouped by a swept key against equality of all '
        'other settings. shipped: runs from every shipped sweep. report: '
        'result directories written by the real saver and read by the real '
        'plot_results.main; tables (co, lm) and bars (ess) are compared with '
        'what was saved. saved: one run\'s table row, label and pickles against '
        'what was handed to the saver. through-time and ais: the lines, '
        'bands, axes and legends of the other plot scripts against saved '
        'trajectories. tiles and sheet: image sheets against a direct '
        'tiling. pictures and curves: what the saver draws of one run. '
        'Non-trivial: more than two settings; several groups, '
        'one with several runs; several runs; more than two runs.')
ASSUMPTIONS = ['runs of one report set the same keys apart from sampler '
               'options, and an ESS report is over a complete sweep',
               'directory names follow the launcher\'s rule (the launcher '
               'itself needs XManager and cannot be imported here)']
