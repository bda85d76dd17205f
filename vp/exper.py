"""Runs the repository's experiments end to end and records what they did.

The experiment, evaluator and saver are the real ones, built from a full
configuration.  The model's instance stream and the sampler are wrapped only
to observe: each instance carries an extra parameter leaf `vp_id` (its slot in
the delivery order) and each sampler step reports (slot, step, temperature,
mask, new sample) through jax.debug.callback.  The sampler inside is either a
real one or `Scripted`, whose samples are a known function of slot and step.
"""
import contextlib
import importlib
import os
import pickle
import shutil
import tempfile

import numpy as np

from vp import core

NDEV = 4


def warm():
  import jax  # noqa: F401
  import optax  # noqa: F401
  from discs.common import configs  # noqa: F401
  from discs.common import experiment_saver  # noqa: F401
  from discs.experiment import sampling  # noqa: F401
  for n in ('co_eval', 'ess_eval'):
    importlib.import_module('discs.evaluators.%s' % n)
  from vp import comb, samp
  comb.warm()
  samp.warm()


@contextlib.contextmanager
def devices(n):
  """The host seen as having n local devices."""
  import jax
  real = jax.devices()
  if len(real) < n:
    raise core.HarnessError('only %d devices' % len(real))
  old = {k: getattr(jax, k) for k in ('local_device_count', 'local_devices',
                                      'device_count', 'devices')}
  try:
    jax.local_device_count = lambda *a, **k: n
    jax.device_count = lambda *a, **k: n
    jax.local_devices = lambda *a, **k: real[:n]
    jax.devices = lambda *a, **k: real[:n]
    yield
  finally:
    for k, v in old.items():
      setattr(jax, k, v)


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='run-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


class Scripted:
  """A sampler whose t-th samples of slot i are rows of table[i][t].

  Which rows a call gets depends on its key, so devices differ.  Instances are
  told apart by the parameter leaf vp_id.
  """

  def __init__(self, table):
    self.table = table            # (slots, T+1, B) + shape

  def make_init_state(self, rng):
    import jax.numpy as jnp
    return dict(steps=jnp.ones((), jnp.int32),
                num_ll_calls=jnp.zeros((), jnp.int32))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    import jax
    import jax.numpy as jnp
    t = state['steps']
    ident = model_param['vp_id'] if 'vp_id' in model_param else 0
    rows = jnp.asarray(self.table)[ident, t].astype(x.dtype)
    b = rows.shape[0]
    pick = (jax.random.randint(rng, (), 0, b) + jnp.arange(x.shape[0])) % b
    new = rows[pick].reshape(x.shape)
    st = dict(steps=t + 1, num_ll_calls=state['num_ll_calls'] + 3)
    return new, st, jax.random.uniform(jax.random.fold_in(rng, 7))


class Observed:
  """Wraps a sampler; every step is reported to `events`."""

  def __init__(self, inner, ids=True):
    self.inner = inner
    self.ids = ids
    self.events = []
    self.keys = []                # (slot, step, random key) of every step

  def make_init_state(self, rng):
    import jax.numpy as jnp
    st = self.inner.make_init_state(rng)
    st = dict(st)
    st['vp_n'] = jnp.zeros((), jnp.int32)
    st['vp_key'] = jnp.zeros((), jnp.uint32)
    return st

  def step(self, model, rng, x, model_param, state, x_mask=None):
    import jax
    import jax.numpy as jnp
    st = {k: v for k, v in state.items() if k not in ('vp_n', 'vp_key')}
    n = state['vp_n'] + 1
    param = {k: v for k, v in model_param.items() if k != 'vp_id'} \
        if not isinstance(self.inner, Scripted) else model_param
    kw = {} if x_mask is None else dict(x_mask=x_mask)
    new, st2, acc = self.inner.step(model=model, rng=rng, x=x,
                                    model_param=param, state=st, **kw)
    st2 = dict(st2)
    st2['vp_n'] = n
    # the key of the first step tells devices apart
    st2['vp_key'] = jnp.where(n == 1, jnp.ravel(rng)[-1], state['vp_key'])
    ident = model_param['vp_id'] if self.ids else st2['vp_key']
    temp = model_param['temperature'] if 'temperature' in model_param else \
        jnp.float32(0)
    mask = jnp.ones((1,), bool) if x_mask is None else x_mask
    calls = jnp.asarray(st2.get('num_ll_calls', 0))

    def rec(i, n, t, m, x, y, a, k, r):
      self.keys.append((int(i), int(n), tuple(np.ravel(r).tolist())))
      self.events.append((int(i), int(n), float(t), np.array(m), np.array(x),
                          np.array(y), np.array(a), int(k)))

    jax.debug.callback(rec, ident, n, temp, mask, x, new, acc, calls, rng)
    return new, st2, acc


def fresh(keys, round_of=lambda i: 0):
  """No two steps of one run (or of one round of instances) share a key."""
  seen = {}
  for i, n, k in keys:
    at = seen.setdefault((round_of(i), k), (i, n))
    core.require(at == (i, n) and seen.get((round_of(i), k, 'n'), 0) == 0,
                 'step %d and step %d of a run use the same random key', at[1],
                 n)
    seen[round_of(i), k, 'n'] = 1


def flush():
  import jax
  jax.effects_barrier()


class SaverLog:
  """Observes the arguments given to the real saver."""

  def __init__(self, inner):
    self.inner = inner
    self.calls = []

  def __getattr__(self, name):
    fn = getattr(self.inner, name)
    if not callable(fn) or name.startswith('_'):
      return fn

    def wrapped(*a, **k):
      import inspect
      bound = inspect.signature(fn).bind(*a, **k)
      self.calls.append((name, tuple(bound.arguments.values()), {}))
      return fn(*a, **k)

    return wrapped


def load_pickle(path):
  core.require(os.path.exists(path), 'the run wrote no %s (it wrote %s)',
               os.path.basename(path), sorted(os.listdir(
                   os.path.dirname(path))))
  with open(path, 'rb') as f:
    return pickle.load(f)


# ------------------------------------------------------ optimisation runs
class CoRun:
  """One CO_Experiment run on generated graph files."""


def run_co(case, ds):
  """case: dataset case + B, T, log_every, schedule, ess_ratio, save_samples,
  devices (0 = run_parallel off), sampler ('scripted' or a real name)."""
  from discs.common import configs as common_configs
  from discs.experiment import sampling
  from discs.experiment.configs import co_experiment
  from discs.common import experiment_saver
  from discs.evaluators import co_eval
  cfg = common_configs.get_config()
  mcfg = ds.config()
  with scratch() as out, devices(case['devices'] or 1):
    cfg.model.update(mcfg.model.to_dict())
    exp = co_experiment.get_co_default_config().to_dict()
    exp.update(batch_size=case['B'], chain_length=case['T'],
               ess_ratio=case['ess_ratio'], log_every_steps=case['log_every'],
               save_samples=case['save_samples'], save_root=out,
               run_parallel=case['devices'] > 0,
               num_models=case['num_models'], t_schedule=case['schedule'],
               init_temperature=case['t0'], final_temperature=case['t1'],
               decay_rate=case['decay'],
               get_additional_metrics=case.get('extra', False))
    cfg.experiment.update(exp)
    model = importlib.import_module(
        'discs.models.%s' % ds.model_name).build_model(cfg)
    slots = []
    inner_params = model.make_init_params

    def make_init_params(rng):
      data = inner_params(rng)
      if data is None:
        return None
      res = []
      for idx, params, ref in data:
        params = dict(params)
        params['vp_id'] = np.int32(len(slots))
        slots.append(int(idx))
        res.append((idx, params, ref))
      return res

    model.make_init_params = make_init_params
    n = int(cfg.model.shape[0])
    K = int(cfg.model.num_categories)
    total = -(-len(ds.expected) // case['num_models']) * case['num_models']
    if case['sampler'] == 'scripted':
      r = core.rng_of('script', case['seed'])
      table = r.integers(0, K, size=(total, case['T'] + 2, case['B'], n))
      inner = Scripted(table.astype(np.int8))
    else:
      mod = importlib.import_module('discs.samplers.configs.%s_config' %
                                    case['sampler'])
      cfg.sampler.update(mod.get_config())
      cfg.sampler.update(case.get('opts', {}))
      inner = importlib.import_module(
          'discs.samplers.%s' % cfg.sampler.name).build_sampler(cfg)
    sampler = Observed(inner)
    saver = SaverLog(experiment_saver.build_saver(cfg))
    experiment = sampling.CO_Experiment(cfg)
    experiment.get_results(model, sampler, co_eval.build_evaluator(cfg), saver)
    flush()
    res = CoRun()
    res.slots, res.n, res.K = slots, n, K
    res.events, res.keys = sampler.events, sampler.keys
    res.results = load_pickle(os.path.join(out, 'results.pkl'))
    res.files = sorted(os.listdir(out))
    res.calls = saver.calls
    return res


# ------------------------------------------------------ sampling runs
class ObservedEval:
  """Reports the chain handed to evaluate; otherwise the real evaluator."""

  def __init__(self, inner):
    self.inner = inner
    self.seen = []

  def __getattr__(self, name):
    return getattr(self.inner, name)

  def evaluate(self, samples, rnd):
    import jax
    jax.debug.callback(lambda v: self.seen.append(np.array(v)), samples)
    return self.inner.evaluate(samples=samples, rnd=rnd)


class SamplingRun:
  """One Sampling_Experiment run."""


def sampling_config(case, out, model_extra=()):
  """Full configuration the way main_sampling merges it."""
  from discs.common import configs as common_configs
  from vp import mods
  cfg = common_configs.get_config()
  name = case.get('sampler')
  if name and name != 'scripted':
    mod = importlib.import_module('discs.samplers.configs.%s_config' % name)
    cfg.sampler.update(mod.get_config())
    cfg.sampler.update(case.get('opts', {}))
  cfg.model.update(mods.config(case).model)
  cfg.model.update(dict(model_extra))
  exp = dict(batch_size=case['B'], chain_length=case['T'], save_root=out,
             run_parallel=case['devices'] > 0)
  exp.update(case.get('exp', {}))
  cfg.experiment.update(exp)
  return cfg


def run_sampling(case, model_extra=()):
  from discs.common import experiment_saver
  from discs.evaluators import ess_eval
  from discs.experiment import sampling
  with scratch() as out, devices(case['devices'] or 1):
    cfg = sampling_config(case, out, model_extra)
    model = importlib.import_module(
        'discs.models.%s' % cfg.model.name).build_model(cfg)
    shape = tuple(cfg.model.shape)
    K = int(cfg.model.num_categories)
    if case['sampler'] == 'scripted':
      r = core.rng_of('script', case['seed'])
      inner = Scripted(r.integers(
          0, K, size=(1, case['T'] + 2, case['B']) + shape).astype(np.int8))
      cfg.sampler.name = 'scripted'
    else:
      inner = importlib.import_module(
          'discs.samplers.%s' % cfg.sampler.name).build_sampler(cfg)
    made = []
    inner_params = model.make_init_params

    def make_init_params(rng):
      made.append(inner_params(rng))
      return made[-1]

    model.make_init_params = make_init_params
    sampler = Observed(inner, ids=False)
    saver = SaverLog(experiment_saver.build_saver(cfg))
    ev = ObservedEval(ess_eval.build_evaluator(cfg))
    sampling.Sampling_Experiment(cfg).get_results(model, sampler, ev, saver)
    flush()
    res = SamplingRun()
    res.dim, res.K, res.shape = int(np.prod(shape)), K, shape
    res.events, res.seen, res.calls = sampler.events, ev.seen, saver.calls
    res.keys = sampler.keys
    res.files = sorted(f for f in os.listdir(out))
    import csv
    core.require('results.csv' in res.files, 'the run wrote %s', res.files)
    with open(os.path.join(out, 'results.csv')) as f:
      rows = list(csv.DictReader(f))
    core.require(len(rows) == 1, 'results.csv has %d rows', len(rows))
    res.row = rows[0]
    res.samples = load_pickle(os.path.join(out, 'samples.pkl')) \
        if 'samples.pkl' in res.files else None
    res.params = load_pickle(os.path.join(out, 'params.pkl')) \
        if 'params.pkl' in res.files else None
    res.cfg, res.made = cfg, made
    return res


# ------------------------------------------------------ annealed importance
class RefEBM:
  """Base distribution (independent bits) plus a smooth network of ours."""

  def __init__(self, dim, seed, scale, kind):
    r = core.rng_of('refebm', dim, seed)
    self.shape = (dim,)
    self.mean = np.clip(r.uniform(size=dim), 0.05, 0.95).astype(np.float32)
    self.p = dict(a=(r.normal(size=(dim, 3)) * scale).astype(np.float32),
                  c=(r.normal(size=3) * scale).astype(np.float32),
                  k=np.float32(np.round(r.normal() * 3, 3)))
    if kind == 'const':
      self.p['a'] *= 0

  def make_init_params(self, rng):
    import jax.numpy as jnp
    return {k: jnp.asarray(v) for k, v in self.p.items()}

  def get_init_samples(self, rng, num_samples):
    import jax
    import jax.numpy as jnp
    return jax.random.bernoulli(rng, self.mean, (num_samples,) + self.shape
                                ).astype(jnp.int32)

  def net(self, p, x):
    import jax.numpy as jnp
    return jnp.sum(p['c'] * jnp.tanh(x @ p['a']), -1) + p['k']

  def base(self, x):
    import jax.numpy as jnp
    return jnp.sum(x * jnp.log(self.mean) + (1 - x) * jnp.log1p(-self.mean), -1)

  def forward(self, params, x):
    import jax.numpy as jnp
    x = jnp.asarray(x).astype(jnp.float32).reshape((-1,) + self.shape)
    beta = params['temperature'] if 'temperature' in params else 1.0
    return self.base(x) + beta * self.net(params, x)

  def get_value_and_grad(self, params, x):
    import jax
    import jax.numpy as jnp
    x = x.astype(jnp.float32)

    def fun(z):
      ll = self.forward(params, z)
      return jnp.sum(ll), ll

    (_, ll), g = jax.value_and_grad(fun, has_aux=True)(x)
    return ll, g

  def np_net(self, x):
    p = {k: np.asarray(v, np.float64) for k, v in self.p.items()}
    x = np.asarray(x, np.float64)
    return (p['c'] * np.tanh(x @ p['a'])).sum(-1) + p['k']


class AisRun:
  """One EBM_Experiment run."""


def run_ais(case, model, cfg_model):
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  from discs.evaluators import ess_eval
  from discs.experiment import sampling
  with scratch() as out, devices(case['devices'] or 1):
    cfg = common_configs.get_config()
    name = case['sampler']
    if name != 'scripted':
      mod = importlib.import_module('discs.samplers.configs.%s_config' % name)
      cfg.sampler.update(mod.get_config())
      cfg.sampler.update(case.get('opts', {}))
    cfg.model.update(cfg_model)
    cfg.experiment.update(dict(
        name='EBM_Experiment', batch_size=case['B'], chain_length=case['T'],
        save_root=out, run_parallel=case['devices'] > 0))
    if name == 'scripted':
      r = core.rng_of('script', case['seed'])
      inner = Scripted(r.integers(0, 2, size=(
          1, case['T'] + 2, case['B']) + tuple(cfg.model.shape)).astype(
              np.int8))
    else:
      inner = importlib.import_module(
          'discs.samplers.%s' % cfg.sampler.name).build_sampler(cfg)
    sampler = Observed(inner, ids=False)
    sampling.EBM_Experiment(cfg).get_results(
        model, sampler, ess_eval.build_evaluator(cfg),
        experiment_saver.build_saver(cfg))
    flush()
    res = AisRun()
    res.events, res.keys = sampler.events, sampler.keys
    res.dim = int(np.prod(cfg.model.shape))
    res.logz = load_pickle(os.path.join(out, 'logz.pkl'))
    return res
