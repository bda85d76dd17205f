"""Runs small experiments for the demonstrations of planted changes."""
import importlib, os, pickle, shutil, sys, tempfile, atexit
import numpy as np, jax, jax.numpy as jnp, ml_collections, networkx as nx
tmp = tempfile.mkdtemp(); atexit.register(shutil.rmtree, tmp, True)


def expect(cond, msg):
  if not cond:
    print('PROPERTY BROKEN:', msg); sys.stdout.flush()
    shutil.rmtree(tmp, True); os._exit(1)


def put(path, *objs):
  p = os.path.join(tmp, path); os.makedirs(os.path.dirname(p), exist_ok=True)
  with open(p, 'wb') as f:
    for o in objs: pickle.dump(o, f)


def base(model, sampler, exp):
  from discs.common import configs
  c = configs.get_config()
  with c.unlocked():
    c.model.update(model); c.sampler.update(sampler)
    out = tempfile.mkdtemp(dir=tmp)
    c.experiment.update(dict(save_root=out, run_parallel=False)); c.experiment.update(exp)
  return c, out


def run(c, sampler=None, model=None):
  from discs.experiment import sampling
  from discs.common import experiment_saver
  model = model or importlib.import_module('discs.models.' + c.model.name).build_model(c)
  sampler = sampler or importlib.import_module('discs.samplers.' + c.sampler.name).build_sampler(c)
  ev = importlib.import_module('discs.evaluators.' + c.experiment.evaluator).build_evaluator(c)
  ex = getattr(sampling, c.experiment.name)(c)
  sv = experiment_saver.build_saver(c)
  ex.get_results(model, sampler, ev, sv)
  return model


class Script:
  """A sampler that replays given samples: rows[t] is the batch of step t."""

  def __init__(self, rows): self.rows = jnp.asarray(rows); self.temps = []
  def make_init_state(self, rng):
    return dict(steps=jnp.zeros((), jnp.int32), num_ll_calls=jnp.zeros((), jnp.int32))
  def step(self, model, rng, x, model_param, state, x_mask=None):
    t = state['steps']
    new = self.rows[t].reshape(x.shape).astype(x.dtype)
    if 'temperature' in model_param:
      jax.debug.callback(lambda a: self.temps.append(float(a)), model_param['temperature'])
    return new, dict(steps=t + 1, num_ll_calls=state['num_ll_calls'] + 2), jnp.float32(.5)


def co(graphs, rows, model='maxcut', B=2, T=6, nm=1, **exp):
  """Optimisation run on max-cut graphs with scripted samples."""
  from discs.experiment.configs import co_experiment
  put('maxcut-er/maxcut-r/test-0.pkl', *[(g, (1.0,)) for g in graphs])
  e = co_experiment.get_co_default_config().to_dict()
  e.update(batch_size=B, chain_length=T, num_models=nm, log_every_steps=1, save_samples=True,
           t_schedule='constant', init_temperature=1., final_temperature=.1, decay_rate=.1)
  e.update(exp)
  m = dict(name='maxcut', graph_type='er', rand_type='r', data_root=tmp, max_num_nodes=0, max_num_edges=0, num_instances=0, num_models=nm, num_categories=2, shape=(0,))
  c, out = base(m, dict(name='x'), e)
  s = Script(rows)
  run(c, s); jax.effects_barrier()
  return pickle.load(open(out + '/results.pkl', 'rb')), s
