"""Stand-ins for packages that are not installed; expectations."""
import importlib, os, sys, types, tempfile, pickle, argparse
import numpy as np
for n in ('torch', 'torchvision', 'torchvision.transforms', 'torchvision.datasets',
          'torch.utils', 'torch.utils.data', 'tensorflow_datasets'):
  try:
    importlib.import_module(n)
  except ImportError:
    m = types.ModuleType(n); m.__path__ = []; sys.modules[n] = m
    if '.' in n:
      a, b = n.rsplit('.', 1); setattr(sys.modules[a], b, m)
import ml_collections, jax, jax.numpy as jnp
from flax import jax_utils

def expect(ok, msg):
  if not ok:
    print('DEMO FAILS:', msg); sys.exit(1)

def exp(**k):
  d = dict(learning_rate=.1, lr_schedule='constant', warmup_frac=.05, total_train_steps=4,
           optimizer='sgd', grad_norm=0., weight_decay=0., ema_decay=.9, batch_size=4,
           save_root='', log_every_steps=100, plot_every_steps=100, save_every_steps=100,
           pcd_steps=1, p_control=0., energy_l2=0., buffer_size=8, buffer_init='mean',
           reinit_freq=0., fig_folder='')
  d.update(k); return d

class Roll:
  """A sampler whose effect is known."""
  two = True
  def make_init_state(self, rng):
    return dict(n=jnp.zeros((), jnp.int32), log=jnp.zeros((40, 2), jnp.uint32))
  def step(self, model, rng, x, model_param, state, x_mask=None):
    st = dict(n=state['n'] + 1, log=state['log'].at[state['n']].set(rng))
    return (1 - x, st) if self.two else (1 - x, st, jnp.float32(1))

class Quad:
  def make_init_params(self, rng): return {'w': jnp.ones(2)}
  def get_init_samples(self, rng, num_samples): return jnp.zeros((num_samples, 2), jnp.int32)
