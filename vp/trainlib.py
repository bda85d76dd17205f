"""Stand-ins that let the training programs be imported and run here.

torch, torchvision and tensorflow_datasets are not installed; the training code
only needs them to fetch data.  Stubs are installed only where the import fails.
"""
import contextlib
import importlib
import sys
import types

import numpy as np

STUBS = ('torch', 'torchvision', 'torchvision.transforms',
         'torchvision.datasets', 'torch.utils', 'torch.utils.data',
         'tensorflow_datasets')


def stub_modules():
  for n in STUBS:
    try:
      importlib.import_module(n)
    except ImportError:
      m = types.ModuleType(n)
      m.__vp_stub__ = True
      m.__path__ = []
      sys.modules[n] = m
      if '.' in n:
        a, b = n.rsplit('.', 1)
        setattr(sys.modules[a], b, m)


FLAGS_USED = ('config', 'seed', 'save_root', 'pt_path')


@contextlib.contextmanager
def program(modname, argv):
  """The training program imported afresh with the given command line."""
  from absl import flags
  stub_modules()
  F = flags.FLAGS

  def clear():
    for n in list(F):
      if n.split('.')[0] in FLAGS_USED:
        delattr(F, n)

  old = sys.argv
  sys.argv = ['train'] + argv
  try:
    clear()
    sys.modules.pop(modname, None)
    m = importlib.import_module(modname)
    F(sys.argv)
    yield m
  finally:
    sys.argv = old
    clear()
    sys.modules.pop(modname, None)


@contextlib.contextmanager
def module(modname):
  """The program as a module, for its classes; no command line."""
  from absl import flags
  stub_modules()
  F = flags.FLAGS

  def clear():
    for n in list(F):
      if n.split('.')[0] in FLAGS_USED:
        delattr(F, n)

  clear()
  sys.modules.pop(modname, None)
  try:
    yield importlib.import_module(modname)
  finally:
    clear()
    sys.modules.pop(modname, None)


# ------------------------------------------------- reference optimisers
def lr_at(cfg, step):
  """The learning rate the schedule defines for update number `step` (from 0)."""
  lr, kind = cfg['learning_rate'], cfg['lr_schedule']
  if kind == 'constant':
    return lr
  w = int(cfg['warmup_frac'] * cfg['total_train_steps'])
  if step < w:
    return lr * step / w
  k = step - w
  if kind == 'updown':
    n = cfg['total_train_steps'] - w
    f = min(k / n, 1.0)
    return lr + (0.01 * lr - lr) * f
  return max(lr * 0.9 ** (k / 20000.0), 1e-6)


class RefOpt:
  """sgd, adam, adamw, lamb in float64 on a dict of arrays."""

  def __init__(self, cfg):
    self.cfg = cfg
    self.t = 0
    self.m = self.v = None

  def update(self, p, g):
    c = self.cfg
    gn = c.get('grad_norm', 0.0)
    if gn > 0:
      norm = np.sqrt(sum((a ** 2).sum() for a in g.values()))
      if norm > gn:
        g = {k: a / norm * gn for k, a in g.items()}
    lr = lr_at(c, self.t)
    self.t += 1
    name = c['optimizer']
    if name == 'sgd':
      return {k: p[k] - lr * g[k] for k in p}
    if self.m is None:
      self.m = {k: 0.0 * a for k, a in g.items()}
      self.v = {k: 0.0 * a for k, a in g.items()}
    b1, b2, eps = 0.9, 0.999, 1e-6 if name == 'lamb' else 1e-8
    out = {}
    for k in p:
      self.m[k] = b1 * self.m[k] + (1 - b1) * g[k]
      self.v[k] = b2 * self.v[k] + (1 - b2) * g[k] ** 2
      mh = self.m[k] / (1 - b1 ** self.t)
      vh = self.v[k] / (1 - b2 ** self.t)
      u = mh / (np.sqrt(vh) + eps)
      if name in ('adamw', 'lamb'):
        u = u + c.get('weight_decay', 0.0) * p[k]
      if name == 'lamb':
        a, b = np.linalg.norm(p[k]), np.linalg.norm(u)
        if a > 0 and b > 0:
          u = u * (a / b)
      out[k] = p[k] - lr * u
    return out
