"""C35: training data and converted checkpoints reach the model unchanged."""
import argparse
import os
import pickle
import types

import numpy as np

from vp import core, exper, imgnet, trainlib


def WARM():
  import jax  # noqa: F401
  import scipy.io  # noqa: F401
  import tensorflow as tf  # noqa: F401
  trainlib.stub_modules()
  from discs.learning import train  # noqa: F401
  from discs.models import resnet  # noqa: F401


def readers():
  trainlib.stub_modules()
  from discs.learning import raw_torch_dataset, train
  return raw_torch_dataset, train


def rows(a):
  a = np.ascontiguousarray(np.asarray(a, np.float64).round(9))
  return sorted(map(bytes, a))


def same_rows(got, want, what):
  got, want = np.asarray(got), np.asarray(want)
  core.require(got.shape == want.shape, '%s has shape %s, the files hold %s',
               what, got.shape, want.shape)
  core.require(rows(got) == rows(want), '%s: the images are not those of the '
               'files (%d of %d rows found)', what,
               len(set(rows(got)) & set(rows(want))), len(want))


def upright(cols, h, w):
  """Column-major pixel vectors -> row-major, pixel by pixel."""
  out = np.zeros_like(cols)
  for i in range(h):
    for j in range(w):
      out[:, i * w + j] = cols[:, j * h + i]
  return out


def pixels(r, shape, kind):
  if kind == 'binary':
    return (r.random(shape) < r.uniform(.1, .9)).astype(np.float64)
  return r.integers(0, 256, size=shape) / 256.0


def check_reader(case):
  import scipy.io
  torch_data, train = readers()
  name = case['name']
  r = core.rng_of('reader', case['seed'])
  n, nv, nt = case['n'], case['nv'], case['nt']
  np.random.seed(case['seed'] % 2**31)
  args = argparse.Namespace(dataset_name=name)
  with exper.scratch() as tmp:
    args.data_dir = tmp
    if name == 'static_mnist':
      d = os.path.join(tmp, 'MNIST_static')
      os.makedirs(d)
      w = case['w']
      want = [pixels(r, (k, w), 'binary') for k in (n, nv, nt)]
      for k, a in zip(('train', 'valid', 'test'), want):
        np.savetxt(os.path.join(d, 'binarized_mnist_%s.amat' % k), a, fmt='%d')
    elif name == 'caltech':
      d = os.path.join(tmp, 'Caltech101Silhouettes')
      os.makedirs(d)
      raw = [pixels(r, (k, 784), 'binary').astype(np.uint8)
             for k in (n, nv, nt)]
      scipy.io.savemat(
          os.path.join(d, 'caltech101_silhouettes_28_split1.mat'),
          dict(train_data=raw[0], val_data=raw[1], test_data=raw[2]))
      want = [1.0 - upright(a.astype(np.float64), 28, 28) for a in raw]
    elif name == 'omniglot':
      d = os.path.join(tmp, 'OMNIGLOT')
      os.makedirs(d)
      nv = 1345
      tr = pixels(r, (n + nv, 784), 'binary' if case['binary'] else 'gray')
      te = pixels(r, (nt, 784), 'binary' if case['binary'] else 'gray')
      scipy.io.savemat(os.path.join(d, 'chardata.mat'), dict(
          data=tr.T.copy(), testdata=te.T.copy()))
      want = [upright(tr, 28, 28), None, upright(te, 28, 28)]
    elif name == 'histopathology':
      d = os.path.join(tmp, 'HistopathologyGray')
      os.makedirs(d)
      raw = [r.random((k, 28, 28)) * 1.2 - .1 for k in (n, nv, nt)]
      with open(os.path.join(d, 'histopathology.pkl'), 'wb') as f:
        pickle.dump(dict(training=list(raw[0]), validation=list(raw[1]),
                         test=list(raw[2])), f)
      want = [np.clip(a.reshape(len(a), 784), 1 / 512, 511 / 512) for a in raw]
      want[0] = want[0].astype(np.float32)
    elif name == 'freyfaces':
      d = os.path.join(tmp, 'Freyfaces')
      os.makedirs(d)
      ff = r.integers(0, 256, size=(560, 1965)).astype(np.uint8)
      scipy.io.savemat(os.path.join(d, 'frey_rawface.mat'), dict(ff=ff))
      whole = ff.T / 256.0
      n, nv, nt = 1565, 200, 200
      want = None
    else:  # dynamic_mnist
      h, w = 2, case['w'] % 3 + 1
      tr = r.integers(0, 256, size=(50000 + nv, h, w)).astype(np.uint8)
      te = r.integers(0, 256, size=(nt, h, w)).astype(np.uint8)
      if case['binary']:
        tr, te = (tr > 99) * 255, (te > 99) * 255

      class Tensor:

        def __init__(self, a):
          self.a = np.asarray(a)

        def float(self):
          return Tensor(self.a.astype(np.float32))

        def numpy(self):
          return self.a

      def mnist(root, train=True, **k):
        core.require(root == tmp, 'MNIST is read from %r', root)
        a = tr if train else te
        return types.SimpleNamespace(data=Tensor(a), targets=Tensor(
            np.zeros(len(a))))
      torch_data.torchvision.datasets.MNIST = mnist
      torch_data.torchvision.transforms.Compose = lambda x: x
      torch_data.torchvision.transforms.ToTensor = lambda: None
      torch_data.torch.utils.data.DataLoader = (
          lambda ds, **k: types.SimpleNamespace(dataset=ds))
      n = 50000
      flat = tr.reshape(len(tr), -1) / 255.0
      want = [flat[:n].astype(np.float32), flat[n:],
              te.reshape(nt, -1) / 255.0]
    if case['whole']:
      got = torch_data.load_raw_dataset(args)
    else:
      got = (train.load_numpyds(name, tmp), None, None)
  x = got[0]
  core.require(x.dtype == np.float32, '%s: training images have type %s', name,
               x.dtype)
  if name == 'omniglot':
    core.require(len(x) == n, '%s: %d training images, expected %d', name,
                 len(x), n)
    pool = rows(want[0].astype(np.float32))
    seen = rows(x)
    left = list(pool)
    from collections import Counter
    c = Counter(pool)
    c.subtract(Counter(seen))
    core.require(min(c.values()) >= 0, '%s: training images that are not in '
                 'the file or appear too often', name)
    if got[1] is not None:
      core.require(got[1].shape == (nv, 784) and got[2].shape == (nt, 784),
                   'validation / test shapes %s %s', got[1].shape, got[2].shape)
      core.require(set(np.unique(got[1])) <= {0, 1} and
                   set(np.unique(got[2])) <= {0, 1}, 'not binarised')
      if case['binary']:
        core.require(rows(got[1]) == sorted(c.elements()), 'training and '
                     'validation images do not partition the file')
        core.require(np.array_equal(got[2], want[2]), 'test images differ')
      else:
        core.require((got[2][want[2] == 0] == 0).all(), 'test images differ')
    del left
  elif name == 'freyfaces':
    core.require(x.shape == (n, 560), 'training images have shape %s', x.shape)
    if got[1] is not None:
      core.require(got[1].shape == (nv, 560) and got[2].shape == (nt, 560),
                   'validation / test shapes %s %s', got[1].shape, got[2].shape)
      same_rows(np.concatenate([np.asarray(g, np.float64) for g in got]), whole,
                'the three freyfaces parts together')
    else:
      core.require(set(rows(x)) <= set(rows(whole)), 'images not in the file')
  else:
    same_rows(x, want[0], name + ' training set')
    if got[1] is not None:
      if name == 'dynamic_mnist':
        for g, w_ in zip(got[1:], want[1:]):
          core.require(g.shape == w_.shape and set(np.unique(g)) <= {0, 1},
                       'validation / test images of shape %s not binarised',
                       g.shape)
          core.require((g[w_ == 0] == 0).all() and (g[w_ == 1] == 1).all(),
                       'black or white pixels changed')
      else:
        same_rows(got[1], want[1], name + ' validation set')
        core.require(np.allclose(got[2], want[2], atol=1e-9),
                     '%s test set differs', name)
  return name, len(x) > 1


def check_unknown(case):
  torch_data, train = readers()
  with exper.scratch() as tmp:
    try:
      train.load_numpyds(case['name'], tmp)
    except ValueError:
      return 'rejected'
  raise core.Violation('the unknown dataset %r was accepted' % case['name'])


# ------------------------------------------------- image statistics
def check_mean(case):
  import tensorflow as tf
  _, train = readers()
  r = core.rng_of('mean', case['seed'])
  h, w, n = case['h'], case['w'], case['n']
  imgs = r.integers(0, 256, size=(n, h, w, 1)).astype(np.uint8)
  imgs[:, r.random((h, w)) < .3] = 0
  imgs[:, r.random((h, w)) < .3] = 255
  ds = tf.data.Dataset.from_tensor_slices({'image': imgs})
  got = train.get_data_mean(ds)
  want = np.clip(imgs.reshape(n, -1).astype(np.float64).mean(0) / 255.0, .01,
                 .99)
  core.require(isinstance(got, list) and len(got) == h * w and
               np.abs(np.asarray(got) - want).max() < 1e-5,
               'mean image %s, expected %s', got, want.tolist())
  return 'mean', n > 1


def check_binarise(case):
  """P(pixel on) is its intensity, pixel by pixel and image by image."""
  import tensorflow as tf
  r = core.rng_of('bin', case['seed'])
  h, w = case['h'], case['w']
  img = r.integers(0, 256, size=(2, h, w, 1)).astype(np.uint8)
  img[:, r.random((h, w)) < .15] = 0
  img[:, r.random((h, w)) < .15] = 255
  img[:, r.random((h, w)) < .15] = 5
  want = img.reshape(2, -1) / 255.0
  with trainlib.module('discs.learning.rbm.main_rbm_training') as m:
    def draw(reps, seed):
      tf.random.set_seed(seed)
      ds = tf.data.Dataset.from_tensor_slices(
          {'image': np.concatenate([img] * reps)}).map(m.data_preprocess)
      out = np.stack([b.numpy() for b in ds.batch(4096)] if reps * 2 % 4096 == 0
                     else [np.concatenate([b.numpy() for b in ds.batch(4096)])])
      return out.reshape(reps, 2, -1)
    out = draw(case['reps'], case['seed'])
    core.require(out.shape[2] == h * w, 'images have %d pixels', out.shape[2])
    out = out.astype(np.float64)
    core.require(set(np.unique(out)) <= {0.0, 1.0}, 'not binary')
    core.require((out[:, want == 0] == 0).all(), 'black pixels were turned on')
    core.require((out[:, want == 1] == 1).all(), 'white pixels were turned off')

    def zmax(out):
      k = len(out)
      z = np.abs(out.mean(0) - want) / np.sqrt(np.maximum(
          want * (1 - want) / k, 1e-6))
      res = (out - want) / np.sqrt(np.maximum(want * (1 - want), 1e-2))
      zc = [0.0]
      flat = res.reshape(k, -1)
      if flat.shape[1] > 1:
        zc.append(np.abs((flat[:, :-1] * flat[:, 1:]).mean(0)).max() *
                  np.sqrt(k))
      zc.append(np.abs((flat[:-1] * flat[1:]).mean(0)).max() * np.sqrt(k - 1))
      zc.append(np.abs((res[:, 0] * res[:, 1]).mean(0)).max() * np.sqrt(k))
      return z.max(), max(zc)
    z, zc = zmax(out)
    if z > 4.5 or zc > 6:
      z, zc = zmax(draw(20000, case['seed'] + 1).astype(np.float64))
      core.require(z < 7, 'pixels are not on with probability equal to their '
                   'intensity (z=%.1f)', z)
      core.require(zc < 12, 'pixels are not drawn independently (z=%.1f)', zc)
  return 'binarise', h * w > 1


# ------------------------------------------------- converted checkpoints
def check_convert(case):
  import jax
  import jax.numpy as jnp
  from ml_collections import config_dict
  r = core.rng_of('pt', case['seed'])
  C, (H, W) = case['channels'], case['image']
  ck = {}

  def layer(name, o, i, k):
    sh = (o, i) if k is None else (o, i, k, k)
    fan = i * (1 if k is None else k * k)
    ck[name + '.weight'] = (r.normal(size=sh) / np.sqrt(fan)).astype(
        np.float32).astype(np.float64)
    ck[name + '.bias'] = r.normal(size=o).astype(np.float32).astype(np.float64)
  layer('net.proj', C, 1, 3)
  for i in range(8):
    n = 'net.net.%d.' % i
    layer(n + 'conv1', C, C, 3)
    layer(n + 'conv2', C, C, 3)
    if i < 2:
      layer(n + 'shortcut_conv', C, C, 1)
  layer('net.energy_linear', 1, C, None)
  mean = r.uniform(.02, .98, size=H * W).astype(np.float32)
  items = list(ck.items()) + [('mean', mean)]
  order = r.permutation(len(items))

  class T:

    def __init__(self, a):
      self.a = np.asarray(a, np.float32)

    def numpy(self):
      return self.a.copy()

  asked = []
  with exper.scratch() as tmp:
    base = os.path.join(core.REPO, 'discs', 'learning', 'binary_ebm',
                        'exp_config.py')
    argv = ['--config=%s:static_mnist-%d' % (base, C),
            '--config.model.image_shape=(%d,%d)' % (H, W),
            '--config.model.shape=(%d,)' % (H * W),
            '--pt_path=' + os.path.join(tmp, 'x.pt'), '--save_root=' + tmp]
    with trainlib.program('discs.learning.binary_ebm.pt2params', argv) as m:
      def load(path, *a, **k):
        asked.append(path)
        return {'ema_model': {items[i][0]: T(items[i][1]) for i in order},
                'model': {k: T(np.asarray(v) * 0) for k, v in items}}
      m.torch.load = load
      m.torch.device = lambda s: s
      m.main(['pt2params'])
    core.require(asked == [os.path.join(tmp, 'x.pt')], 'read %s', asked)
    from discs.models import resnet
    from discs.models.configs import resnet_config
    mc = resnet_config.get_config()
    mc.data_path = tmp
    model = resnet.build_model(config_dict.ConfigDict(dict(model=mc)))
    params = model.make_init_params(jax.random.PRNGKey(0))
    x = (r.random((case['B'], H * W)) < .5).astype(np.int32)
    x[0] = 0
    x[0, r.integers(0, H * W)] = 1
    e = imgnet.net(ck, x.reshape(-1, 1, H, W).astype(np.float64))
    terms = np.where(x > 0, np.log(mean.astype(np.float64)),
                     np.log1p(-mean.astype(np.float64)))
    got = np.asarray(jax.jit(model.forward)(params, jnp.asarray(x)), np.float64)
    tol = 1e-4 * (1 + np.abs(e) + np.abs(terms).sum(1))
    want = e + terms.sum(1)
    core.require(got.shape == want.shape and (np.abs(got - want) < tol).all(),
                 'the converted network scores %s, the checkpoint defines %s',
                 got.tolist(), want.tolist())
  return 'C%d-%dx%d' % (C, H, W), C > 1 and H != W


# ------------------------------------------------- generators
def strat_reader(names):
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      name=st.sampled_from(names), n=st.integers(1, 12),
      nv=st.integers(1, 8), nt=st.integers(1, 8), w=st.integers(1, 30),
      binary=st.booleans(), whole=st.booleans(),
      seed=st.integers(0, 10**6)))


def strat_images(nmax, reps=None):
  from hypothesis import strategies as st
  d = dict(h=st.integers(1, 6), w=st.integers(1, 6), n=st.integers(1, nmax),
           seed=st.integers(0, 10**6))
  if reps:
    d['reps'] = st.just(reps)
  return st.fixed_dictionaries(d)


def strat_convert():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      channels=st.integers(1, 4), B=st.integers(1, 4),
      image=st.tuples(st.integers(2, 9), st.integers(2, 9)),
      seed=st.integers(0, 10**6)))


def strat_unknown():
  from hypothesis import strategies as st
  return st.builds(lambda s: dict(name=s), st.text(
      'abcdefgh_', min_size=1, max_size=8))


STRATA = [
    core.Stratum('small-files', lambda: strat_reader(
        ['static_mnist', 'caltech', 'histopathology']), check_reader, 120,
                 3000),
    core.Stratum('large-files', lambda: strat_reader(
        ['omniglot', 'freyfaces', 'dynamic_mnist', 'omniglot']), check_reader,
                 48, 800),
    core.Stratum('unknown', strat_unknown, check_unknown, 20, 200, shards=1),
    core.Stratum('mean', lambda: strat_images(30), check_mean, 60, 1500),
    core.Stratum('binarise', lambda: strat_images(1, 600), check_binarise, 24,
                 500),
    core.Stratum('convert', strat_convert, check_convert, 24, 600),
]
RULE = ('files: generated images are written in each format the readers '
        'accept and read back; rows are compared as multisets because the '
        'readers shuffle. mean / binarise: generated grey images through the '
        'RBM pipeline. convert: generated torch-layout checkpoints (1-4 '
        'channels, 2-9 pixel sides) through pt2params, scored against a direct '
        'float64 evaluation of the network. Non-trivial: several images / '
        'pixels; convert: several channels and a non-square image.')
ASSUMPTIONS = ['torch, torchvision and tensorflow_datasets are absent; MNIST '
               'tensors and checkpoints are stand-ins with the same layout.']
