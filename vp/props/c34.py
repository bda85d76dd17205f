"""C34: training steps follow the configured gradient, schedule and averaging."""
import glob
import os
import pickle

import numpy as np

from vp import core, exper, mods, trainlib


def WARM():
  import jax  # noqa: F401
  import optax  # noqa: F401
  import tensorflow as tf  # noqa: F401
  from flax.training import checkpoints  # noqa: F401
  trainlib.stub_modules()
  from discs.learning import train  # noqa: F401
  from discs.models import rbm, resnet  # noqa: F401
  from discs.samplers import blockgibbs, dlmc  # noqa: F401


def train_module():
  trainlib.stub_modules()
  from discs.learning import train
  return train


def conf(opt, **more):
  from ml_collections import config_dict
  d = dict(opt)
  d.update(more)
  return config_dict.ConfigDict(d)


# ------------------------------------------------- learning-rate schedules
def check_schedule(case):
  train = train_module()
  opt = case['opt']
  f = train.build_lr_schedule(conf(opt))
  w = int(opt['warmup_frac'] * opt['total_train_steps'])
  T = opt['total_train_steps']
  steps = sorted({0, 1, max(w - 1, 0), w, w + 1, T - 1, T, T + 10, 20000,
                  20000 + w, 50000} | set(case['steps']))
  last = None
  for s in steps:
    got, want = float(f(s)), trainlib.lr_at(opt, s)
    core.require(abs(got - want) <= 2e-5 * opt['learning_rate'] + 1e-12,
                 '%s schedule (warm-up %d of %d steps): step %d has learning '
                 'rate %r, the schedule defines %r', opt['lr_schedule'], w, T, s,
                 got, want)
    if opt['lr_schedule'] != 'constant' and last is not None and s > w and \
        last[0] >= w:
      core.require(got <= last[1] * (1 + 1e-6), 'the rate grows after warm-up')
    last = (s, got)
  return opt['lr_schedule'], opt['lr_schedule'] != 'constant'


def check_unknown(case):
  train = train_module()
  try:
    train.build_lr_schedule(conf(dict(
        learning_rate=0.1, lr_schedule=case['name'], warmup_frac=.1,
        total_train_steps=10)))
  except ValueError:
    return 'rejected'
  raise core.Violation('the unknown schedule %r was accepted' % case['name'])


# ------------------------------------------------- the generic trainer
class _Model:

  def __init__(self, p0):
    self.p0 = p0

  def make_init_params(self, rng):
    import jax.numpy as jnp
    return {k: jnp.asarray(v, jnp.float32) for k, v in self.p0.items()}

  def get_init_samples(self, rng, num_samples):
    import jax.numpy as jnp
    return jnp.arange(num_samples * 2).reshape(num_samples, 2)


class _Sampler:

  def make_init_state(self, rng):
    import jax.numpy as jnp
    return dict(steps=jnp.zeros((), jnp.int32), key=rng)


def toy(case, hooks):
  """A trainer with a known least-squares loss on the real base class."""
  import jax.numpy as jnp
  train = train_module()

  class Toy(train.Trainer):

    def __init__(self, config, model, sampler):
      super().__init__(config)
      self.model, self.sampler = model, sampler

    def build_loss_func(self, rng, batch):
      x, y = batch[..., :-1], batch[..., -1]

      def loss(p):
        r = x @ p['w'] + p['b'] - y
        v = 0.5 * jnp.mean(r ** 2)
        return v, {'loss': v, 'n': jnp.float32(1.0)}
      return loss

    def batch_processing(self, local_state, shared_state, batch_rng, batch):
      hooks.append((np.asarray(batch).copy(), np.asarray(batch_rng).copy(),
                    int(np.asarray(local_state.step).reshape(-1)[0]),
                    int(np.asarray(shared_state.step).reshape(-1)[0])))
      return batch, local_state.replace(step=local_state.step + 1)

  d = case['d']
  r = core.rng_of('toy', case['seed'])
  p0 = dict(w=r.normal(size=d) * case['pscale'], b=r.normal())
  cfg = conf({}, experiment=dict(
      case['opt'], batch_size=case['per'] * case['dev'],
      ema_decay=case['ema'], save_root='', log_every_steps=case['log'],
      plot_every_steps=case['plot'], save_every_steps=case['save']))
  return Toy(cfg, _Model(p0), _Sampler()), cfg, {
      k: np.asarray(v, np.float64) for k, v in p0.items()}


def grads(p, batch):
  x, y = batch[:, :-1].astype(np.float64), batch[:, -1].astype(np.float64)
  r = x @ p['w'] + p['b'] - y
  return dict(w=(x * r[:, None]).mean(0), b=r.mean()), 0.5 * np.mean(r ** 2)


class Writer:

  def __init__(self):
    self.rows = []
    self.flushed = 0

  def write_scalars(self, step, scalars):
    self.rows.append((int(step), {k: float(v) for k, v in scalars.items()}))

  def flush(self):
    self.flushed += 1


def check_loop(case):
  import jax
  from flax import jax_utils
  from flax.training import checkpoints
  hooks, plots = [], []
  D, T, s0 = case['dev'], case['opt']['total_train_steps'], case['start']
  with exper.devices(D), exper.scratch() as tmp:
    tr, cfg, p = toy(case, hooks)
    cfg.experiment.save_root = tmp
    gs, ls = tr.init_states(jax.random.PRNGKey(case['seed']))
    core.require(int(gs.step) == 0, 'training starts at step %s', gs.step)
    for k in p:
      core.require(np.array_equal(np.asarray(gs.params[k]),
                                  np.asarray(p[k], np.float32)) and
                   np.array_equal(np.asarray(gs.ema_params[k]),
                                  np.asarray(p[k], np.float32)),
                   'initial weights or averages are not the model\'s')
    core.require(ls.samples.shape == (D, case['per'], 2) and np.array_equal(
        np.asarray(ls.samples).reshape(-1, 2),
        np.arange(case['per'] * D * 2).reshape(-1, 2)),
        'starting samples are not split over the devices in order')
    ks = np.asarray(ls.sampler_state['key']).reshape(D, -1)
    core.require(len({tuple(v) for v in ks.tolist()}) == D,
                 'devices share a sampler key')
    gs = gs.replace(step=s0)
    r = core.rng_of('batches', case['seed'])
    data = [r.normal(size=(D, case['per'], case['d'] + 1)).astype(np.float32)
            for _ in range(case['batches'])]
    writer = Writer()
    final = tr.train_loop(writer, jax.random.PRNGKey(case['seed'] + 1), gs, ls,
                          iter(data),
                          fn_plot=(lambda s, a, b: plots.append(
                              (int(s), int(jax_utils.unreplicate(a).step))))
                          if case['has_plot'] else None)
    final = jax.device_get(jax_utils.unreplicate(final))
    n = max(0, min(T - s0, len(data)))
    core.require(len(hooks) == n and all(
        np.array_equal(h[0], b) for h, b in zip(hooks, data)),
        '%d batches were trained on, expected the first %d', len(hooks), n)
    core.require(int(final.step) == s0 + n, 'the final state is at step %s, '
                 'expected %d', final.step, s0 + n)
    core.require([h[2] for h in hooks] == list(range(n)),
                 'the sampler state is not carried from step to step')
    core.require(len({h[1].tobytes() for h in hooks}) == n,
                 'training steps share random keys')
    # the weights, step by step
    ref = trainlib.RefOpt(case['opt'])
    ema = None
    hist = {s0: (p, p)}
    losses = {}
    for i in range(n):
      step = s0 + i + 1
      g, loss = grads(p, data[i].reshape(-1, case['d'] + 1))
      losses[step] = loss
      p = ref.update(p, g)
      dec = 0.0 if step == 1 else case['ema']
      ema = {k: dec * (hist[step - 1][1][k]) + (1 - dec) * p[k] for k in p}
      hist[step] = (p, ema)
    tol = 2e-3 * case['opt']['learning_rate'] * max(n, 1) + 1e-4
    def close(a, b, what):
      for k in b:
        e = np.abs(np.asarray(a[k], np.float64) - b[k]).max()
        core.require(e < tol * (1 + np.abs(b[k]).max()),
                     '%s: %r is %s, expected %s', what, k,
                     np.asarray(a[k]).tolist(), np.asarray(b[k]).tolist())
    close(final.params, hist[s0 + n][0], 'weights after %d steps' % n)
    close(final.ema_params, hist[s0 + n][1], 'averaged weights (decay %g) '
          'after %d steps from step %d' % (case['ema'], n, s0))
    want = [s for s in range(s0 + 1, s0 + n + 1) if s % case['log'] == 0]
    core.require([x[0] for x in writer.rows] == want, 'metrics were written at '
                 'steps %s, expected %s', [x[0] for x in writer.rows], want)
    for s, row in writer.rows:
      core.require(abs(row['loss'] - losses[s]) < 1e-3 * (1 + abs(losses[s])),
                   'step %d: logged loss %r, the loss over all devices is %r',
                   s, row['loss'], losses[s])
      lr = trainlib.lr_at(case['opt'], s)
      core.require(abs(row['train/lr'] - lr) < 1e-4 * case['opt'][
          'learning_rate'] + 1e-9, 'step %d: logged rate %r, the schedule '
          'defines %r', s, row['train/lr'], lr)
    want = [(s, s) for s in range(s0 + 1, s0 + n + 1)
            if s % case['plot'] == 0] if case['has_plot'] else []
    core.require(plots == want, 'plotted (step, state) %s, expected %s', plots,
                 want)
    want = [s for s in range(s0 + 1, s0 + n + 1) if s % case['save'] == 0]
    got = sorted(int(os.path.basename(f).split('_')[-1]) for f in glob.glob(
        os.path.join(tmp, 'ckpts', 'checkpoint_*')))
    core.require(got == want[-10:], 'checkpoints of steps %s, expected %s', got,
                 want[-10:])
    for s in (got[:1] + got[-1:]):
      st = checkpoints.restore_checkpoint(os.path.join(tmp, 'ckpts'), None,
                                          step=s)
      core.require(int(st['step']) == s, 'the checkpoint of step %d holds step '
                   '%s', s, st['step'])
      close(st['params'], hist[s][0], 'checkpoint of step %d' % s)
      close(st['ema_params'], hist[s][1], 'averages in checkpoint %d' % s)
  return '%s-%s%s' % (case['opt']['optimizer'], case['opt']['lr_schedule'],
                      '-resume' if s0 else ''), n > 1


# ------------------------------------------------- contrastive divergence
class Marker:
  """A sampler with a known effect: adds to the count and shifts the sample."""

  def make_init_state(self, rng):
    import jax.numpy as jnp
    return dict(n=jnp.zeros((), jnp.int32), log=jnp.zeros((40, 2), jnp.uint32))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    import jax.numpy as jnp
    new = jnp.roll(x, 1, axis=-1)
    first = 1 - new[..., :1]
    new = jnp.concatenate([first, new[..., 1:]], -1)
    st = dict(n=state['n'] + 1,
              log=state['log'].at[state['n']].set(rng.astype(jnp.uint32)))
    return (new, st) if self.two else (new, st, jnp.float32(1.0))


def marked(x, n):
  x = np.asarray(x).copy()
  for _ in range(n):
    x = np.roll(x, 1, axis=-1)
    x[..., 0] = 1 - x[..., 0]
  return x


def check_cd(case):
  """Real EBM and RBM trainers; the sampler's effect is known."""
  import jax
  import jax.numpy as jnp
  from flax import jax_utils
  kind, D, per = case['kind'], case['dev'], case['per']
  name = ('discs.learning.rbm.main_rbm_training' if kind == 'rbm' else
          'discs.learning.binary_ebm.main_binary_training')
  r = core.rng_of('cd', case['seed'])
  n = 6 if kind == 'rbm' else 12
  with exper.devices(D), trainlib.module(name) as m:
    if kind == 'rbm':
      from discs.models import rbm as mod
      mc = dict(name='rbm', num_visible=n, num_hidden=case['hidden'],
                num_categories=2, shape=(n,))
    else:
      from discs.models import resnet as mod
      mc = dict(name='resnet', num_categories=2, n_channels=2,
                image_shape=(3, 4), shape=(n,))
    mean = r.uniform(.1, .9, size=n)
    mc['data_mean'] = tuple(mean.tolist())
    exp = dict(case['opt'], batch_size=per * D, ema_decay=case['ema'],
               save_root='', log_every_steps=1, plot_every_steps=99,
               save_every_steps=99, pcd_steps=case['pcd'], p_control=0.0,
               energy_l2=0.0, buffer_size=case['buffer'] * per * D,
               buffer_init='mean', reinit_freq=0.0, fig_folder='')
    cfg = conf({}, model=mc, experiment=exp, sampler=dict(name='x'))
    model = mod.build_model(cfg)
    sampler = Marker()
    sampler.two = kind == 'rbm'
    np.random.seed(case['seed'] % 2**31)
    if kind == 'rbm':
      tr = m.RBMTrainer(cfg, model, sampler)
    else:
      x_train = (r.random((5, n)) < mean).astype(np.float32)
      tr = m.EBMTrainer(cfg, model, sampler, x_train)
    gs, ls = tr.init_states(jax.random.PRNGKey(case['seed']))
    chain = np.asarray(ls.samples).reshape(-1, n)
    core.require(chain.shape == (per * D, n) and np.isin(chain, (0, 1)).all(),
                 'starting samples have shape %s', np.shape(ls.samples))
    shared = jax_utils.replicate(gs)
    key = jax.random.PRNGKey(case['seed'] + 5)
    p = jax.tree_util.tree_map(np.asarray, dict(gs.params))
    upd = jax.pmap(tr.global_update_fn, axis_name='shard')
    seen = set()
    for t in range(case['T']):
      data = (r.random((D, per, n)) < mean).astype(np.float32)
      before = np.array(tr.buffer.buffer) if kind != 'rbm' else None
      key, k1 = jax.random.split(key)
      batch, ls = tr.batch_processing(ls, shared, k1, data)
      pos, neg = np.asarray(batch[0]), np.asarray(batch[1])
      core.require(np.array_equal(pos, data), 'the positive batch is not the '
                   'delivered data')
      core.require(neg.shape == (D, per, n), 'negatives have shape %s',
                   neg.shape)
      core.require((np.asarray(ls.step) == (t + 1) * case['pcd']).all(),
                   'after %d training steps of %d sampler steps the chains '
                   'count %s', t + 1, case['pcd'], np.asarray(ls.step).tolist())
      core.require(np.array_equal(np.asarray(ls.samples), neg),
                   'the negatives are not the new chain states')
      flat = neg.reshape(-1, n)
      if kind == 'rbm':
        core.require(np.array_equal(flat, marked(chain, case['pcd'])),
                     'the negatives are not %d sampler steps from the '
                     'persistent chains', case['pcd'])
        chain = flat
      else:
        after = np.array(tr.buffer.buffer)
        ch = np.where((after != before).any(1))[0]
        # every negative is `pcd` steps from a distinct buffer slot
        want = marked(before, case['pcd'])
        core.require(np.array_equal(after[ch], want[ch]), 'the buffer does not '
                     'hold the evolved samples')
        a = sorted(map(bytes, flat.astype(np.uint8)))
        core.require(set(a) <= set(map(bytes, want.astype(np.uint8))),
                     'a negative is not %d sampler steps from a buffered '
                     'sample', case['pcd'])
        core.require(len(ch) <= per * D, '%d buffer slots changed in a step '
                     'of %d samples', len(ch), per * D)
        if case['pcd'] == 1:      # one step always changes a sample's content
          pass
      # keys: every device and micro step its own
      log = np.asarray(ls.sampler_state['log'])
      cnt = np.asarray(ls.sampler_state['n']).reshape(-1)
      core.require((cnt == (t + 1) * case['pcd']).all(), 'sampler steps per '
                   'device: %s', cnt.tolist())
      now = {(d, i): tuple(log[d, i].tolist()) for d in range(D)
             for i in range(cnt[d])}
      core.require(len(set(now.values())) == len(now), 'devices or sampler '
                   'steps share random keys')

      def obj(q):
        return (jnp.mean(model.forward(q, jnp.asarray(flat))) -
                jnp.mean(model.forward(q, jnp.asarray(data.reshape(-1, n)))))
      jp = jax.tree_util.tree_map(jnp.asarray, p)
      g = jax.grad(obj)(jp)
      loss = float(obj(jp))
      old = p
      shared, aux = upd(shared, jax.random.split(k1, D), batch)
      got = jax.device_get(jax_utils.unreplicate(shared))
      lr = trainlib.lr_at(case['opt'], t)
      gn = np.sqrt(sum(float((np.asarray(a, np.float64) ** 2).sum())
                       for a in jax.tree_util.tree_leaves(g)))
      sc = 1.0
      if case['opt']['grad_norm'] > 0 and gn > case['opt']['grad_norm']:
        sc = case['opt']['grad_norm'] / gn
      want = jax.tree_util.tree_map(
          lambda a, b: np.asarray(a, np.float64) - lr * sc * np.asarray(
              b, np.float64), p, dict(g))
      mag = lr * sc * max([float(np.abs(np.asarray(a)).max())
                           for a in jax.tree_util.tree_leaves(g)])
      gl, gt = jax.tree_util.tree_flatten(dict(got.params))
      wl, wt = jax.tree_util.tree_flatten(want)
      core.require(gt == wt, 'training changed the structure of the weights')
      for a, b in zip(gl, wl):
        e = np.abs(np.asarray(a, np.float64) - b).max()
        core.require(e <= 2e-3 * mag + 2e-6 * (1 + np.abs(b).max()),
                     'step %d: the weights did not move along the contrastive '
                     'gradient (error %.3g, largest move %.3g)', t + 1, e, mag)
      l = float(np.asarray(aux['loss']).reshape(-1)[0])
      core.require(abs(l - loss) < 1e-3 * (1 + abs(loss) + abs(float(
          np.asarray(aux['ll_pos']).reshape(-1)[0]))),
          'the reported loss is %r, by definition %r', l, loss)
      p = jax.tree_util.tree_map(np.asarray, dict(got.params))
      del old
  return kind, True


# ------------------------------------------------- whole programs
def check_program(case):
  import jax
  import tensorflow as tf
  from flax.training import checkpoints
  from ml_collections import config_dict
  kind, n = case['kind'], 784
  r = core.rng_of('prog', case['seed'])
  with exper.devices(case['dev']), exper.scratch() as tmp:
    N = case['N']
    argv = ['--save_root=' + os.path.join(tmp, 'out'),
            '--seed=%d' % case['seed'],
            '--config.experiment.batch_size=%d' % (case['per'] * case['dev']),
            '--config.experiment.pcd_steps=%d' % case['pcd'],
            '--config.experiment.total_train_steps=%d' % case['total'],
            '--config.experiment.save_every_steps=1',
            '--config.experiment.log_every_steps=1',
            '--config.experiment.plot_every_steps=%d' % case['plot']]
    base = os.path.join(core.REPO, 'discs', 'learning')
    if kind == 'rbm':
      imgs = r.integers(0, 256, size=(N, 28, 28, 1)).astype(np.uint8)
      imgs[:, :5] = 255
      imgs[:, 5:9] = 0
      name = 'discs.learning.rbm.main_rbm_training'
      tag = 'mnist-2-%d' % case['hidden']
      argv.insert(0, '--config=%s:%s' % (os.path.join(
          base, 'rbm', 'exp_config.py'), tag))
      mean = np.clip(imgs.reshape(N, -1).astype(np.float64).mean(0) / 255.0,
                     .01, .99)
      steps = min(case['total'], N // (case['per'] * case['dev']))
    else:
      data = (r.random((N, n)) < .4).astype(np.int64)
      d = os.path.join(tmp, 'data', 'MNIST_static')
      os.makedirs(d)
      for k in ('train', 'valid', 'test'):
        np.savetxt(os.path.join(d, 'binarized_mnist_%s.amat' % k),
                   data if k == 'train' else data[:2], fmt='%d')
      name = 'discs.learning.binary_ebm.main_binary_training'
      tag = 'static_mnist-2'
      argv.insert(0, '--config=%s:%s' % (os.path.join(
          base, 'binary_ebm', 'exp_config.py'), tag))
      argv += ['--config.experiment.data_dir=' + os.path.join(tmp, 'data'),
               '--config.experiment.buffer_size=%d' % (
                   case['per'] * case['dev'] * 3)]
      mean = data.mean(0)
      steps = case['total']
    np.random.seed(case['seed'] % 2**31)
    tf.random.set_seed(case['seed'])
    with trainlib.program(name, argv) as m:
      if kind == 'rbm':
        m.tfds.load = lambda *a, **k: tf.data.Dataset.from_tensor_slices(
            {'image': imgs})
      m.main(['train'])
    out = os.path.join(tmp, 'out', tag)
    got = sorted(int(os.path.basename(f).split('_')[-1]) for f in glob.glob(
        os.path.join(out, 'ckpts', 'checkpoint_*')))
    core.require(got == list(range(1, steps + 1))[-10:], 'checkpoints %s of %d '
                 'steps', got, steps)
    pngs = sorted(os.listdir(os.path.join(out, 'logs', 'figures')))
    core.require(pngs == sorted('chain-%d.png' % s for s in range(1, steps + 1)
                                if s % case['plot'] == 0), 'figures %s', pngs)
    ck = checkpoints.restore_checkpoint(os.path.join(out, 'ckpts'), None)
    with open(os.path.join(out, 'params.pkl'), 'rb') as f:
      saved = pickle.load(f)
    sp = dict(saved['params'])
    dm = np.asarray(sp.pop('data_mean'), np.float64)
    core.require(np.abs(dm - mean).max() < 1e-5, 'the saved data mean is not '
                 'that of the data')
    a, at = jax.tree_util.tree_flatten(jax.tree_util.tree_map(np.asarray, sp))
    b, bt = jax.tree_util.tree_flatten(jax.tree_util.tree_map(
        np.asarray, dict(ck['params'])))
    core.require(at == bt and all(np.array_equal(x, y) for x, y in zip(a, b)),
                 'the saved parameters are not those of the last step')
    # and the sampling programs get them back
    mod = __import__('discs.models.%s' % ('rbm' if kind == 'rbm' else 'resnet'),
                     fromlist=['x'])
    mc = __import__('discs.models.configs.%s_config' % (
        'rbm' if kind == 'rbm' else 'resnet'), fromlist=['x']).get_config()
    mc.data_path = out
    model = mod.build_model(config_dict.ConfigDict(dict(model=mc)))
    p = model.make_init_params(jax.random.PRNGKey(0))
    p = {k: v for k, v in dict(p).items() if k != 'data_mean'}
    c, ct = jax.tree_util.tree_flatten(jax.tree_util.tree_map(np.asarray, p))
    core.require(ct == at and all(np.array_equal(x, y) for x, y in zip(a, c)),
                 'the model loaded from the training output has other '
                 'parameters')
  return kind, steps > 1


# ------------------------------------------------- generators
def _opt(st, kinds=('sgd', 'adam', 'adamw', 'lamb'), total=None):
  return st.fixed_dictionaries(dict(
      learning_rate=st.sampled_from([0.01, 0.1, 0.003]),
      lr_schedule=st.sampled_from(['constant', 'updown', 'up_exp_down']),
      warmup_frac=st.sampled_from([0.0, 0.05, 0.3, 0.5]),
      total_train_steps=total or st.integers(1, 24),
      optimizer=st.sampled_from(kinds),
      grad_norm=st.sampled_from([0.0, 5.0, 0.3]),
      weight_decay=st.sampled_from([0.0, 0.1])))


def strat_schedule():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    opt = draw(_opt(st, total=st.integers(2, 200000)))
    opt['learning_rate'] = draw(st.floats(1e-4, 1.0))
    opt['warmup_frac'] = draw(st.one_of(st.sampled_from([0.0, 0.05, .5]),
                                        st.floats(0, 0.9)))
    return dict(opt=opt, steps=draw(st.lists(st.integers(0, 250000),
                                             max_size=8)))
  return s()


def strat_loop():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    opt = draw(_opt(st))
    start = draw(st.sampled_from([0, 0, 0, 1, 3, 11]))
    return dict(opt=opt, start=start, d=draw(st.integers(1, 4)),
                per=draw(st.integers(1, 4)), dev=draw(st.sampled_from(
                    [1, 2, 4, 3])),
                batches=draw(st.integers(0, 26)),
                ema=draw(st.sampled_from([0.0, 0.9, 0.5, 0.999])),
                log=draw(st.integers(1, 5)), plot=draw(st.integers(1, 6)),
                save=draw(st.sampled_from([1, 2, 3, 7])),
                has_plot=draw(st.booleans()),
                pscale=draw(st.sampled_from([1.0, 0.0, 5.0])),
                seed=draw(st.integers(0, 10**6)))
  return s()


def strat_cd():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    return dict(kind=draw(st.sampled_from(['rbm', 'ebm', 'rbm'])),
                opt=draw(_opt(st, ('sgd',), st.just(50))),
                ema=draw(st.sampled_from([0.0, 0.9])),
                dev=draw(st.sampled_from([1, 2, 4])),
                per=draw(st.integers(1, 4)), pcd=draw(st.integers(1, 5)),
                T=draw(st.integers(1, 4)), hidden=draw(st.integers(1, 4)),
                buffer=draw(st.integers(1, 4)),
                seed=draw(st.integers(0, 10**6)))
  return s()


def strat_program():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    per, dev = draw(st.integers(1, 3)), draw(st.sampled_from([1, 2]))
    return dict(kind=draw(st.sampled_from(['rbm', 'rbm', 'ebm'])), per=per,
                dev=dev, N=draw(st.integers(per * dev, 20)),
                pcd=draw(st.integers(1, 3)), total=draw(st.integers(1, 5)),
                plot=draw(st.integers(1, 3)), hidden=draw(st.integers(1, 4)),
                seed=draw(st.integers(0, 10**6)))
  return s()


def strat_unknown():
  from hypothesis import strategies as st
  return st.builds(lambda s: dict(name=s), st.text(
      'abcdefgh_', min_size=1, max_size=8))


STRATA = [
    core.Stratum('schedule', strat_schedule, check_schedule, 240, 8000),
    core.Stratum('unknown', strat_unknown, check_unknown, 20, 200, shards=1),
    core.Stratum('loop', strat_loop, check_loop, 120, 2000),
    core.Stratum('contrastive', strat_cd, check_cd, 40, 1000),
    core.Stratum('program', strat_program, check_program, 8, 160),
]
RULE = ('schedule: generated rates, warm-up shares and lengths against closed '
        'forms. loop: the real training loop and update on a least-squares '
        'model with 1-4 devices, generated optimiser, schedule, averaging, '
        'starting step, number of batches and intervals; weights, averages, '
        'metrics, figures and checkpoints against a float64 re-computation. '
        'contrastive: the real RBM and image-EBM trainers with a sampler of '
        'known effect. program: whole training programs on generated images. '
        'Non-trivial: a non-constant schedule, several steps.')
ASSUMPTIONS = ['torch, torchvision and tensorflow_datasets are absent and '
               'replaced by empty modules; data come from generated files.',
               'Several devices are emulated host devices.']
