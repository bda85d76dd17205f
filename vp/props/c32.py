"""C32: the replay buffer and the data pipeline never lose or corrupt samples."""
import contextlib

import numpy as np

from vp import core, exper


def WARM():
  import jax  # noqa: F401
  import tensorflow as tf  # noqa: F401
  from discs.common import data_loader  # noqa: F401
  from discs.learning import replay_buffer  # noqa: F401


# ------------------------------------------------- replay buffer
def make(case, x_train):
  from ml_collections import config_dict
  from discs.learning import replay_buffer
  cfg = config_dict.ConfigDict(dict(
      model=dict(num_categories=2, shape=tuple(case['shape'])),
      experiment=dict(buffer_size=case['size'], buffer_init='mean',
                      reinit_freq=case['freq'])))
  return replay_buffer.ReplayBuffer(cfg, x_train)


def check_history(case):
  """A history of sample/update calls against a mirror of the buffer.

  The data are (nearly) constant, so a fresh row is close to `pat`; rows
  written by updates are near its complement, so the two kinds are told apart.
  """
  shape = tuple(case['shape'])
  d = int(np.prod(shape))
  r = core.rng_of('buf', case['seed'])
  pat = r.integers(0, 2, size=shape)
  x_train = np.stack([pat] * 3)
  np.random.seed(case['seed'] % 2**31)
  buf = make(case, x_train)
  lim = 6 + d // 6                 # P(more than lim of d flips at 1 %) < 1e-9

  def fresh(row):
    return np.sum(row != pat) <= lim

  b = np.array(buf.buffer)
  core.require(b.shape == (case['size'],) + shape, 'the buffer has shape %s',
               b.shape)
  core.require(np.isin(b, (0, 1)).all(), 'buffer values are not binary')
  core.require(all(fresh(v) for v in b), 'the buffer does not start from the '
               'data distribution')
  mirror = b.copy()
  pending = None
  n_fresh = n_old = n_upd = 0
  for op in case['ops']:
    if op['op'] == 'sample':
      bs = min(op['n'], case['size'])
      x, inds = buf.sample(bs)
      x, inds = np.asarray(x), np.asarray(inds)
      core.require(x.shape == (bs,) + shape and inds.shape == (bs,),
                   'a batch of %d has shapes %s, %s', bs, x.shape, inds.shape)
      core.require(len(set(inds.tolist())) == bs and inds.min() >= 0 and
                   inds.max() < case['size'], 'slots %s are not %d distinct '
                   'slots of %d', inds, bs, case['size'])
      core.require(np.isin(x, (0, 1)).all(), 'sampled values are not binary')
      for row, i in zip(x, inds):
        same = np.array_equal(row, mirror[i])
        core.require(same or fresh(row), 'a sampled row is neither the content '
                     'of its slot %d nor a fresh draw (%d of %d values differ '
                     'from the slot, %d from the data)', i,
                     np.sum(row != mirror[i]), d, np.sum(row != pat))
        if not fresh(mirror[i]):
          n_old += same
          n_fresh += not same
        if case['freq'] == 0:
          core.require(same, 'without re-initialisation slot %d was not '
                       'returned as stored', i)
        if case['freq'] == 1:
          core.require(fresh(row), 'with certain re-initialisation slot %d is '
                       'not fresh', i)
      core.require(np.array_equal(np.asarray(buf.buffer), mirror),
                   'sampling changed the buffer')
      pending = (x, inds)
    elif pending is not None:
      x, inds = pending
      new = np.where(r.random(x.shape) < 0.05, pat, 1 - pat).astype(x.dtype)
      buf.update(new.copy(), inds.tolist() if op['list'] else inds)
      mirror[inds] = new
      n_upd += 1
      core.require(np.array_equal(np.asarray(buf.buffer), mirror),
                   'an update of slots %s did not replace exactly these', inds)
      if op['mutate']:
        new[:] = 1 - new           # what the caller does later to its array
        core.require(np.array_equal(np.asarray(buf.buffer), mirror),
                     'the buffer shares memory with the update')
  tot = n_fresh + n_old
  if 0 < case['freq'] < 1 and tot > 20:
    p = case['freq']
    z = (n_fresh - tot * p) / np.sqrt(tot * p * (1 - p))
    core.require(abs(z) < 6.5, '%d of %d rows were re-initialised at rate %g',
                 n_fresh, tot, p)
  return 'freq%g' % case['freq'], n_upd > 0


def check_law(case):
  """Initial content and fresh draws follow the data mean; slots are uniform."""
  shape = tuple(case['shape'])
  r = core.rng_of('law', case['seed'])
  n = 40
  means = r.integers(0, n + 1, size=shape)
  x_train = (np.arange(n).reshape((n,) + (1,) * len(shape)) < means).astype(int)
  p = x_train.mean(0) * 0.98 + 0.01
  np.random.seed(case['seed'] % 2**31)
  buf = make(dict(case, size=600, freq=1.0), x_train)

  def z_of(rows, p):
    k = rows.shape[0]
    return np.abs(rows.sum(0) - k * p) / np.sqrt(k * p * (1 - p))

  z = z_of(np.asarray(buf.buffer), p)
  core.require(z.max() < 7.5, 'initial content has means %s, the data %s',
               np.asarray(buf.buffer).mean(0), p)
  x, _ = buf.sample(500)
  core.require(z_of(np.asarray(x), p).max() < 7.5, 'fresh draws have means %s, '
               'the data %s', np.asarray(x).mean(0), p)
  small = make(dict(case, size=7, freq=0.0), x_train)
  cnt = np.zeros(7)
  for _ in range(300):
    cnt[np.asarray(small.sample(2)[1])] += 1
  q = 2 / 7
  z = np.abs(cnt - 300 * q) / np.sqrt(300 * q * (1 - q))
  core.require(z.max() < 6.5, 'slots are drawn %s times', cnt)
  return 'law', True


# ------------------------------------------------- data pipeline
@contextlib.contextmanager
def processes(count, index, local):
  """The host seen as process `index` of `count` with `local` devices each."""
  import jax
  old = {k: getattr(jax, k) for k in ('process_count', 'process_index',
                                      'device_count', 'local_device_count')}
  try:
    jax.process_count = lambda *a, **k: count
    jax.process_index = lambda *a, **k: index
    jax.device_count = lambda *a, **k: count * local
    jax.local_device_count = lambda *a, **k: local
    yield
  finally:
    for k, v in old.items():
      setattr(jax, k, v)


def check_pipeline(case):
  import tensorflow as tf
  from ml_collections import config_dict
  from discs.common import data_loader
  N, P, D, per = case['N'], case['procs'], case['devs'], case['per']
  gb = P * D * per
  data = np.stack([np.arange(N) * 3 + 1, np.arange(N)], 1).astype(np.int32)
  fn = (lambda x: dict(a=x[0], b=x * 2)) if case['pre'] else None
  seen_all = []
  nb = 0
  for pi in range(P):
    conf = dict(batch_size=gb, shuffle_buffer_size=case['shuffle'])
    if case['by_config']:
      conf.update(repeat=case['epochs'] > 1, drop_remainder=case['drop'])
    cfg = config_dict.ConfigDict(conf)
    with processes(P, pi, D):
      kw = {} if case['by_config'] else dict(repeat=case['epochs'] > 1,
                                             drop_remainder=case['drop'])
      ds = data_loader.prepare_dataloader(
          tf.data.Dataset.from_tensor_slices(data), cfg, fn_preprocess=fn, **kw)
      it = data_loader.numpy_iter(ds)
      mine = data[pi::P]
      want_batches = case['epochs'] * len(mine) // (D * per)
      got, sizes = [], []
      if case['epochs'] > 1:
        for _ in range(want_batches):
          got.append(next(it))
      else:
        got = list(it)
    rows = []
    for b in got:
      if fn is not None:
        core.require(set(b) == {'a', 'b'}, 'keys %s', set(b))
        core.require(b['a'].shape == b['b'].shape[:2], 'leaves disagree')
        v = np.asarray(b['b'])
        core.require(np.array_equal(v[..., 0], 2 * np.asarray(b['a'])),
                     'leaves of an example were separated')
        v = v // 2
      else:
        v = np.asarray(b)
      core.require(not case['drop'] or v.shape == (D, per, 2),
                   'a device batch has shape %s instead of %s', v.shape,
                   (D, per, 2))
      sizes.append(v.shape[:2])
      rows.append(v.reshape(-1, 2))
    nb += len(rows)
    rows = np.concatenate(rows) if rows else np.zeros((0, 2), np.int32)
    exp_n = len(mine) // (D * per) * (D * per) if case['drop'] else len(mine)
    if case['epochs'] > 1:
      exp_n = want_batches * D * per
    core.require(len(rows) == exp_n, '%d of %d examples delivered, expected %d',
                 len(rows), len(mine), exp_n)
    core.require(np.array_equal(rows[:, 0], rows[:, 1] * 3 + 1),
                 'the fields of an example were separated')
    ids = rows[:, 1]
    if not case['shuffle']:
      core.require(np.array_equal(
          ids, np.tile(mine[:, 1], case['epochs'])[:exp_n]),
          'examples %s are not delivered in order %s', ids.tolist(),
          mine[:, 1].tolist())
    if case['epochs'] == 1:
      core.require(len(set(ids.tolist())) == len(ids), 'examples repeat: %s',
                   ids.tolist())
    core.require(set(ids.tolist()) <= set(mine[:, 1].tolist()),
                 'process %d delivers examples of another process', pi)
    seen_all.append(ids)
  if not case['drop'] and case['epochs'] == 1:
    core.require(sorted(np.concatenate(seen_all).tolist()) == list(range(N)),
                 'the processes together do not deliver every example once')
  lab = 'p%d d%d%s%s' % (P, D, ' shuffle' if case['shuffle'] else '',
                         ' repeat' if case['epochs'] > 1 else '')
  return lab, nb > 0


# ------------------------------------------------- generators
def strat_history():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.just('sample'), n=st.integers(1, 12))),
        st.fixed_dictionaries(dict(op=st.just('update'), list=st.booleans(),
                                   mutate=st.booleans())))
    return dict(shape=draw(st.sampled_from([[60], [8, 8], [5, 4, 3]])),
                size=draw(st.integers(1, 12)),
                freq=draw(st.sampled_from([0.0, 0.05, 0.5, 1.0])),
                ops=draw(st.lists(op, min_size=1, max_size=40)),
                seed=draw(st.integers(0, 2**31 - 1)))
  return s()


def strat_law():
  from hypothesis import strategies as st
  return st.fixed_dictionaries(dict(
      shape=st.sampled_from([[6], [3, 2]]), seed=st.integers(0, 2**31 - 1)))


def strat_pipeline():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    procs = draw(st.sampled_from([1, 1, 2, 3]))
    drop = draw(st.sampled_from([True, True, False]))
    # a kept remainder needs equal device batches, so one device
    devs = draw(st.sampled_from([1, 2, 4])) if drop else 1
    epochs = draw(st.sampled_from([1, 1, 3]))
    return dict(N=draw(st.integers(1, 40)), procs=procs, devs=devs,
                per=draw(st.integers(1, 5)), drop=drop, epochs=epochs,
                shuffle=draw(st.sampled_from([0, 0, 1, 5, 100])),
                pre=draw(st.booleans()), by_config=draw(st.booleans()))
  return s()


STRATA = [
    core.Stratum('history', strat_history, check_history, 5000, 150000),
    core.Stratum('law', strat_law, check_law, 160, 5000),
    core.Stratum('pipeline', strat_pipeline, check_pipeline, 800, 20000),
]
RULE = ('history: up to 40 sample/update calls on buffers of 1-12 slots against '
        'a mirror; stored and fresh rows are told apart by construction. law: '
        'initial content, fresh draws and slot choice against their stated '
        'laws. pipeline: 1-40 examples over 1-3 processes and 1-4 devices, '
        'with or without shuffling, repetition, preprocessing and remainder; '
        'delivered examples are compared with the data set. Non-trivial: an '
        'update happened / a batch was delivered.')
ASSUMPTIONS = ['a kept remainder is only exercised with one device per process '
               '(device batches must be equal)']
