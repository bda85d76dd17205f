"""Planted changes, seventh set: rarely used paths of each part."""
S, M, G, C, E, X, L = ('discs/samplers/', 'discs/models/', 'discs/graph_loader/', 'discs/common/', 'discs/evaluators/', 'discs/experiment/', 'discs/learning/')
SEEDS = [
dict(id='lm-lower-late', prop='C27', edits=[(E+'lm_eval.py', '''    if uncased:
      data = [[t.lower() for t in sent] for sent in data]

    for k, v in replacements.items():
      data = [[t if t != k else v for t in sent] for sent in data]

    return data
''', '''    for k, v in replacements.items():
      data = [[t if t != k else v for t in sent] for sent in data]

    if uncased:
      data = [[t if t in replacements.values() else t.lower() for t in sent]
              for sent in data]
    return data
''')],
 needs='a reference corpus with the unknown-word marker in capitals', breaks='the marker is not normalised, so the reference n-grams differ', libs=['dl.py'],
 demo='''
from dl import *
import tempfile, shutil
from discs.evaluators import lm_eval
d = tempfile.mkdtemp()
open(d + '/wiki103_remove_infill.5k.txt', 'w').write('The @@UNKNOWN@@ sat down here\\n')
open(d + '/tbc_remove_infill.5k.txt', 'w').write('a b c d e\\n')
ev = lm_eval.build_evaluator(ml_collections.ConfigDict(dict(experiment=dict(max_n_grams=2))))
r = ev.evaluate(['the [UNK] sat down here'], d)
shutil.rmtree(d)
expect(r['unique_wiki_1_grams'] == 0, 'unique words %r' % r['unique_wiki_1_grams'])
'''),
dict(id='ngram-short-sentences', prop='C27', edits=[(E+'lm_eval.py', "Counter([n for sent in sents for n in ngrams(sent, i)])\n", "Counter(\n          [n for sent in sents if len(sent) >= max_n for n in ngrams(sent, i)])\n")],
 needs='a generated or reference sentence with fewer words than the largest n-gram order', breaks='its shorter n-grams are not counted', libs=['dl.py'],
 demo='''
from dl import *
from discs.evaluators import lm_eval
ev = lm_eval.build_evaluator(ml_collections.ConfigDict(dict(experiment=dict(max_n_grams=4))))
r = ev.self_unique_ngrams([['a', 'b'], ['c', 'd', 'e', 'f', 'a']], 4)
expect(abs(r[1] - 5 / 7) < 1e-9, 'unique words %r instead of 5/7' % r[1])
'''),
dict(id='normcut-pad-edges', prop='C17', edits=[(M+'normcut.py', '''    edge_delta = edge_delta * jnp.expand_dims(edge_mask, (1, 2))
''', '''    if edge_mask.shape[0] != edge_delta.shape[1]:
      edge_delta = edge_delta * jnp.expand_dims(edge_mask, (1, 2))
''')],
 needs='a graph whose edge list is padded', breaks='the log-ratios of moving node 0 count the padding edges', libs=['dl.py'],
 demo='''
from dl import *
import networkx as nx
from discs.common import utils
from discs.models import normcut
g = nx.path_graph(4)
p = utils.graph2edges(g, build_bidir_edges=True, has_edge_weights=False, padded_num_edges=6)
p['node_degrees'] = jnp.array([1, 2, 2, 1]); p['temperature'] = 1.
m = normcut.NormCut.__new__(normcut.NormCut)
m.penalty = 0.; m.num_nodes = 4; m.num_edges = 6; m.num_categories = 3; m.eps = 1e-8; m.avg_partition_size = 4 / 3
x = jnp.array([[0, 1, 2, 0]])
cur, lr = m.logratio_in_neighborhood(p, x)[:2]
for k in range(3):
  y = x.at[0, 0].set(k)
  want = float(m.forward(p, y)[0] - m.forward(p, x)[0])
  expect(abs(float(lr[0, 0, k]) - want) < 1e-3, 'moving node 0 to %d: ratio %r, change %r' % (k, float(lr[0, 0, k]), want))
'''),
dict(id='density-edge-bound', prop='C19', edits=[(G+'mis_loader.py', '''      for g in g_list:
        self._max_num_nodes = max(self._max_num_nodes, len(g))
        self._max_num_edges = max(self._max_num_edges, len(g.edges()))
        self._num_instances += 1
''', '''      for g in g_list:
        if len(g) > self._max_num_nodes:
          self._max_num_nodes = len(g)
          self._max_num_edges = len(g.edges())
        self._num_instances += 1
''')],
 needs='a graph with fewer nodes but more edges than the largest one', breaks='the announced number of edges does not bound that instance and instances have different shapes', libs=['exlib.py'],
 demo='''
from exlib import *
from discs.graph_loader import mis_loader
put('er_700_800/ER-700-800-0.1.pkl', [nx.path_graph(6), nx.complete_graph(5)])
g = mis_loader.ErDensityGraphGen(tmp, ml_collections.ConfigDict(dict(rand_type='0.1')))
shapes = {np.shape(p['edge_from']) for b in g.get_iterator('test', 1) for _, p, _ in b}
expect(len(shapes) == 1 and g.max_num_edges == 10, 'announced %d edges, shapes %s' % (g.max_num_edges, shapes))
'''),
dict(id='ess-lag-cap', prop='C26', edits=[(E+'ess_eval.py', "        mapped_samples\n    )\n    ess_of_chains = jnp", "        mapped_samples, filter_beyond_lag=100\n    )\n    ess_of_chains = jnp")],
 needs='a chain longer than a hundred steps that mixes very slowly', breaks='the autocorrelation sum is cut before its first negative term, so the ESS is too large', libs=['dl.py'],
 demo='''
from dl import *
from discs.evaluators import ess_eval
ev = ess_eval.build_evaluator(ml_collections.ConfigDict(dict(experiment=dict(ess_ratio=.5, chain_length=10))))
t = np.arange(1200)
c = np.where(t < 600, 0., 1.)[:, None]
got = float(ev.evaluate(jnp.array(c), jax.random.PRNGKey(0))[0])
z = c[:, 0] - c.mean()
ac = np.array([(z[:len(z) - k] * z[k:]).mean() for k in range(len(z))]); ac = ac / ac[0]
neg = np.argmax(ac < 0)
w = (len(z) - np.arange(len(z))) / len(z)
want = len(z) / (-1 + 2 * (ac * w)[:neg].sum())
expect(got < 1.5 * want + 1, 'ESS %r, by definition about %r' % (got, want))
'''),
dict(id='shard-after-shuffle', prop='C32', edits=[(C+'data_loader.py', '''  dataset = dataset.shard(num_shards=num_shards, index=shard_id)
  if config.get('repeat', repeat):
''', '''  if config.get('repeat', repeat):
'''), (C+'data_loader.py', '''                              seed=shard_id)

''', '''                              seed=shard_id)
  dataset = dataset.shard(num_shards=num_shards, index=shard_id)

''')],
 needs='several processes and shuffling', breaks='every process shards its own ordering, so examples are repeated and lost', libs=['trlib.py'],
 demo='''
from trlib import *
import tensorflow as tf
from discs.common import data_loader
seen = []
for p in range(2):
  jax.process_index = lambda p=p: p
  jax.process_count = lambda: 2
  ds = tf.data.Dataset.from_tensor_slices(np.arange(24))
  c = ml_collections.ConfigDict(dict(batch_size=4, shuffle_buffer_size=24))
  for b in data_loader.numpy_iter(data_loader.prepare_dataloader(ds, c)):
    seen += np.asarray(b).reshape(-1).tolist()
expect(sorted(seen) == list(range(24)), 'the processes saw %s' % sorted(seen))
'''),
dict(id='clip-after-optimizer', prop='C34', edits=[(L+'train.py', '''    optims.append(optax.clip_by_global_norm(grad_norm))
  opt_args = {}
''', '''    clip = [optax.clip_by_global_norm(grad_norm)]
  else:
    clip = []
  opt_args = {}
'''), (L+'train.py', '''  optim = optax.chain(*optims)
''', '''  optim = optax.chain(*(optims + clip))
''')],
 needs='gradient clipping with a gradient above the limit', breaks='the finished update is clipped instead of the gradient', libs=['trlib.py'],
 demo='''
from trlib import *
from discs.learning import train
o = train.build_optimizer(ml_collections.ConfigDict(exp(grad_norm=1., learning_rate=10.)))
p = {'w': jnp.zeros(2)}
u, _ = o.update({'w': jnp.array([3., 4.])}, o.init(p), p)
expect(np.allclose(u['w'], [-6., -8.], atol=1e-4), 'update %s instead of (-6, -8)' % u['w'])
'''),
dict(id='lamb-decay', prop='C34', edits=[(L+'train.py', "  if optimizer_name in ['adamw', 'lamb']:\n", "  if optimizer_name.startswith('adamw'):\n")],
 needs='the lamb optimizer with weight decay', breaks='the weight decay is ignored', libs=['trlib.py'],
 demo='''
from trlib import *
import optax
from discs.learning import train
o = train.build_optimizer(ml_collections.ConfigDict(exp(optimizer='lamb', weight_decay=.5)))
r = optax.lamb(.1, weight_decay=.5)
p = {'w': jnp.array([1., -2.])}; g = {'w': jnp.array([.3, .4])}
u = o.update(g, o.init(p), p)[0]['w']; v = r.update(g, r.init(p), p)[0]['w']
expect(np.allclose(u, v, atol=1e-6), 'update %s instead of %s' % (u, v))
'''),
dict(id='mean-clip-top', prop='C35', edits=[(L+'train.py', "  data_mean = np.clip(data_mean, a_min=0.01, a_max=0.99)\n", "  data_mean = np.maximum(data_mean, 0.01)\n")],
 needs='a dataset with a pixel that is always on', breaks='the mean image is not clipped from above', libs=['trlib.py'],
 demo='''
from trlib import *
import tensorflow as tf
from discs.learning import train
ds = tf.data.Dataset.from_tensor_slices({'image': np.array([[[255], [0]], [[255], [128]]], np.uint8)})
m = train.get_data_mean(ds)
expect(abs(m[0] - .99) < 1e-6, 'mean image %s' % m)
'''),
dict(id='infill-word-pos', prop='C29', edits=[(C+'utils.py', '''          wiki_new_masked = ' '.join(wiki_new_list)
          tokens = tokenizer.tokenize(wiki_new_masked)
          infill_pos = []
          for i in range(len(tokens)):
            if tokens[i] == '[MASK]':
              infill_pos.append(i + 1)  ### the starting token 0 will be [CLS]
''', '''          wiki_new_masked = ' '.join(wiki_new_list)
          infill_pos = [int(pos) + 1 for pos in sorted(infill_pos)]
''')],
 needs='a sentence of the second corpus with a word of several tokens before a masked one', breaks='the saved positions are word positions, not those of the mask tokens', libs=['dl.py'],
 demo='''
from dl import *
import os, tempfile, shutil, json
from discs.common import utils
d = tempfile.mkdtemp()
for n, k in (('tbc.5k.txt', 3), ('wiki103.5k.txt', 6)):
  open(d + '/' + n, 'w').write(''.join(' '.join('ab' for _ in range(12)) + chr(10) for _ in range(k)))
class Tok:
  def tokenize(self, s):
    out = []
    for w in s.split(): out += ['[MASK]'] if w == '[MASK]' else list(w)
    return out
utils.create_infill_dataset(d, Tok(), 2, num_of_sentences=2)
data = json.load(open(d + '/infilling_task.json'))
shutil.rmtree(d)
for e in data:
  t = ['[CLS]'] + Tok().tokenize(e['sentence'])
  expect(e['infill_pos'] == [i for i, w in enumerate(t) if w == '[MASK]'], 'positions %s in %s' % (e['infill_pos'], t))
'''),
dict(id='dmala-step-size', prop='C36', edits=[(S+'dmala.py', "      log_tau = -1 /(2 * self.step_size)\n", "      log_tau = -1 / 2 * self.step_size\n")],
 needs='non-adaptive DMALA with a step size other than one', breaks='the proposal does not use the configured step size', libs=['dl.py'],
 demo='''
from dl import *
from discs.samplers import dmala
class Flat:
  def forward(self, p, x): return jnp.zeros(x.shape[0])
  def get_value_and_grad(self, p, x): return jnp.zeros(x.shape[0]), jnp.zeros(x.shape, jnp.float32)
c = config(4, 2, dict(name='dmala', adaptive=False, balancing_fn_type='SQRT', step_size=.25))
s = dmala.build_sampler(c)
x = jnp.zeros((20000, 4), jnp.int32)
y, _, _ = s.step(Flat(), jax.random.PRNGKey(0), x, None, s.make_init_state(jax.random.PRNGKey(1)))
p = np.exp(-2.) / (1 + np.exp(-2.))
expect(abs(float(np.mean(np.array(y))) - p) < .01, 'flips with frequency %r instead of %r' % (float(np.mean(np.array(y))), p))
'''),
dict(id='resnet-always-on', prop='C13', edits=[(M+'resnet.py', "          1 - x) * jnp.log(1 - self.data_mean + 1e-20)\n", "          1 - x) * jnp.log1p(-self.data_mean)\n")],
 needs='a pixel that is on in every training image', breaks='the energy of every image is not a number', libs=['dl.py'],
 demo='''
from dl import *
from discs.models import resnet
m = resnet.build_model(ml_collections.ConfigDict(dict(model=dict(name='resnet', shape=(16,), image_shape=(4, 4), num_categories=2, n_channels=2, data_mean=[1.] + [.5] * 15))))
p = m.make_init_params(jax.random.PRNGKey(0))
v = np.array(m.forward(p, jnp.ones((1, 16))))
expect(np.all(np.isfinite(v)), 'energy %s' % v)
'''),
dict(id='sparse-cut', prop='C28', edits=[(C+'normcut_evaluator.py', '''        neighbors = np.nonzero(adjacency_matrix[i, :] == 1.0)[1]
      else:
''', '''        neighbors = np.nonzero(adjacency_matrix[i, i:] == 1.0)[1] + i
        neighbors = np.concatenate([neighbors, neighbors[1:]])
      else:
''')],
 needs='a partition evaluated on a sparse adjacency matrix', breaks='the fraction of cut edges is wrong', libs=['trlib.py'],
 demo='''
from trlib import *
import scipy.sparse, networkx as nx
from discs.common import normcut_evaluator as n
g = nx.cycle_graph(6)
a = nx.to_numpy_array(g, nodelist=range(6))
x = np.array([0, 0, 1, 1, 2, 2])
r = n.evaluate(x, 6, 12, scipy.sparse.csr_matrix(a), 3, sparse=True)[0]
expect(abs(r - .5) < 1e-9, 'cut ratio %r' % r)
'''),
dict(id='pas-exact-unmasked', prop='C07', edits=[(S+'path_auxiliary.py', "    if x_mask is not None:\n      logits = logits * x_mask + -1e9 * (1 - x_mask)\n", "    if x_mask is not None and self.approx_with_grad:\n      logits = logits * x_mask + -1e9 * (1 - x_mask)\n")],
 needs='the path-auxiliary sampler with exact ratios on a model that does not mask them itself', breaks='masked coordinates change', libs=['dl.py'],
 demo='''
from dl import *
from discs.models import bernoulli
from discs.samplers import path_auxiliary
c = config(5, 2, dict(name='path_auxiliary', use_fast_path=True, adaptive=False, num_flips=1, approx_with_grad=False, balancing_fn_type='SQRT'))
c.model.init_sigma = 1.; c.model.name = 'bernoulli'
m = bernoulli.build_model(c); s = path_auxiliary.build_sampler(c)
p = m.make_init_params(jax.random.PRNGKey(0))
mask = jnp.array([[1, 1, 0, 0, 1]])
x = jnp.zeros((64, 5), jnp.int32); st = s.make_init_state(jax.random.PRNGKey(1))
for t in range(20):
  x, st, _ = s.step(m, jax.random.PRNGKey(t), x, p, st, x_mask=mask)
expect(not np.any(np.array(x)[:, 2:4]), 'masked coordinates changed')
'''),
dict(id='dlmc-n-floor', prop='C06', edits=[(S+'dlmc.py', "    state['log_z'] = log_z\n\n", "    state['log_tau'] = jnp.where(\n        acc < 0.01, state['log_tau'] - 0.7, state['log_tau'])\n    state['log_z'] = log_z\n\n")],
 needs='a long run of almost no acceptance', breaks='the step size asks for less than one expected flip', libs=['dl.py'],
 demo='''
from dl import *
from discs.samplers import dlmc
class Steep:
  """The gradient promises flips the energy forbids."""
  def forward(self, p, x): return -50. * jnp.sum(jnp.reshape(x, (x.shape[0], -1)), -1)
  def get_value_and_grad(self, p, x): return self.forward(p, x), jnp.zeros(x.shape, jnp.float32)
c = config(6, 2, dict(name='dlmc', adaptive=True, balancing_fn_type='SQRT', target_acceptance_rate=.574, schedule_step=100, reset_z_est=20, solver='interpolate'))
s = dlmc.build_sampler(c)
x = jnp.zeros((4, 6), jnp.int32); st = s.make_init_state(jax.random.PRNGKey(0))
for t in range(12):
  x, st, a = s.step(Steep(), jax.random.PRNGKey(t), x, None, st)
n = float(np.exp(np.array(st['log_tau']) + np.array(st['log_z'])))
expect(n > .999, 'the adapted step asks for %r flips' % n)
'''),
dict(id='rw-dim-int', prop='C36', edits=[(S+'randomwalk.py', "        rnd_new_sample, p=(state['radius'] / dim), shape=x.shape\n", "        rnd_new_sample, p=(state['radius'] / x.shape[-1]), shape=x.shape\n")],
 needs='a sample shape with more than one axis', breaks='the random walk re-draws too many coordinates', libs=['dl.py'],
 demo='''
from dl import *
from discs.samplers import randomwalk
class Flat:
  def forward(self, p, x): return jnp.zeros(x.shape[0])
c = config(6, 2, dict(name='randomwalk', adaptive=False, target_acceptance_rate=.5, balancing_fn_type='SQRT'))
c.model.shape = (2, 3)
s = randomwalk.build_sampler(c)
x = jnp.zeros((20000, 2, 3), jnp.int32)
y = s.step(Flat(), jax.random.PRNGKey(0), x, None, s.make_init_state(jax.random.PRNGKey(1)))[0]
f = float(np.mean(np.array(y)))
expect(abs(f - 1 / 6) < .01, 'coordinates change with frequency %r instead of 1/6' % f)
'''),
dict(id='fhmm-single-step', prop='C12', edits=[(M+'fhmm.py', "    x_0 = x[:, 0, :]\n    x_cur = x[:, :-1, :]\n    x_next = x[:, 1:, :]\n    x_c = x_cur", "    x_0 = x[:, 0, :]\n    x_cur = x[:, :-1, :]\n    x_next = jnp.roll(x, -1, axis=1)[:, : max(self.l - 1, 1), :]\n    x_c = x_cur")],
 needs='a binary chain of length one', breaks='the likelihood has a transition term although there is no transition', libs=['dl.py'],
 demo='''
from dl import *
from discs.models import fhmm
import math
m = fhmm.build_model(ml_collections.ConfigDict(dict(model=dict(name='fhmm', shape=(1, 3), num_categories=2, sigma=.5, alpha=.2, beta=.9))))
p = m.make_init_params(jax.random.PRNGKey(0))
try:
  v = np.array(m.forward(p, jnp.array([[[0, 1, 1]], [[0, 0, 0]]])), float)
except Exception as e:
  expect(False, 'no likelihood for a chain of length one: %r' % e)
def ll(x):
  y, w, b = float(p['y'][0, 0]), np.array(p['w'])[:, 0], float(p['b'][0, 0])
  return -(y - x @ w - b) ** 2 / (2 * .25) + sum(math.log(.2) if a else math.log(.8) for a in x)
want = ll(np.array([0, 1, 1])) - ll(np.zeros(3))
expect(abs(v[0] - v[1] - want) < 1e-3, 'difference %r instead of %r' % (v[0] - v[1], want))
'''),
]
