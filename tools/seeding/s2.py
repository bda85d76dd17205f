D='discs/'
HDR='''
from dl import *
def cfg(**k): return ml_collections.ConfigDict(k)
'''
CO='''
from dl import *
import os, pickle, tempfile, shutil, networkx as nx
tmp = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, tmp, True)
def build(name, **m):
  import importlib
  c = ml_collections.ConfigDict()
  base = dict(name=name, data_root=tmp, max_num_nodes=0, max_num_edges=0, num_instances=0, num_models=1, num_categories=2, shape=(0,))
  base.update(m)
  c.model = ml_collections.ConfigDict(base)
  return importlib.import_module('discs.models.' + name).build_model(c), c
def put(path, obj, many=False):
  p = os.path.join(tmp, path); os.makedirs(os.path.dirname(p), exist_ok=True)
  with open(p, 'wb') as f:
    for o in (obj if many else [obj]): pickle.dump(o, f)
def all01(n): return np.array(list(itertools.product((0, 1), repeat=n)))
'''
SEEDS=[
dict(id='ising-vertical-weight', prop='C11', edits=[(D+'models/ising.py', "        message[:, 1:, :] + (2 * x[:, :-1, :] - 1) * w_v\n", "        message[:, 1:, :] + (2 * x[:, :-1, :] - 1) * params[1][1:, :]\n")],
 needs='an Ising model whose vertical couplings differ from site to site', breaks='the upward message uses the coupling of the neighbouring row, so the log-likelihood is not the lattice energy', libs=['dl.py'],
 demo=HDR+'''
from discs.models import ising
m = ising.build_model(cfg(model=dict(shape=(3, 4), lambdaa=.4, mu=.3, init_sigma=1.)))
r = np.random.RandomState(0); p = r.randn(3, 3, 4).astype(np.float32); x = r.randint(0, 2, (5, 3, 4)); s = 2 * x - 1
want = -((s[:, :, 1:] * s[:, :, :-1] * p[0][:, :-1]).sum((1, 2)) + (s[:, 1:] * s[:, :-1] * p[1][:-1]).sum((1, 2)) + (s * p[2]).sum((1, 2)))
got = np.array(m.forward({'params': jnp.array(p)}, jnp.array(x)))
expect(np.allclose(got, want, atol=1e-3), '%s vs %s' % (got, want))
'''),
dict(id='potts-zeros-dtype', prop='C11', edits=[(D+'models/potts.py', "      x = jax.nn.one_hot(x, self.num_categories)\n    w_h", "      x = jax.nn.one_hot(x, self.num_categories, dtype=x.dtype)\n    w_h")],
 needs='integer Potts samples with couplings or fields that are not integers', breaks='the one-hot encoding takes over the integer type of the sample, and the accumulated neighbour terms are truncated to integers', libs=['dl.py'],
 demo=HDR+'''
from discs.models import potts
m = potts.build_model(cfg(model=dict(shape=(3, 3), num_categories=3, lambdaa=.4, mu=.3, init_sigma=1.)))
p = m.make_init_params(jax.random.PRNGKey(0)); p = {'params': p['params'] + .3}
x = m.get_init_samples(jax.random.PRNGKey(1), 4)
a, b = m.forward(p, x), m.forward(p, jax.nn.one_hot(x, 3))
expect(np.allclose(a, b, atol=1e-3), 'integer samples %s, one-hot samples %s' % (a, b))
'''),
dict(id='fhmm-categ-init', prop='C12', edits=[(D+'models/fhmm.py', "alpha = alpha.at[1:].set(self.alpha * alpha[1:] / jnp.sum(alpha[1:]))", "alpha = alpha.at[1:].set(self.alpha * alpha[1:] / jnp.sum(alpha))")],
 needs='the categorical FHMM parameters of a random key', breaks='the initial-state probabilities do not sum to one', libs=['dl.py'],
 demo=HDR+'''
from discs.models import fhmm
m = fhmm.build_model(cfg(model=dict(shape=(4, 2), num_categories=4, sigma=.5, alpha=.3, beta=.8)))
p = m.make_init_params(jax.random.split(jax.random.PRNGKey(3), 1))
t = float(jnp.sum(jnp.exp(p['alpha'])))
expect(abs(t - 1) < 1e-4, 'initial law sums to %s' % t)
'''),
dict(id='fhmm-stay', prop='C12', edits=[(D+'models/fhmm.py', "self.log_probab_of_px(x_c, 1 - self.beta)", "self.log_probab_of_px(x_c, self.beta)")],
 needs='a binary FHMM with beta different from one half (the value where keeping and changing are equally likely)', breaks='keeping a value is scored with the probability of changing it', libs=['dl.py'],
 demo=HDR+'''
from discs.models import fhmm
m = fhmm.build_model(cfg(model=dict(shape=(3, 1), num_categories=2, sigma=1., alpha=.3, beta=.8)))
p = m.make_init_params(jax.random.PRNGKey(0)); p = dict(p, w=p['w'] * 0)
x = jnp.array([[[0], [0], [0]], [[0], [1], [0]]])
d = float(m.forward(p, x)[0] - m.forward(p, x)[1]); want = 2 * np.log(.8 / .2)
expect(abs(d - want) < 1e-3, 'keeping twice against changing twice: %s, exact %s' % (d, want))
'''),
dict(id='rbm-step-v-bias', prop='C13', edits=[(D+'models/rbm.py', "    return jax.random.bernoulli(key=rng, p=jax.nn.sigmoid(logits_v))", "    return jax.random.bernoulli(key=rng, p=jax.nn.sigmoid(jnp.clip(logits_v, -4.0, 4.0)))")],
 needs='an RBM with hidden activations that saturate the visible units (logits beyond 4)', breaks='the visible half step does not draw from the exact conditional of the joint', libs=['dl.py'],
 demo=HDR+'''
from discs.models import rbm
m = rbm.build_model(cfg(model=dict(num_visible=2, num_hidden=1, num_categories=2, shape=(2,))))
p = {'w': jnp.array([[8.], [0.]]), 'b_v': jnp.zeros(2), 'b_h': jnp.zeros(1)}
v = np.array(jax.vmap(lambda k: m.step_v(p, k, jnp.ones((1, 1))))(jax.random.split(jax.random.PRNGKey(0), 60000)))[:, 0, 0]
expect(v.mean() > .998, 'P(v=1|h) = %.4f, exact %.4f' % (v.mean(), 1 / (1 + np.exp(-8))))
'''),
dict(id='resnet-temper', prop='C13', edits=[(D+'models/resnet.py', "        energy = base_energy * (1 - beta) + energy * beta\n", "        energy = base_energy + (energy - base_energy) * jnp.clip(beta, a_min=1e-2) * jnp.sign(beta)\n")],
 needs='an inverse temperature strictly between 0 and 0.01, i.e. the first steps of an annealing run with more than 100 steps', breaks='the tempered energy is not the linear interpolation for small inverse temperatures', libs=['dl.py'],
 demo=HDR+'''
from discs.models import resnet
m = resnet.build_model(cfg(model=dict(num_categories=2, n_channels=4, image_shape=(8, 8), shape=(64,), data_mean=tuple([.3] * 64))))
p = dict(m.make_init_params(jax.random.PRNGKey(0))); x = m.get_init_samples(jax.random.PRNGKey(1), 3)
p = jax.tree_util.tree_map(lambda a: a + .3, p)
e = lambda b: np.array(m.forward(dict(p, temperature=b), x), np.float64)
e0, e1 = e(0.), e(1.)
for b in (.001, .004, .3, .7):
  expect(np.allclose(e(b) - e0, b * (e1 - e0), rtol=1e-2, atol=1e-4), 'at %s: %s, interpolation %s' % (b, e(b) - e0, b * (e1 - e0)))
'''),
dict(id='comb-grad-temper', prop='C14', edits=[(D+'models/comb_ebm.py', "      loglikelihood = self.forward(params, z)\n      return jnp.sum(loglikelihood), loglikelihood\n", "      loglikelihood = self.forward(params, z)\n      return jnp.mean(loglikelihood) * z.shape[0] / jnp.maximum(params['temperature'], 1.0), loglikelihood\n")],
 needs='a temperature above one', breaks='the gradient of the combinatorial models is scaled differently from the value it comes with', libs=['dl.py'],
 demo=CO+'''
g = nx.path_graph(4); nx.set_edge_attributes(g, 1.0, 'weight')
put('maxcut-er/maxcut-r/test-0.pkl', (g, (3.0,)))
m, c = build('maxcut', graph_type='er', rand_type='r')
(_, p, _), = m.make_init_params(None); p = dict(p)
x = jnp.array([[0, 1, 1, 0]])
for t in (.5, 1., 2.):
  p['temperature'] = jnp.float32(t)
  v, gr = m.get_value_and_grad(p, x)
  for i in range(4):
    y = x.at[0, i].set(1 - x[0, i])
    d = float(m.forward(p, y)[0] - m.forward(p, x)[0]); s = float(((1 - 2 * x) * gr)[0, i])
    expect(abs(d - s) < 1e-4, 'temperature %s: flip %d changes by %s, gradient says %s' % (t, i, d, s))
'''),
dict(id='normcut-init', prop='C15', edits=[(D+'models/normcut.py', "      base = jnp.arange(self.num_categories, dtype=jnp.int32)\n", "      base = jnp.arange(min(self.num_categories, 3), dtype=jnp.int32)\n"), (D+'models/normcut.py', "          rng, shape=(self.num_nodes - self.num_categories,),\n", "          rng, shape=(self.num_nodes - base.shape[0],),\n")],
 needs='a normalised-cut model with four or more groups and few nodes', breaks='a starting partition can leave a group empty', libs=['dl.py'],
 demo=CO+'''
put('nets/a.pkl', nx.cycle_graph(5))
m, c = build('normcut', graph_type='nets', rand_type='a', num_categories=4, penalty=0.1, tolerance=.1)
x = np.array(m.get_init_samples(jax.random.PRNGKey(0), 64))
expect(all(len(set(r)) == 4 for r in x), 'a starting partition leaves a group empty')
'''),
dict(id='ising-field-axis', prop='C15', edits=[(D+'models/ising.py', "        + (indices[1] / self.shape[1] - 0.5) ** 2\n", "        + (indices[1] / self.shape[0] - 0.5) ** 2\n")],
 needs='an Ising lattice that is not square', breaks='the inner/outer field is placed with the wrong extent', libs=['dl.py'],
 demo=HDR+'''
from discs.models import ising
for sh in ((4, 4), (3, 7), (6, 2)):
  m = ising.build_model(cfg(model=dict(shape=sh, lambdaa=.4, mu=.3, init_sigma=0.)))
  b = np.array(m.make_init_params(jax.random.PRNGKey(0))['params'][2])
  i, j = np.indices(sh)
  want = .3 * np.where((i / sh[0] - .5) ** 2 + (j / sh[1] - .5) ** 2 < .5 / np.pi, 1, -1)
  expect(np.allclose(b, want, atol=1e-5), 'field of shape %s: %s' % (sh, b))
'''),
dict(id='clique-mask', prop='C16', edits=[(D+'models/maxclique.py', "  def penalty(self, params, x):\n    x = x * params['mask']\n", "  def penalty(self, params, x):\n")],
 needs='a padded clique instance (fewer nodes than the largest one) and an assignment that selects padding nodes', breaks='selected padding nodes are penalised as if they belonged to the graph', libs=['dl.py'],
 demo=CO+'''
put('RB_test/RB_0.pkl', [(2, nx.path_graph(3)), (3, nx.complete_graph(5))])
m, c = build('maxclique', graph_type='rb', num_models=2, penalty=2.0)
for _, p, _ in m.make_init_params(None):
  p = dict(p); p['temperature'] = jnp.float32(1.); n = int(p['num_nodes'])
  x = all01(5); y = x.copy(); y[:, n:] = 0
  expect(np.allclose(m.evaluate(p, jnp.array(x)), m.evaluate(p, jnp.array(y))), 'padding nodes change the score')
'''),
dict(id='mis-penalty-default', prop='C16', edits=[(D+'models/mis.py', "    violation = gather2src * gather2dst * edge_mask\n    penalty = self.penalty_coeff * jnp.sum(violation, axis=1)\n", "    violation = jnp.maximum(gather2src + gather2dst - 1, 0) * edge_mask\n    penalty = self.penalty_coeff * jnp.sqrt(jnp.sum(violation, axis=1) ** 2 + 1e-12) * (1 - 0.5 * (jnp.sum(violation, axis=1) > 3))\n")],
 needs='an assignment violating four or more edges', breaks='the penalty per violated edge is halved when many edges are violated', libs=['dl.py'],
 demo=CO+'''
put('er_a_test/ER_0.pkl', nx.complete_graph(5))
m, c = build('mis', graph_type='ertest', rand_type='a', penalty=1.0001)
(_, p, _), = m.make_init_params(None); p = dict(p); p['temperature'] = jnp.float32(1.)
x = all01(5); k = x.sum(1); want = k - 1.0001 * k * (k - 1) / 2
expect(np.allclose(m.evaluate(p, jnp.array(x)), want, atol=1e-2), 'score is not size minus penalty per violated edge')
'''),
dict(id='maxcut-ratio-temp', prop='C17', edits=[(D+'models/maxcut.py', "        jnp.sum(is_cut * edge_weights, axis=1) / 2.0 / params['temperature']\n", "        jnp.sum(is_cut * params['edge_weight'].sum() / params['edge_weight'].size, axis=1) / 2.0 / params['temperature']\n")],
 needs='a max-cut instance with unequal edge weights (or padding)', breaks='the value returned with the log-ratios is not the log-likelihood', libs=['dl.py'],
 demo=CO+'''
g = nx.Graph(); g.add_edge(0, 1, weight=1.); g.add_edge(1, 2, weight=-2.5)
put('maxcut-er/maxcut-r/test-0.pkl', (g, (1.0,)))
m, c = build('maxcut', graph_type='er', rand_type='r')
(_, p, _), = m.make_init_params(None); p = dict(p); p['temperature'] = jnp.float32(2.)
x = jnp.array(all01(3))
expect(np.allclose(m.logratio_in_neighborhood(p, x)[0], m.forward(p, x), atol=1e-4), 'value next to the log-ratios is not the log-likelihood')
'''),
dict(id='mis-ratio-multi', prop='C17', edits=[(D+'models/mis.py', "                           edge_from].add(diff_penalty)\n", "                           edge_from].max(diff_penalty)\n")],
 needs='an independent-set sample in which a node has two or more selected neighbours', breaks='only one violated edge per node enters the log-ratio', libs=['dl.py'],
 demo=CO+"""
put('er_a_test/ER_0.pkl', nx.path_graph(3)); put('er_a_test/ER_1.pkl', nx.complete_graph(4))
m, c = build('mis', graph_type='ertest', rand_type='a', penalty=1.5, num_models=2)
for _, p, _ in m.make_init_params(None):
  p = dict(p); p['temperature'] = jnp.float32(1.); n = int(p['num_nodes'])
  x = jnp.array(all01(4)); lr = m.logratio_in_neighborhood(p, x)[1]
  for i in range(n):
    d = m.forward(p, x.at[:, i].set(1 - x[:, i])) - m.forward(p, x)
    expect(np.allclose(lr[:, i], d, atol=1e-3), 'log-ratio of node %d is not the change of the log-likelihood' % i)
"""),
dict(id='ebm-config-order', prop='C18', edits=[(D+'models/deep_ebm.py', "      config.update(model_config.model)\n", "      for key in config:\n        if key in model_config.model and key not in ('params', 'shape'):\n          config[key] = model_config.model[key]\n")],
 needs='a saved model whose shape differs from the default, or whose saved configuration has options the default does not list', breaks='the saved shape (and options without a default) are not restored', libs=['dl.py'],
 demo=HDR+'''
import os, pickle, tempfile, shutil
tmp = tempfile.mkdtemp()
try:
  from discs.models import rbm
  w = {'w': np.zeros((3, 2), np.float32), 'b_v': np.zeros(3, np.float32), 'b_h': np.zeros(2, np.float32), 'data_mean': np.array([.2, .5, .7], np.float32)}
  pickle.dump({'params': w}, open(tmp + '/params.pkl', 'wb'))
  saved = cfg(model=dict(name='rbm', num_visible=3, num_hidden=2, num_categories=2, shape=(3,)))
  open(tmp + '/config.yaml', 'w').write(saved.to_yaml())
  c = cfg(model=dict(name='rbm', num_visible=784, num_hidden=200, num_categories=2, shape=(784,), data_path=tmp))
  m = rbm.build_model(c)
  expect(tuple(m.shape) == (3,) and m.num_visible == 3 and m.num_hidden == 2, 'restored shape %s' % (m.shape,))
finally:
  shutil.rmtree(tmp)
'''),
dict(id='loader-lost-tail', prop='C19', edits=[(D+'graph_loader/common.py', "    for _ in range(num_batches, total_batches):\n      if not has_dummy:", "    for _ in range(num_batches, total_batches if buffer or num_proc == 1 else num_batches):\n      if not has_dummy:")],
 needs='instances shared among several processes where one process runs out of instances a whole batch before another', breaks='a process without instances left delivers fewer batches than the others', libs=['dl.py'],
 demo=CO+'''
from discs.graph_loader import mis_loader
for i in range(5): put('er_a_test/ER_%d.pkl' % i, nx.path_graph(3 + i % 2))
mc = ml_collections.ConfigDict(dict(rand_type='a', max_num_nodes=0, max_num_edges=0, num_instances=0))
seen = []; nb = []
for proc in range(4):
  jax.process_index, jax.process_count = (lambda proc=proc: proc), (lambda: 4)
  l = mis_loader.ErTestGraphGen(tmp, mc)
  bs = list(l.get_iterator('test', 4, sharding=True)); nb.append(len(bs))
  for b in bs:
    expect(len(b) == 1, 'batch size'); seen += [t[0] for t in b if t[0] >= 0]
expect(sorted(seen) == list(range(5)), 'delivered %s' % seen)
expect(len(set(nb)) == 1, 'processes deliver %s batches' % nb)
'''),
dict(id='loader-sort', prop='C19', edits=[(D+'graph_loader/maxclique_loader.py', "      if fname.startswith('twitter'):\n        file_list.append(os.path.join(data_folder, fname))\n    self.file_list = sorted(file_list)\n", "      if fname.startswith('twitter'):\n        file_list.append(os.path.join(data_folder, fname))\n    self.file_list = sorted(file_list, key=len)\n")],
 needs='several twitter files whose names have equal length, listed by the file system in another order', breaks='instances are not delivered in file order', libs=['dl.py'],
 demo=CO+'''
from discs.graph_loader import maxclique_loader
for i in range(9): put('twitter/twitter_%d.pkl' % i, [[nx.path_graph(2 + i)], [i]])
real = os.listdir
os.listdir = lambda p: sorted(real(p), reverse=True)
l = maxclique_loader.TwitterGraphs(tmp, ml_collections.ConfigDict(dict(max_num_nodes=0, max_num_edges=0, num_instances=0)))
got = [t[2] for b in l.get_iterator('test', 2) for t in b if t[0] >= 0]
expect(got == list(range(9)), 'delivered in order %s' % got)
'''),
dict(id='edges-bidir-weight', prop='C20', edits=[(D+'common/utils.py', "          (ret['edge_weight'], ret['edge_weight'])\n", "          (ret['edge_weight'], ret['edge_weight'] * ret['edge_mask'])\n"), (D+'common/utils.py', "      edge_weight[i] = e[2]['weight']\n", "      edge_weight[i] = e[2].get('weight') or 1.0\n")],
 needs='a graph with an edge of weight exactly zero', breaks='an edge of weight zero is encoded with weight one', libs=['dl.py'],
 demo=CO+'''
from discs.common import utils
g = nx.Graph(); g.add_edge(0, 1, weight=0.); g.add_edge(1, 2, weight=-1.5)
p = utils.graph2edges(g, build_bidir_edges=True, padded_num_edges=4)
h = {(int(a), int(b)): float(w) for a, b, w, k in zip(p['edge_from'], p['edge_to'], p['edge_weight'], p['edge_mask']) if k}
expect(h == {(0, 1): 0., (1, 2): -1.5}, 'recovered %s' % h)
'''),
dict(id='er-relabel', prop='C21', edits=[(D+'graph_loader/common.py', "      if nx.number_of_nodes(gcc) < min_n:\n        continue\n", ""), (D+'graph_loader/common.py', "      if len(gcc) < min_n or len(gcc) > max_n:\n        continue\n", "      if n_tried < 10 and (len(gcc) < min_n or len(gcc) > max_n):\n        continue\n")],
 needs='a sparse Erdos-Renyi setting in which the first nine draws have no large enough component', breaks='a graph with fewer nodes than the requested minimum is returned', libs=['dl.py'],
 demo=CO+'''
from discs.graph_loader import common
for s in range(60):
  np.random.seed(s); import random; random.seed(s)
  g = common.gen_connected('erdos_renyi', 12, 14, er_p=.12)
  expect(g is None or 12 <= len(g) <= 14, 'asked for 12 to 14 nodes, got %s' % (g and len(g)))
'''),
dict(id='er-labels', prop='C21', edits=[(D+'graph_loader/common.py', "      if max_idx != nx.number_of_nodes(gcc) - 1:\n", "      if max_idx != nx.number_of_nodes(gcc) - 1 and w_type is not None:\n"), (D+'graph_loader/common.py', "      max_idx = max(gcc.nodes())\n      assert max_idx == nx.number_of_nodes(gcc) - 1\n", "      max_idx = max(gcc.nodes())\n")],
 needs='an unweighted Erdos-Renyi graph whose largest component leaves out a node', breaks='the nodes are not labelled 0..n-1', libs=['dl.py'],
 demo=CO+'''
from discs.graph_loader import common
for s in range(60):
  np.random.seed(s); import random; random.seed(s)
  g = common.gen_connected('erdos_renyi', 8, 12, er_p=.25)
  expect(g is None or sorted(g.nodes()) == list(range(len(g))), 'nodes %s' % (g and sorted(g.nodes())))
'''),
dict(id='cfg-dash', prop='C21', edits=[(D+'common/utils.py', "    v = '-'.join(args[1:])\n", "    v = '-'.join(a for a in args[1:] if a)\n")],
 needs='a configuration value starting with a dash (a negative number)', breaks='the sign of negative values is lost by the configuration-string parser', libs=['dl.py'],
 demo=CO+'''
from discs.common import utils
expect(utils.parse_cfg_str('w_min--1,w_max-1') == {'w_min': '-1', 'w_max': '1'}, '%s' % utils.parse_cfg_str('w_min--1,w_max-1'))
'''),
]
