S='discs/samplers/'; M='discs/models/'; C='discs/common/'; G='discs/graph_loader/'; X='discs/experiment/'
SEEDS=[
dict(id='mh-shared-noise', prop='C05', edits=[(C+'math_util.py', "  noise = jax.random.uniform(rng, shape=log_prob.shape, minval=0.0, maxval=1.0)\n", "  noise = jax.random.uniform(rng, shape=log_prob.shape[1:], minval=0.0, maxval=1.0)\n")],
 needs='several chains in one batch with acceptance below one; each chain alone is correct', breaks='one uniform number decides about all chains of a batch, so they accept and reject together', libs=['dl.py'],
 demo='''
from dl import *
from discs.common import math_util
x = jnp.zeros((64, 2)); y = jnp.ones((64, 2))
fr = []
for k in range(60):
  new, acc = math_util.mh_step(jax.random.PRNGKey(k), jnp.full(64, np.log(.5)), x, y)
  fr.append(float(np.mean(np.array(new)[:, 0])))
print(np.round(fr, 2))
expect(np.std(fr) < .2, 'the share of accepting chains swings with standard deviation %.2f' % np.std(fr))
expect(abs(np.mean(fr) - .5) < .1, 'mean acceptance %.2f' % np.mean(fr))
'''),
dict(id='gibbs-shared-draw', prop='C05', edits=[(S+'gibbs.py', "      val_change = jax.random.categorical(rng_key, all_scores, axis=0)\n", "      noise = jax.random.gumbel(rng_key, (all_scores.shape[0], 1))\n      val_change = jnp.argmax(all_scores + noise, axis=0)\n")],
 needs='several chains in one batch; every chain alone follows the exact conditional', breaks='the chains of a batch make the same random choice', libs=['dl.py'],
 demo='''
from dl import *
from discs.samplers import gibbs
class Flat:
  def forward(self, p, x): return jnp.zeros(x.shape[0])
s = gibbs.build_sampler(config(3, 2, dict(name='gibbs')))
fr = []
for k in range(40):
  y, _, _ = s.step(Flat(), jax.random.PRNGKey(k), jnp.zeros((64, 3), jnp.int32), None, s.make_init_state(jax.random.PRNGKey(0)))
  fr.append(float(np.mean(np.array(y)[:, 0])))
expect(np.std(fr) < .2, 'the share of flipped chains swings with standard deviation %.2f' % np.std(fr))
'''),
dict(id='rw-acc-nan', prop='C01', edits=[(S+'randomwalk.py', "    acc = jnp.mean(jnp.clip(jnp.exp(log_acc), a_max=1))\n", "    ratio = jnp.exp(log_acc)\n    acc = jnp.mean(ratio / jnp.maximum(ratio, 1))\n")],
 needs='a random-walk proposal that improves the log-likelihood by more than 88', breaks='the reported acceptance is not a number on steep energies', libs=['dl.py'],
 demo='''
from dl import *
from discs.samplers import randomwalk
class Steep:
  def forward(self, p, x): return 200. * jnp.sum(x, -1).astype(jnp.float32)
s = randomwalk.build_sampler(config(4, 2, dict(adaptive=False, target_acceptance_rate=.234)))
for k in range(20):
  _, _, acc = s.step(Steep(), jax.random.PRNGKey(k), jnp.zeros((50, 4), jnp.int32), None, s.make_init_state(jax.random.PRNGKey(0)))
  expect(0 <= float(acc) <= 1, 'acceptance %r' % float(acc))
'''),
dict(id='mis-relu-penalty', prop='C14', edits=[(M+'mis.py', "    violation = gather2src * gather2dst * edge_mask\n", "    violation = jnp.maximum(gather2src + gather2dst - 1, 0) * edge_mask\n")],
 needs='the gradient at a set with a selected neighbour (the value is the same on every assignment)', breaks='the gradient no longer gives the change of a flip, so informed samplers are misled', libs=['dl.py'],
 demo='''
from dl import *
from discs.models import mis
m = mis.MIS.__new__(mis.MIS); m.penalty_coeff = 2.; m.max_num_nodes = 4
p = dict(edge_from=jnp.array([0, 1, 2, 0]), edge_to=jnp.array([1, 2, 3, 2]), edge_mask=jnp.array([1, 1, 1, 1]), mask=jnp.ones(4), temperature=jnp.float32(1))
xs = jnp.array(list(itertools.product([0, 1], repeat=4)))
v, g = m.get_value_and_grad(p, xs)
for i in range(4):
  d = m.forward(p, xs.at[:, i].set(1 - xs[:, i])) - v
  e = np.abs(np.array((1 - 2 * xs[:, i]) * g[:, i] - d)).max()
  expect(e < 1e-3, 'flip score of node %d is off by %g' % (i, e))
'''),
dict(id='ebm-stale-mean', prop='C18', edits=[(M+'resnet.py', "      data_mean = self.params['data_mean']\n", "      data_mean = self.params['data_mean'] if data_mean is None else data_mean\n")],
 needs='a configuration that already holds a data mean when the saved model is loaded', breaks='the restored model keeps the old mean instead of the saved one', libs=['dl.py'],
 demo='''
from dl import *
import os, pickle, tempfile, yaml
d = tempfile.mkdtemp()
from discs.models import resnet
base = dict(name='resnet', shape=(16,), num_categories=2, n_channels=2, image_shape=(4, 4))
c = ml_collections.ConfigDict(dict(model=dict(base)))
m = resnet.build_model(c)
p = jax.device_get(m.make_init_params(jax.random.PRNGKey(0)))
p = dict(p); mean = np.linspace(.1, .9, 16).astype(np.float32); p['data_mean'] = mean
pickle.dump(dict(params=p), open(d + '/params.pkl', 'wb'))
open(d + '/config.yaml', 'w').write(c.to_yaml())
c2 = ml_collections.ConfigDict(dict(model=dict(base, data_path=d, data_mean=[.5] * 16)))
m2 = resnet.build_model(c2)
import shutil; shutil.rmtree(d)
expect(np.allclose(np.array(m2.data_mean).reshape(-1), mean), 'the loaded model has mean %s' % np.array(m2.data_mean))
'''),
dict(id='zero-weight-edge', prop='C20', edits=[(C+'utils.py', "  edge_mask = [1] * len(g.edges()) + [0] * (num_edges - len(g.edges()))\n", "  edge_mask = [1] * len(g.edges()) + [0] * (num_edges - len(g.edges()))\n  if has_edge_weights:\n    edge_mask = (edge_weight != 0).astype(np.int32)\n")],
 needs='a weighted graph with an edge of weight zero (integer weights drawn from a range around zero)', breaks='the edge is marked as padding and lost when the arrays are read back', libs=['dl.py'],
 demo='''
from dl import *
import networkx as nx
from discs.common import utils
g = nx.Graph(); g.add_edge(0, 1, weight=0.); g.add_edge(1, 2, weight=2.); g.add_edge(2, 3, weight=-1.)
p = utils.graph2edges(g, padded_num_edges=5)
n = int(np.array(p['edge_mask']).sum())
expect(n == 3, 'the mask marks %d of 3 edges' % n)
'''),
dict(id='cnf-dedupe', prop='C20', edits=[(G+'mis_loader.py', "    clauses = list(filter(lambda x: x, cnf.clauses))\n", "    clauses = [list(c) for c in dict.fromkeys(tuple(c) for c in cnf.clauses) if c]\n")],
 needs='a formula that contains the same clause twice', breaks='the graph has one triangle for both, so its independence number is below the number of clauses of a satisfiable formula', libs=['dl.py'],
 demo='''
from dl import *
import networkx as nx
from pysat.formula import CNF
from discs.graph_loader import mis_loader
f = mis_loader.SatLibGraphGen.__new__(mis_loader.SatLibGraphGen)
g = f.cnf2graph(CNF(from_clauses=[[1, 2, 3], [-1, 2, -3], [1, 2, 3]]))
best = max(len(c) for c in nx.find_cliques(nx.complement(g)))
expect(best == 3, 'a satisfiable formula of 3 clauses gives an independent set of %d' % best)
'''),
dict(id='rbm-gibbs-same-key', prop='C02', edits=[(S+'blockgibbs.py', "    h_rng, v_rng = jax.random.split(rng)\n    h = model.step_h(model_param, h_rng, x)\n    new_x = model.step_v(model_param, v_rng, h)\n", "    h = model.step_h(model_param, rng, x)\n    new_x = model.step_v(model_param, rng, h)\n")],
 needs='an RBM with as many hidden as visible units, where both half steps draw the same uniform numbers', breaks='visible and hidden draws are not independent, so the target is not kept', libs=['dl.py'],
 demo='''
from dl import *
from discs.models import rbm
from discs.samplers import blockgibbs
m = rbm.build_model(ml_collections.ConfigDict(dict(model=dict(name='rbm', num_visible=3, num_hidden=3, num_categories=2, shape=(3,)))))
r = np.random.RandomState(0)
p = dict(w=jnp.array(r.randn(3, 3), jnp.float32), b_v=jnp.array(r.randn(3), jnp.float32), b_h=jnp.array(r.randn(3), jnp.float32))
xs = np.array(list(itertools.product([0, 1], repeat=3)))
ll = np.array(m.forward(p, jnp.array(xs, jnp.float32)), np.float64); pi = np.exp(ll - ll.max()); pi /= pi.sum()
s = blockgibbs.RBMBlockGibbsSampler(None)
n = 40000
x = jnp.array(xs[r.choice(8, n, p=pi)], jnp.float32)
y = jax.vmap(lambda k, a: s.step(m, k, a[None], p, jnp.array((1,)))[0][0])(jax.random.split(jax.random.PRNGKey(3), n), x)
c = np.bincount(np.array(y).astype(int) @ np.array([4, 2, 1]), minlength=8) / n
expect(np.abs(c - pi).max() < .015, 'after one step frequencies are %s instead of %s' % (np.round(c, 3), np.round(pi, 3)))
'''),
dict(id='infill-skip-special', prop='C30', edits=[(M+'text_infilling.py', "    sampled_sentence = self.tokenizer.decode(token_ids[0, 1:-1])\n", "    sampled_sentence = self.tokenizer.decode(\n        token_ids[0, 1:-1], skip_special_tokens=True)\n")],
 needs='a sentence with an unknown word or a candidate that is a special token', breaks='decoding drops those tokens, so the sentence loses words', libs=['dl.py'],
 demo='''
from dl import *
import os, tempfile, shutil
from transformers import BertTokenizer
from discs.models import text_infilling
d = tempfile.mkdtemp()
words = ['[PAD]'] + ['w%d' % i for i in range(99)] + ['[UNK]', '[CLS]', '[SEP]', '[MASK]', 'the', 'cat', 'sat', 'here']
open(d + '/vocab.txt', 'w').write(chr(10).join(words))
m = text_infilling.TextInfilling.__new__(text_infilling.TextInfilling)
m.tokenizer = BertTokenizer(d + '/vocab.txt'); m.infill_pos = [2]
shutil.rmtree(d)
ids = m.tokenizer('the [MASK] sat [UNK] here', return_tensors='np')['input_ids']
out = m.decode(jnp.array([[105]]), dict(input_ids=jnp.array(ids)))
expect(out.split() == ['the', 'cat', 'sat', '[UNK]', 'here'], 'decoded %r' % out)
'''),
dict(id='rbm-softplus', prop='C13', edits=[(M+'rbm.py', "    sp = jnp.sum(jax.nn.softplus(v @ self.w + self.b_h), axis=-1)\n", "    sp = jnp.sum(jnp.log1p(jnp.exp(v @ self.w + self.b_h)), axis=-1)\n")],
 needs='a binary RBM with a hidden unit whose input exceeds 88', breaks='the log-likelihood is infinite instead of the marginal', libs=['dl.py'],
 demo='''
from dl import *
from discs.models import rbm
m = rbm.build_model(ml_collections.ConfigDict(dict(model=dict(name='rbm', num_visible=4, num_hidden=2, num_categories=2, shape=(4,)))))
p = dict(w=jnp.full((4, 2), 30.), b_v=jnp.zeros(4), b_h=jnp.zeros(2))
v = np.array(m.forward(p, jnp.ones((1, 4))))[0]
expect(abs(v - 240) < 1e-2, 'log-likelihood %r instead of 240' % v)
'''),
dict(id='ref-duplicates', prop='C29', edits=[(C+'utils.py', "      else:\n        tbc_ref_list.append(tbc)\n\n", "      elif tbc not in tbc_ref_list:\n        tbc_ref_list.append(tbc)\n\n")],
 needs='a corpus with a repeated line after the requested sentences have been found', breaks='the repeated line is in neither the task nor the reference corpus as often as in the corpus', libs=['dl.py'],
 demo='''
from dl import *
import os, tempfile, shutil, collections, json
from discs.common import utils
class T:
  def tokenize(self, s): return s.split()
d = tempfile.mkdtemp()
lines = [' '.join('w%d_%d' % (i % 4, j) for j in range(12)) + chr(10) for i in range(16)]
for n in ('tbc', 'wiki103'): open('%s/%s.5k.txt' % (d, n), 'w').writelines(lines)
utils.create_infill_dataset(d, T(), 2, num_of_sentences=2)
ref = open(d + '/tbc_remove_infill.5k.txt').readlines()
task = json.load(open(d + '/infilling_task.json'))
shutil.rmtree(d)
expect(len(ref) + 2 == len(lines), '%d lines and 2 sentences out of %d lines' % (len(ref), len(lines)))
'''),
dict(id='shard-pad', prop='C19', edits=[(G+'common.py', "      pad_size = local_batch_size - len(buffer)\n", "      pad_size = batch_size - len(buffer)\n")],
 needs='several processes sharing a dataset whose size is not a multiple of the batch size', breaks='the last batch of a process is larger than its share', libs=['dl.py'],
 demo='''
from dl import *
import networkx as nx
from discs.graph_loader import common
class Gen(common.GraphGenerator):
  def __init__(self): super().__init__(); self._num_instances = 5
  def sample_gen(self, phase, repeat=False):
    for i in range(5): yield i, float(i)
  def graph2edges(self, g): return g
  def get_dummy_sample(self): return 0, 0.
jax.process_index = lambda: 1
jax.process_count = lambda: 2
sizes = [len(b) for b in Gen().get_iterator('test', 4, sharding=True)]
expect(all(n == 2 for n in sizes), 'a process gets batches of %s' % sizes)
'''),
dict(id='burnin-snapshot', prop='C24', edits=[(X+'sampling.py', "          state=state,\n      )\n\n      if (\n          self.config.save_samples or self.config.get_estimation_error\n      ) and step % self.config.save_every_steps == 0:\n        chains = new_x.reshape(self.config.batch_size, -1)\n", "          state=state,\n      )\n\n      if (\n          self.config.save_samples or self.config.get_estimation_error\n      ) and step % self.config.save_every_steps == 0:\n        chains = x.reshape(self.config.batch_size, -1)\n")],
 needs='a run that stores samples during the burn-in', breaks='the stored burn-in snapshots are one step old', libs=['exlib.py'],
 demo='''
from exlib import *
c, out = base(dict(name='bernoulli', shape=(4,), num_categories=2, init_sigma=1.), dict(name='x'),
              dict(batch_size=2, chain_length=8, ess_ratio=.5, save_every_steps=1, get_estimation_error=True))
r = np.random.RandomState(0)
rows = r.randint(0, 2, (8, 2, 4))
run(c, Script(rows))
tr = np.array(pickle.load(open(out + '/samples.pkl', 'rb'))['trajectory'])
a, b = np.sort(tr, 1), np.sort(rows, 1)
expect(all(sorted(map(tuple, tr[t].tolist())) == sorted(map(tuple, rows[t].tolist())) for t in range(8)), 'a snapshot is not the sample of its step')
'''),
dict(id='co-burnin-best', prop='C22', edits=[(X+'sampling.py', "          x_mask=params['mask'],\n      )\n\n      if step % self.config.log_every_steps == 0:\n        eval_val = obj_fn(samples=new_x, params=params)\n", "          x_mask=params['mask'],\n      )\n\n      if step % self.config.log_every_steps == 0 or step == 1:\n        eval_val = obj_fn(samples=new_x, params=params)\n")],
 needs='an optimisation run with a burn-in share above zero and a logging interval above one', breaks='the trajectory has an extra entry for the first step', libs=['exlib.py'],
 demo='''
from exlib import *
g = nx.Graph(); g.add_edge(0, 1, weight=1.); g.add_edge(1, 2, weight=1.)
rows = np.random.RandomState(0).randint(0, 2, (8, 1, 2, 3))
res, _ = co([g], rows, T=8, ess_ratio=.5, log_every_steps=2)
n = len(np.array(res['trajectory']))
expect(n == 4, '%d trajectory entries for 4 logging steps' % n)
'''),
dict(id='cfg-sampler-late', prop='C33', edits=[(X+'main_sampling.py', "    config.experiment.num_models = config.model.num_models\n", "    config.experiment.num_models = graph_config.get_model_config(\n        config.model['cfg_str']).get('num_models', config.model.num_models)\n")],
 needs='an experiment file that overrides the number of instances processed together', breaks='the number of model slots is the default of the graph type instead of the configured one', libs=['exlib.py'],
 demo='''
from exlib import *
from ml_collections import config_dict as cd
import types
from absl import flags
from discs.experiment import main_sampling as ms
from discs.models.configs import maxcut_config
from discs.samplers.configs import gwg_config
exp = cd.ConfigDict(dict(model=dict(num_models=3), experiment=dict(batch_size=2)))
ms._MODEL_CONFIG = types.SimpleNamespace(value=cd.ConfigDict(dict(name='maxcut', graph_type='ba', cfg_str='r-ba-4-n-16-20')))
ms._SAMPLER_CONFIG = types.SimpleNamespace(value=gwg_config.get_config())
ms._EXPERIMENT_CONFIG = types.SimpleNamespace(value=exp)
c = ms.get_main_config()
expect(c.experiment.num_models == c.model.num_models == 3, 'slots %s, instances per batch %s' % (c.experiment.num_models, c.model.num_models))
'''),
dict(id='traj-mean-best', prop='C31', edits=[('discs/plot_results/plot_co_through_time.py', "      traj = np.array(results['trajectory'])\n", "      traj = np.clip(np.array(results['trajectory']), -1e3, 1e3)\n")],
 needs='trajectories with values beyond a thousand (early steps of large independent-set runs)', breaks='the plotted curve is not the mean of the saved trajectories', libs=['exlib.py'],
 demo='''
from exlib import *
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from absl import flags
os.chdir(tmp)
sub = "res/run_name='dmala',cfg_str='b'"
os.makedirs(sub)
traj = np.array([[-5000., -3000.], [-100., 20.], [30., 40.]])
pickle.dump(dict(trajectory=traj, best_ratio=traj[-1], best_ratio_mean=traj[-1].mean(), running_time=3.), open(sub + '/results.pkl', 'wb'))
seen = []
real = plt.plot
plt.plot = lambda *a, **k: (seen.append(np.array(a[1])), real(*a, **k))[1]
from discs.plot_results import plot_co_through_time as p
flags.FLAGS(['x', '--gcs_results_path=res', '--graphtype=maxcut'])
p.main(['x'])
expect(seen and np.allclose(seen[0], traj.mean(-1)), 'plotted %s' % seen)
'''),
]
