D='discs/'; X=D+'experiment/sampling.py'
H='''
from exlib import *
'''
L=['exlib.py']
SEEDS=[
dict(id='co-best-stale', prop='C22', edits=[(X, """        is_better = ratio > best_ratio
        best_ratio = jnp.maximum(ratio, best_ratio)
        sample_mask = sample_mask.reshape(best_ratio.shape)

        br = np.array(best_ratio[sample_mask])
        br = jax.device_put(br, jax.devices('cpu')[0])
        chain.append(br)

        if self.config.save_samples or self.config_model.name == 'normcut':
          step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
          rnew_x = self._group_by_model(new_x, bshape, self.config_model.shape)
          chosen_samples = jnp.take_along_axis(
              rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
          )
          chosen_samples = jnp.squeeze(chosen_samples, -2)
          best_samples = jnp.where(
              jnp.expand_dims(is_better, -1), chosen_samples, best_samples
          )

      if self.config.get_additional_metrics:
        # avg over all models
        acc = jnp.mean(acc)
        acc_ratios.append(acc)
        # hop avg over batch size and num models
        hops.append(get_hop(x, new_x))
      x = new_x

    for step in tqdm.tqdm(range(burn_in_length""", """        best_ratio = jnp.maximum(ratio, best_ratio)
        is_better = ratio >= best_ratio
        sample_mask = sample_mask.reshape(best_ratio.shape)

        br = np.array(best_ratio[sample_mask])
        br = jax.device_put(br, jax.devices('cpu')[0])
        chain.append(br)

        if self.config.save_samples or self.config_model.name == 'normcut':
          step_chosen = jnp.broadcast_to(jnp.argmax(eval_val[:1], axis=-1, keepdims=True), best_ratio.shape + (1,))
          rnew_x = self._group_by_model(new_x, bshape, self.config_model.shape)
          chosen_samples = jnp.take_along_axis(
              rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
          )
          chosen_samples = jnp.squeeze(chosen_samples, -2)
          best_samples = jnp.where(
              jnp.expand_dims(is_better, -1), chosen_samples, best_samples
          )

      if self.config.get_additional_metrics:
        # avg over all models
        acc = jnp.mean(acc)
        acc_ratios.append(acc)
        # hop avg over batch size and num models
        hops.append(get_hop(x, new_x))
      x = new_x

    for step in tqdm.tqdm(range(burn_in_length""")],
 needs='several instances in one batch, sample saving on, and a best sample found during burn-in by a chain whose number differs between the instances', breaks='the saved best sample of an instance is that of the chain that was best for the first instance', libs=L,
 demo=H+'''
g1 = nx.path_graph(3); nx.set_edge_attributes(g1, 1.0, 'weight')
g2 = nx.path_graph(3); nx.set_edge_attributes(g2, 1.0, 'weight')
# instance 1: chain 0 is best; instance 2: chain 1 is best; all during burn-in
rows = np.zeros((4, 2, 3), int)
class S2(Script):
  def step(self, model, rng, x, model_param, state, x_mask=None):
    # recognised by the first edge weight
    t = state['steps']; k = (model_param['edge_weight'][0] > 1.5).astype(int)
    a = jnp.array([[0, 1, 0], [0, 0, 0]])
    new = jnp.where(t == 0, jnp.where(k, a[::-1], a), jnp.zeros((2, 3), int)).astype(x.dtype)
    return new, dict(steps=t + 1, num_ll_calls=state['num_ll_calls']), jnp.float32(.5)
import exlib; exlib.Script = S2
nx.set_edge_attributes(g2, 2.0, 'weight')
r, s = co([g1, g2], rows, T=4, nm=2, ess_ratio=.5)
for i, w in enumerate((1., 2.)):
  x = np.array(r['best_samples'][i]).astype(int)
  cut = w * (int(x[0] != x[1]) + int(x[1] != x[2]))
  expect(abs(cut - r['best_ratio'][i]) < 1e-4, 'instance %d: reported best %s, the saved sample scores %s' % (i, r['best_ratio'][i], cut))
'''),
dict(id='co-best-init', prop='C22', edits=[(X, "    best_ratio = jnp.ones(self.config.num_models, dtype=jnp.float32) * -1e9\n", "    best_ratio = jnp.zeros(self.config.num_models, dtype=jnp.float32)\n")],
 needs='an instance on which every logged sample has a negative objective (penalised solutions, negative weights)', breaks='the reported best ratio is zero although no sample reached it', libs=L,
 demo=H+'''
g = nx.path_graph(3); nx.set_edge_attributes(g, -1.0, 'weight')
rows = np.tile(np.array([[0, 1, 0], [0, 1, 1]]), (4, 1, 1))
r, s = co([g], rows, T=4)
expect(np.allclose(r['best_ratio'], [-1.]), 'best %s, the logged samples reach -1' % r['best_ratio'])
'''),
dict(id='temp-final', prop='C23', edits=[(X, "          config.init_temperature, config.final_temperature, config.chain_length\n", "          config.init_temperature, config.final_temperature, max(1, config.chain_length - int(config.chain_length * config.ess_ratio))\n")],
 needs='a linear schedule with a burn-in share', breaks='the linear schedule ends before the chain does', libs=L,
 demo=H+'''
g = nx.path_graph(3); nx.set_edge_attributes(g, 1.0, 'weight')
r, s = co([g], np.zeros((10, 2, 3), int), T=10, t_schedule='linear', init_temperature=1., final_temperature=.5, ess_ratio=.3)
want = [1 - .05 * k for k in range(1, 11)]
expect(np.allclose(sorted(s.temps, reverse=True), want, atol=1e-3), 'temperatures %s' % s.temps)
'''),
dict(id='temp-decay-end', prop='C23', edits=[(X, "          end_value=config.final_temperature,\n", "          transition_begin=int(config.chain_length * config.ess_ratio) // 2,\n          end_value=config.final_temperature,\n")],
 needs='an exponential schedule with a burn-in share of at least two steps', breaks='the decay starts only in the middle of the burn-in', libs=L,
 demo=H+'''
g = nx.path_graph(3); nx.set_edge_attributes(g, 1.0, 'weight')
r, s = co([g], np.zeros((10, 2, 3), int), T=10, t_schedule='exp_decay', init_temperature=1., final_temperature=.2, decay_rate=.1, ess_ratio=.4)
want = [max(.2, .1 ** (k / 10)) for k in range(1, 11)]
expect(np.allclose(sorted(s.temps, reverse=True), want, atol=1e-3), 'temperatures %s' % s.temps)
'''),
dict(id='ess-burn-in', prop='C24', edits=[(X, """        hops.append(get_hop(x, new_x))
      mapped_sample = get_mapped_samples(new_x, x0_ess)
""", """        hops.append(get_hop(x, new_x))
      mapped_sample = get_mapped_samples(x, x0_ess)
""")],
 needs='any sampling run: every evaluated sample is one step old', breaks='the evaluated chain contains the last burn-in sample and lacks the final one', libs=L,
 demo=H+'''
c, out = base(dict(name='bernoulli', shape=(4,), num_categories=2, init_sigma=1.), dict(name='x'), dict(batch_size=2, chain_length=8, ess_ratio=.5, num_models=1))
rows = np.zeros((8, 2, 4), int); rows[4:] = np.random.RandomState(0).randint(0, 2, (4, 2, 4)); rows[3] = 1; rows[7] = 1 - rows[6]
from discs.evaluators import ess_eval
got = []
orig = ess_eval.ESSevaluator._get_ess
def spy(self, r, m):
  jax.debug.callback(lambda a: got.append(np.array(a)), m); return orig(self, r, m)
ess_eval.ESSevaluator._get_ess = spy
run(c, Script(rows)); jax.effects_barrier()
m = got[0].reshape(4, 2)
ok = any(np.array_equal(m, np.abs(rows[4:] - np.array([(k >> i) & 1 for i in range(4)])).sum(-1)) for k in range(16))
expect(ok, 'evaluated chain %s is not that of the post-burn-in samples' % m.tolist())
'''),
dict(id='save-every', prop='C24', edits=[(X, """      running_time += time.time() - start

      if (
          self.config.save_samples or self.config.get_estimation_error
      ) and step % self.config.save_every_steps == 0:
""", """      running_time += time.time() - start

      if (
          self.config.save_samples or self.config.get_estimation_error
      ) and (step - burn_in_length) % self.config.save_every_steps == 0:
""")],
 needs='saved snapshots with an interval that does not divide the burn-in length plus one', breaks='after the burn-in, snapshots are taken at other steps than the configured interval says', libs=L,
 demo=H+'''
c, out = base(dict(name='bernoulli', shape=(4,), num_categories=2, init_sigma=1.), dict(name='x'), dict(batch_size=2, chain_length=12, ess_ratio=.5, num_models=1, get_estimation_error=True, save_every_steps=3))
rows = np.array([[[(t >> i) & 1 for i in range(4)]] * 2 for t in range(1, 13)])
run(c, Script(rows))
tr = np.array(pickle.load(open(out + '/samples.pkl', 'rb'))['trajectory'])
steps = [int(sum(int(v) << i for i, v in enumerate(r[0]))) for r in tr]
expect(steps == [3, 6, 9, 12], 'snapshots taken at steps %s' % steps)
'''),
dict(id='ais-order', prop='C25', edits=[(X, "      log_w = log_w + score_fn(params, x) - old_val\n      if not self.parallel:\n        rng_step = rng\n", "      if not self.parallel:\n        rng_step = rng\n"), (X, "      log_w_re = log_w.reshape(-1)\n", "      log_w = log_w + score_fn(params, new_x) - old_val\n      log_w_re = log_w.reshape(-1)\n")],
 needs='any annealing run: the weight of a step must be taken before the sample moves', breaks='the importance weights compare the new sample with the score of the old one', libs=L,
 demo=H+'''
class M:
  shape = (2,)
  def make_init_params(self, r): return {'w': jnp.zeros(1)}
  def get_init_samples(self, r, n): return jax.random.bernoulli(r, .5, (n, 2)).astype(jnp.int32)
  def forward(self, p, x):
    b = jnp.array([1.5, -2.]); base = jnp.sum(x * 0., -1)
    return base + p['temperature'] * (x @ b)
class R:
  """Exact draws at the current temperature."""
  def make_init_state(self, r): return dict(steps=jnp.zeros((), jnp.int32), num_ll_calls=jnp.zeros((), jnp.int32))
  def step(self, model, rng, x, model_param, state, x_mask=None):
    p = jax.nn.sigmoid(model_param['temperature'] * jnp.array([1.5, -2.]))
    return jax.random.bernoulli(rng, p, x.shape).astype(jnp.int32), state, 1.
c, out = base(dict(name='m', shape=(2,), num_categories=2), dict(name='x'), dict(name='EBM_Experiment', batch_size=20000, chain_length=4, evaluator='ess_eval'))
run(c, R(), M())
z = np.array(pickle.load(open(out + '/logz.pkl', 'rb'))['logz'])[-1]
want = np.log(1 + np.exp(1.5)) + np.log(1 + np.exp(-2.)) - 2 * np.log(2)
expect(abs(z - want) < .05, 'estimate %s, exact %s' % (z, want))
'''),
dict(id='ais-norm', prop='C25', edits=[(X, "      logz_final = jax.scipy.special.logsumexp(log_w_re, axis=0) - np.log(\n          self.config.batch_size\n      )\n", "      logz_final = jax.scipy.special.logsumexp(log_w_re, axis=0) - np.log(\n          x.shape[0]\n      )\n")],
 needs='an annealing run on several devices', breaks='the average over chains divides by the number of devices instead of the number of chains', libs=L, xla='--xla_force_host_platform_device_count=2',
 demo=H+'''
class M:
  shape = (2,)
  def make_init_params(self, r): return {'w': jnp.zeros(1)}
  def get_init_samples(self, r, n): return jax.random.bernoulli(r, .5, (n, 2)).astype(jnp.int32)
  def forward(self, p, x): return jnp.sum(x * 0., -1) + p['temperature'] * 2.
for par in (False, True):
  c, out = base(dict(name='m', shape=(2,), num_categories=2), dict(name='x'), dict(name='EBM_Experiment', batch_size=6, chain_length=4, evaluator='ess_eval', run_parallel=par))
  class R(Script):
    def step(self, model, rng, x, model_param, state, x_mask=None): return x, state, jnp.float32(1.)
  run(c, R(np.zeros((4, 1))), M())
  z = np.array(pickle.load(open(out + '/logz.pkl', 'rb'))['logz'])
  expect(np.allclose(z, [.5, 1., 1.5, 2.], atol=1e-3), 'estimates %s, exact 0.5 1 1.5 2 (parallel %s)' % (z, par))
'''),
dict(id='ess-nan', prop='C26', edits=[(D+'evaluators/ess_eval.py', "    ess_of_chains = jnp.nan_to_num(ess_of_chains, nan=1.0)\n    mean_ess = jnp.mean(ess_of_chains)\n", "    mean_ess = jnp.nan_to_num(jnp.nanmean(ess_of_chains), nan=1.0)\n    ess_of_chains = jnp.nan_to_num(ess_of_chains, nan=1.0)\n")],
 needs='a set of chains of which some, but not all, never move', breaks='constant chains are left out of the mean instead of counting as one', libs=L,
 demo=H+'''
from discs.evaluators import ess_eval
c = ml_collections.ConfigDict(dict(experiment=dict(ess_ratio=.5, chain_length=10)))
e = ess_eval.build_evaluator(c)
from tensorflow_probability.substrates import jax as tfp
r = np.random.RandomState(0); stuck = r.randn(20, 3); stuck[:, 1] = 2.
for y in (r.randn(7, 4), stuck):
  want = np.nan_to_num(np.array(tfp.mcmc.effective_sample_size(jnp.array(y, jnp.float32))), nan=1.)
  v = np.array(e.evaluate(jnp.array(y), jax.random.PRNGKey(0)))
  expect(np.allclose(v[0], want.mean(), rtol=1e-3), 'mean %s, by definition %s' % (v[0], want.mean()))
'''),
dict(id='ess-ee-share', prop='C26', edits=[(D+'evaluators/ess_eval.py', "  def _eval_over_time(self, eval_val, time):\n    \"\"\"ESS over run time.\"\"\"\n    return eval_val / (time)\n", "  def _eval_over_time(self, eval_val, time):\n    \"\"\"ESS over run time.\"\"\"\n    return eval_val / jnp.maximum(time, 1.0)\n")],
 needs='a run that takes less than a second', breaks='the effective sample size per second is not divided by the measured seconds', libs=L,
 demo=H+'''
from discs.evaluators import ess_eval
c = ml_collections.ConfigDict(dict(experiment=dict(ess_ratio=.5, chain_length=10)))
e = ess_eval.build_evaluator(c)
m = e.get_eval_metrics(jnp.array([4., 1.]), .5, 30)
expect(np.allclose(m[2], [8., 2.]), 'per second %s' % m[2])
'''),
dict(id='bleu-selfref', prop='C27', edits=[(D+'evaluators/lm_eval.py', "            [s for (j, s) in enumerate(sents) if j != i]\n", "            [s for s in sents if s != sents[i]] or [sents[i]]\n")],
 needs='two generated sentences that are equal', breaks='duplicates are not compared with each other, so self-BLEU reports diversity where there is none', libs=L,
 demo=H+'''
from discs.evaluators import lm_eval
from nltk.translate import bleu_score
e = lm_eval.build_evaluator(ml_collections.ConfigDict(dict(experiment=dict(max_n_grams=2))))
s = [t.split() for t in ('a b c d e', 'a b c d e', 'p q r s t u')]
want = bleu_score.corpus_bleu([[s[1], s[2]], [s[0], s[2]], [s[0], s[1]]], s)
expect(abs(e.self_bleu(s) - want) < 1e-6, 'self-BLEU %s, by definition %s' % (e.self_bleu(s), want))
'''),
dict(id='ngram-total', prop='C27', edits=[(D+'evaluators/lm_eval.py', "      n_unique = len([k for k, v in pred_ngrams[i].items() if v == 1])\n      total = sum(pred_ngrams[i].values())\n", "      n_unique = len([k for k, v in pred_ngrams[i].items() if v == 1])\n      total = len(pred_ngrams[i])\n")],
 needs='generated sentences that repeat an n-gram', breaks='the share of unique n-grams is taken of the distinct ones instead of all', libs=L,
 demo=H+'''
from discs.evaluators import lm_eval
e = lm_eval.build_evaluator(ml_collections.ConfigDict(dict(experiment=dict(max_n_grams=2))))
v = e.self_unique_ngrams([['a', 'b', 'a']], 1)[1]
expect(abs(v - 1 / 3) < 1e-6, 'one of three 1-grams is unique, reported %s' % v)
'''),
dict(id='balance-empty', prop='C28', edits=[(D+'common/normcut_evaluator.py', "  balanceness = (np.sum(outer_prod) * num_groups) / (\n      (num_groups - 1) * (num_nodes**2))\n", "  num_groups = len(bins)\n  balanceness = (np.sum(outer_prod) * num_groups) / (\n      max(num_groups - 1, 1) * (num_nodes**2))\n")],
 needs='a partition that leaves a group empty', breaks='the balance is measured against the number of non-empty groups, so a partition that misses a group looks perfectly balanced', libs=L,
 demo=H+'''
from discs.common import normcut_evaluator as ne
g = nx.cycle_graph(6); a = nx.to_numpy_array(g)
cr, bl, _ = ne.evaluate(np.array([0, 0, 0, 1, 1, 1]), 6, 12, a, 3)
expect(abs(bl - 18 * 3 / (2 * 36)) < 1e-9, 'balance %s' % bl)
'''),
dict(id='bern-var', prop='C28', edits=[(D+'evaluators/bernoulli_eval.py', "    last_samples = jnp.expand_dims(samples[-1], axis=1)\n", "    last_samples = jnp.expand_dims(samples[-1], axis=0)\n")],
 needs='an evaluation of more than one chain', breaks='the error of the combined last samples compares each chain separately instead of their mean', libs=L,
 demo=H+'''
from discs.evaluators import bernoulli_eval
from discs.models import bernoulli
m = bernoulli.build_model(ml_collections.ConfigDict(dict(model=dict(shape=(1,), init_sigma=1.))))
p = {'params': jnp.array([.4])}
s = jnp.array(np.random.RandomState(0).randint(0, 2, (5, 6, 1)))
r = bernoulli_eval.build_evaluator(ml_collections.ConfigDict({})).evaluate(s, m, p)
q = 1 / (1 + np.exp(-.4)); want = (float(jnp.mean(s[-1])) - q) ** 2
expect(abs(float(r[4]) - want) < 1e-4, 'error of the last samples %s, exact %s' % (r[4], want))
'''),
dict(id='infill-first-word', prop='C29', edits=[(D+'common/utils.py', """              range(1, len(wiki_new_list) - 1), num_of_masks, replace=False
""", """              range(1, len(wiki_new_list) - 1), num_of_masks
""")],
 needs='two or more masks, and the same word of a sentence of the second corpus drawn twice', breaks='a sentence has fewer masked words than requested', libs=L,
 demo=H+'''
from discs.common import utils
class T:
  def tokenize(self, s): return s.split(' ')
import json
open(tmp + '/tbc.5k.txt', 'w').write('\\n'.join('a%d b c d e f' % i for i in range(20)) + '\\n')
open(tmp + '/wiki103.5k.txt', 'w').write('\\n'.join('w%d x y z u v' % i for i in range(20)) + '\\n')
for s in range(5):
  np.random.seed(s)
  utils.create_infill_dataset(tmp, T(), 3, 8, 4, 10)
  for d in json.load(open(tmp + '/infilling_task.json')):
    expect(d['sentence'].split(' ').count('[MASK]') == 3, 'masked words: %s' % d['sentence'])
'''),
dict(id='infill-too-long', prop='C29', edits=[(D+'common/utils.py', """          tbc_ref_list.append(tbc)
      else:
        tbc_ref_list.append(tbc)
""", """          tbc_ref_list.append(tbc_new)
      else:
        tbc_ref_list.append(tbc)
""")],
 needs='a line of the first corpus outside the length bounds that contains quotation marks', breaks='the line is not kept as it is in the remaining reference corpus', libs=L,
 demo=H+'''
from discs.common import utils
class T:
  def tokenize(self, s): return s.split(' ')
lines = ["`` so '' said he" if i % 2 else 'a%d b c d e f' % i for i in range(12)]
open(tmp + '/tbc.5k.txt', 'w').write('\\n'.join(lines) + '\\n')
open(tmp + '/wiki103.5k.txt', 'w').write('\\n'.join('w%d x y z u v' % i for i in range(20)) + '\\n')
np.random.seed(0); utils.create_infill_dataset(tmp, T(), 1, 8, 6, 10)
rest = [l.rstrip('\\n') for l in open(tmp + '/tbc_remove_infill.5k.txt')]
expect(all(r in lines for r in rest), 'the remaining corpus has a line the corpus has not: %s' % [r for r in rest if r not in lines][:1])
'''),
dict(id='topk-order', prop='C30', edits=[(X, "      topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]\n", "      topk_sentences = list(dict.fromkeys(s.split(' ', 1)[1] for s in sorted_sent))\n      topk_sentences = ['0 ' + s for s in topk_sentences[-self.config.topk_num :]]\n")],
 needs='two resampled sentences that are equal', breaks='equal sentences are merged before the most likely ones are taken, so less likely sentences enter (or fewer than requested are returned)', libs=L,
 demo=H+'''
from discs.experiment import sampling
c = ml_collections.ConfigDict(dict(experiment=dict(use_topk=True, topk_num=2, num_same_resample=4, run_parallel=False), model=dict(shape=(1,))))
ex = sampling.Text_Infilling_Experiment(c)
it = iter([('the cat', -1.), ('a dog', -5.), ('the cat', -1.1), ('one fox', -9.)])
ex.preprocess = lambda *a, **k: [[None], None, None, 0]
def chain(*a):
  s, l = next(it); return s, 0, l
ex._compute_chain = chain
ok, sents, top = ex._get_chains_and_evaluations(None, None, None, None)
expect(sents == ['the cat', 'a dog', 'the cat', 'one fox'], 'sentences %s' % sents)
expect(sorted(top) == ['the cat', 'the cat'], 'the two most likely ones: %s' % top)
'''),
dict(id='group-subset', prop='C31', edits=[(D+'plot_results/plot_utils.py', "    if dict1[key] != dict2[key] and key != key_diff:\n      return None\n", "    if str(dict1[key])[:8] != str(dict2[key])[:8] and key != key_diff:\n      return None\n")],
 needs='two runs with settings that differ only after the eighth character (long graph configurations)', breaks='runs with different settings are grouped together', libs=L,
 demo=H+'''
from discs.plot_results import plot_utils
a = dict(name='gwg', cfg_str='ertest-700-800', k='1'); b = dict(name='gwg', cfg_str='ertest-750-900', k='2')
cl = plot_utils.get_clusters_key_based('k', [a, b])
expect(sorted(map(sorted, cl)) == [[0], [1]], 'runs on different graphs are grouped: %s' % cl)
'''),
dict(id='name-order', prop='C31', edits=[(D+'plot_results/plot_utils.py', "    if 'n' in dict_o_keys:\n      dict_o_keys['name'] = str(dict_o_keys['name']) + '-' + dict_o_keys['n']\n      del dict_o_keys['n']\n", "    if 'n' in dict_o_keys:\n      if dict_o_keys['name'].startswith('dlmc-'):\n        dict_o_keys['name'] = str(dict_o_keys['name']) + '-' + dict_o_keys['n']\n      del dict_o_keys['n']\n")],
 needs='two non-adaptive DLMC runs with the forward Euler solver and different n', breaks='both runs get the same display name', libs=L,
 demo=H+'''
from discs.plot_results import plot_utils
n = [plot_utils.process_keys(dict(name='dlmc', solver='euler_forward', adaptive='False', n=k, balancing_fn_type='SQRT'))['name'] for k in ('2', '5')]
expect(n[0] != n[1], 'both runs are called %s' % n[0])
'''),
dict(id='buffer-update', prop='C32', edits=[(D+'learning/replay_buffer.py', "    buffer_inds = sorted(\n        np.random.choice(self.all_inds, batch_size, replace=False))\n", "    buffer_inds = sorted(\n        np.random.choice(self.all_inds, batch_size, replace=batch_size > len(self.all_inds) // 2))\n")],
 needs='a batch larger than half of the buffer', breaks='a batch contains a slot twice', libs=L,
 demo=H+'''
from discs.learning import replay_buffer
np.random.seed(0)
c = ml_collections.ConfigDict(dict(experiment=dict(buffer_size=10, buffer_init='mean', reinit_freq=.1), model=dict(num_categories=2)))
b = replay_buffer.ReplayBuffer(c, np.random.randint(0, 2, (20, 3)))
for n in (3, 5, 8, 10):
  _, i = b.sample(n)
  expect(len(set(i)) == n, 'slots %s' % i)
'''),
dict(id='buffer-reinit', prop='C32', edits=[(D+'learning/replay_buffer.py', "      reinit = self.reinit_dist(size=[batch_size] + [1] * len(self.data_shape))\n", "      reinit = self.reinit_dist(size=[batch_size] + [1] * (len(self.data_shape) - 1) + [self.data_shape[-1]])\n")],
 needs='a restart frequency strictly between zero and one', breaks='single coordinates instead of whole rows are drawn afresh, so a batch row mixes a stored sample with a new one', libs=L,
 demo=H+'''
from discs.learning import replay_buffer
np.random.seed(0)
c = ml_collections.ConfigDict(dict(experiment=dict(buffer_size=10, buffer_init='mean', reinit_freq=.5), model=dict(num_categories=2)))
b = replay_buffer.ReplayBuffer(c, np.random.randint(0, 2, (20, 12)))
b.buffer[:] = 0; b.init_dist = lambda size: np.ones(size, int)
x, i = b.sample(8)
expect(all(len(set(r)) == 1 for r in x), 'a row mixes stored and fresh values')
'''),
dict(id='config-precedence', prop='C33', edits=[(D+'experiment/main_sampling.py', "    config.experiment.update(co_exp_default_config.get_co_default_config())\n    config.update(_EXPERIMENT_CONFIG.value)\n", "    config.update(_EXPERIMENT_CONFIG.value)\n    config.experiment.update(co_exp_default_config.get_co_default_config())\n")],
 needs='a graph problem whose experiment file sets an option that the optimisation defaults also set', breaks='the optimisation defaults override the experiment file', libs=L,
 demo=H+'''
from absl import flags
from discs.experiment import main_sampling as ms
from discs.models.configs import maxcut_config
from discs.common import configs
class V:
  def __init__(self, v): self.value = v
e = ml_collections.ConfigDict(dict(experiment=dict(batch_size=77, co_opt_prob=False)))
m = maxcut_config.get_config()
with m.unlocked():
  m.graph_type = 'ba'; m.cfg_str = 'r-ba-4-n-16-20'
ms._EXPERIMENT_CONFIG, ms._MODEL_CONFIG, ms._SAMPLER_CONFIG = V(e), V(m), V(ml_collections.ConfigDict(dict(name='gwg')))
c = ms.get_main_config()
expect((c.experiment.batch_size, c.experiment.co_opt_prob) == (77, False), 'experiment file overridden: co_opt_prob=%s' % c.experiment.co_opt_prob)
'''),
]
