S='discs/samplers/'; M='discs/common/math_util.py'
HDR='''
from dl import *
'''
SEEDS=[
dict(id='gwg-double-draw', prop='C01', edits=[(S+'gwg.py', "indicator = (selected > 0).astype(jnp.int32)", "indicator = selected.astype(jnp.int32)")],
 needs='the adaptive binary GWG sampler with an adapted radius of at least 2, and one chain drawing the same coordinate twice in one step',
 breaks='a coordinate drawn twice is set to a value outside {0, 1}', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import gwg
m = Quad(3, seed=1, scale=.2)
s = gwg.build_sampler(config(3, 2, dict(adaptive=True, target_acceptance_rate=.574, balancing_fn_type='SQRT')))
st = dict(s.make_init_state(jax.random.PRNGKey(0))); st['radius'] = jnp.float32(3.)
for i in range(50):
  x, _, _ = s.step(m, jax.random.PRNGKey(i), jnp.zeros((8, 3), jnp.int32), None, dict(st))
  x = np.array(x)
  expect(((x == 0) | (x == 1)).all(), 'values outside the sample space: %s' % np.unique(x))
'''),
dict(id='hb-categories', prop='C02', edits=[(S+'hammingball.py', "          * (self.num_categories - 1) ** (j + 1)\n", "          * (self.num_categories - 1) ** j\n")],
 needs='Hamming-ball sampler on categorical data (three or more categories)', breaks='the auxiliary radius is drawn with weights that do not match the number of points in the ball, so the auxiliary point is not uniform on the ball and the target is not invariant', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import hammingball
m = Quad(2, 5, seed=29, scale=1.)
s = hammingball.build_sampler(config(2, 5, dict(block_size=2)))
st = s.make_init_state(jax.random.PRNGKey(0))
z, raw = gap(s, m, st, n=20000)
print(z, raw)
expect(z < 6 or raw < .004, 'stationary distribution moved by %.3f (%.1f sigma)' % (raw, z))
'''),
dict(id='rw-flip-value', prop='C02', edits=[(S+'randomwalk.py', "        minval=1,\n        maxval=self.num_categories,\n    )\n    return (flipping_value + x) % self.num_categories", "        minval=1,\n        maxval=max(2, self.num_categories - 1),\n    )\n    return (flipping_value + x) % self.num_categories")],
 needs='random walk on categorical data with three or more categories', breaks='the category shift never takes its largest value, so the proposal is not symmetric and the uncorrected acceptance test does not keep the target', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import randomwalk
m = Quad(2, 3, seed=1, scale=.7)
s = randomwalk.build_sampler(config(2, 3, dict(adaptive=False, target_acceptance_rate=.5)))
st = s.make_init_state(jax.random.PRNGKey(0))
z, raw = gap(s, m, st, n=8000)
print(z, raw)
expect(z < 6 or raw < .004, 'stationary distribution moved by %.3f (%.1f sigma)' % (raw, z))
'''),
dict(id='pas-unselected', prop='C03', edits=[(S+'path_auxiliary.py', "      log_prob = jnp.where(selected_mask, log_prob, -1e18)\n", "")],
 needs='the adaptive path-auxiliary sampler flipping fewer coordinates than there are', breaks='the reverse path is renormalised by the coordinates that were not flipped, so the acceptance ratio is wrong and the target is not invariant', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import path_auxiliary
m = Quad(3, seed=2, scale=1.5)
s = path_auxiliary.build_sampler(config(3, 2, dict(adaptive=True, use_fast_path=True, target_acceptance_rate=.574, balancing_fn_type='SQRT', num_flips=1)))
st = dict(s.make_init_state(jax.random.PRNGKey(0))); st['radius'] = jnp.float32(2.)
z, raw = gap(s, m, st, n=30000)
print(z, raw)
expect(z < 6 or raw < .004, 'stationary distribution moved by %.3f (%.1f sigma)' % (raw, z))
'''),
dict(id='pas-cat-origval', prop='C03', edits=[(S+'path_auxiliary.py', "        orig_val = x[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),\n                     reverse_idx_traj]\n", "        orig_val = x[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),\n                     forward_trajectory['selected_idx']]\n")],
 needs='the non-adaptive path-auxiliary sampler on categorical data with two or more flips', breaks='the original values on the reverse path are matched with the wrong positions (forward order against reverse order)', libs=['dl.py'],
 demo=HDR+"""
from discs.samplers import path_auxiliary
m = Quad(2, 3, seed=4, scale=1.)
s = path_auxiliary.build_sampler(config(2, 3, dict(adaptive=False, use_fast_path=True, balancing_fn_type='SQRT', num_flips=2)))
z, raw = gap(s, m, s.make_init_state(jax.random.PRNGKey(0)), n=20000)
print(z, raw)
expect(z < 6 or raw < .004, 'stationary distribution moved by %.3f (%.1f sigma)' % (raw, z))
"""),
dict(id='dmala-coopt-tau', prop='C04', edits=[(S+'dmala.py', "      local_stats = self.reset_stats(log_rate_y['weights'])\n      log_tau = local_stats['log_tau']\n", "      local_stats = self.reset_stats(log_rate_y['weights'])\n")],
 needs='adaptive DMALA in the optimisation mode (co_opt_prob)', breaks='the reverse proposal is scored with the step size of the forward one although the mode recomputes it from the current state', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import dmala
m = Quad(3, seed=2, scale=1.2)
c = config(3, 2, dict(adaptive=True, target_acceptance_rate=.574, balancing_fn_type='RATIO', reset_z_est=20, schedule_step=10)); c.experiment.co_opt_prob = True
s = dmala.build_sampler(c)
st = dict(s.make_init_state(jax.random.PRNGKey(0)))
z, raw = gap(s, m, st, n=30000)
print(z, raw)
expect(z < 6 or raw < .004, 'stationary distribution moved by %.3f (%.1f sigma)' % (raw, z))
'''),
dict(id='dlmc-unnormalised', prop='C04', edits=[(S+'dlmc.py', "    dist_ll = jax.nn.log_softmax(dist)\n", "    dist_ll = dist\n")],
 needs='categorical DLMC with a step size so large that the probability of staying is clipped from below', breaks='the proposal is scored with unnormalised weights while it is drawn from the normalised ones', libs=['dl.py'],
 demo=HDR+"""
from discs.samplers import dlmc
m = Quad(2, 3, seed=2, scale=1.)
for solver in ('euler_forward', 'interpolate'):
  for lt in (-2., 1.5):
    s = dlmc.build_sampler(config(2, 3, dict(adaptive=False, balancing_fn_type='SQRT', solver=solver, n=3)))
    st = dict(s.make_init_state(jax.random.PRNGKey(0))); st['steps'] = jnp.int32(5); st['log_tau'] = jnp.float32(lt)
    z, raw = gap(s, m, st, n=20000)
    print(solver, lt, z, raw)
    expect(z < 6 or raw < .004, 'stationary distribution moved by %.4f (%.1f sigma)' % (raw, z))
"""),
dict(id='pas-shared-stabiliser', prop='C05', edits=[(S+'path_auxiliary.py', "    log_prob = jax.nn.log_softmax(jnp.reshape(logits, (x.shape[0], -1)), -1)\n", "    logits = jnp.reshape(logits, (x.shape[0], -1))\n    logits = logits - jnp.max(logits)\n    log_prob = logits - jnp.log(jnp.sum(jnp.exp(logits), -1, keepdims=True))\n")],
 needs='two chains stepped together, one at a sharp mode whose best move has a balanced weight about exp(-90) of the best move of the other', breaks='the proposal of one chain underflows because of another chain of the batch', libs=['dl.py'],
 demo=HDR+"""
from discs.samplers import path_auxiliary
m = Quad(4, seed=1, scale=0.); m.b = jnp.array([400., 420., 380., 410.])
for nf in (1, 2):
  s = path_auxiliary.build_sampler(config(4, 2, dict(adaptive=False, use_fast_path=True, balancing_fn_type='SQRT', num_flips=nf)))
  st = s.make_init_state(jax.random.PRNGKey(0))
  top, low = jnp.ones((1, 4), jnp.int32), jnp.zeros((1, 4), jnp.int32)
  alone = s.get_local_dist(m, top, None, None)[1][0]
  both = s.get_local_dist(m, jnp.concatenate([top, low]), None, None)[1][0]
  expect(np.allclose(alone, both, atol=1e-3), 'proposal of a chain alone %s, with another %s' % (alone, both))
"""),
dict(id='adaptive-rw-clip', prop='C06', edits=[(S+'randomwalk.py', "acc = jnp.mean(jnp.exp(jnp.clip(log_acc, a_max=0.0)))", "acc = jnp.clip(jnp.mean(jnp.exp(log_acc)), a_max=1.0)")],
 needs='several chains in one step with mixed outcomes: one proposal far uphill while the others are rejected', breaks='the adaptation sees an acceptance of one although fewer proposals than the target are accepted and enlarges the step size', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import randomwalk
s = randomwalk.build_sampler(config(6, 2, dict(adaptive=True, target_acceptance_rate=.5)))
st = dict(s.make_init_state(jax.random.PRNGKey(0))); st['radius'] = jnp.float32(3.)
x = jnp.zeros((4, 6), jnp.int32)
_, ns = s.select_sample(jax.random.PRNGKey(1), jnp.array([3., -9., -9., -9.]), x, 1 - x, dict(st))
expect(float(ns['radius']) < 3., 'acceptance .25 below the target .5 but the radius went from 3 to %s' % ns['radius'])
'''),
dict(id='gwg-radius-cap', prop='C06', edits=[(S+'gwg.py', "new_state['radius'] = jnp.clip(r, a_min=1, a_max=math.prod(y.shape[1:]))", "new_state['radius'] = jnp.clip(r, a_min=1, a_max=math.prod(y.shape))")],
 needs='a long run of accepted moves with several chains: the radius passes the number of coordinates', breaks='the adapted number of flips leaves [1, number of coordinates] (the cap counts the chains too)', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import gwg
m = Quad(3, seed=1, scale=0.)
s = gwg.build_sampler(config(3, 2, dict(adaptive=True, target_acceptance_rate=.5, balancing_fn_type='SQRT')))
st = s.make_init_state(jax.random.PRNGKey(0)); x = jnp.zeros((4, 3), jnp.int32)
for i in range(12):
  x, st, _ = s.step(m, jax.random.PRNGKey(i), x, None, st)
  expect(1 <= float(st['radius']) <= 3, 'radius %s with three coordinates' % st['radius'])
'''),
dict(id='pas-mask-reverse', prop='C07', edits=[(S+'path_auxiliary.py', "    ll_y, ll_y2x, num_calls_backward = self.ll_y2x(\n        model, x, model_param, trajectory, y, x_mask)", "    ll_y, ll_y2x, num_calls_backward = self.ll_y2x(\n        model, x, model_param, trajectory, y, None)")],
 needs='a path-auxiliary step with a mask that excludes some coordinates', breaks='the reverse path is scored as if the masked coordinates could be chosen, so the conditional target is not invariant', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import path_auxiliary
m = Quad(4, seed=2, scale=.3)
m.a = m.a.at[2, :].set(jnp.array([3., -3., 0., 3.])).at[:, 2].set(jnp.array([3., -3., 0., 3.]))
s = path_auxiliary.build_sampler(config(4, 2, dict(adaptive=False, use_fast_path=True, balancing_fn_type='SQRT', num_flips=1)))
free = np.array([True, True, False, True])
z, raw = gap(s, m, s.make_init_state(jax.random.PRNGKey(0)), n=20000, mask=jnp.array(free[None], jnp.int32), free=free)
print(z, raw)
expect(z < 6 or raw < .004, 'conditional distribution moved by %.3f (%.1f sigma)' % (raw, z))
'''),
dict(id='gwg-mask-weak', prop='C07', edits=[(S+'gwg.py', "score_change_x = score_change_x * x_mask + -1e9 * (1 - x_mask)", "score_change_x = score_change_x - 1e2 * (1 - x_mask)")],
 needs='a masked coordinate whose flip would raise the log-likelihood by several hundred', breaks='masked coordinates are only penalised by a constant, so a steep energy moves them', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import gwg
m = Quad(4, seed=2, scale=.5); m.b = m.b.at[2].set(800.)
s = gwg.build_sampler(config(4, 2, dict(adaptive=False, balancing_fn_type='SQRT', num_flips=1)))
x = jnp.zeros((6, 4), jnp.int32); st = s.make_init_state(jax.random.PRNGKey(0))
for i in range(10):
  x, st, _ = s.step(m, jax.random.PRNGKey(i), x, None, st, x_mask=jnp.array([[1, 1, 0, 1]]))
  expect((np.array(x)[:, 2] == 0).all(), 'masked coordinate changed')
'''),
dict(id='bg-trailing-block', prop='C08', edits=[(S+'blockgibbs.py', "    sampler_state['index'] = (sampler_state['index'] + self.block_size) % dim\n", "    index = sampler_state['index'] + self.block_size\n    sampler_state['index'] = jnp.where(index + self.block_size > dim, 0, index)\n")],
 needs='a block size that does not divide the number of coordinates and more than one sweep', breaks='the trailing coordinates of the sample are never updated', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import blockgibbs
m = Quad(5, seed=2, scale=0.)
s = blockgibbs.build_sampler(config(5, 2, dict(block_size=2)))
x = jnp.zeros((6, 5), jnp.int32); st = s.make_init_state(jax.random.PRNGKey(0)); ever = np.zeros(5, bool)
for i in range(40):
  y, st, _ = s.step(m, jax.random.PRNGKey(i), x, None, st)
  ever |= (np.array(y) != np.array(x)).any(0); x = y
expect(ever.all(), 'coordinates never updated: %s' % np.where(~ever)[0])
'''),
dict(id='hb-choice-range', prop='C08', edits=[(S+'hammingball.py', "    block = start_index + jnp.arange(self.block_size)\n    u =", "    block = jnp.clip(start_index, a_max=x.shape[1] - self.block_size) + jnp.arange(self.block_size)\n    u =")],
 needs='a state index in the last partial block (block size not dividing the dimension)', breaks='the block is shifted back so that a step changes coordinates outside the current block', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import hammingball
m = Quad(5, seed=2, scale=0.)
s = hammingball.build_sampler(config(5, 2, dict(block_size=3)))
x = jnp.zeros((6, 5), jnp.int32); st = s.make_init_state(jax.random.PRNGKey(0))
for i in range(60):
  lo = int(st['index'])
  y, st, _ = s.step(m, jax.random.PRNGKey(i), x, None, st)
  ch = np.where((np.array(y) != np.array(x)).any(0))[0]; x = y
  expect(all(lo <= c < lo + 3 for c in ch), 'step at index %d changed %s' % (lo, ch))
'''),
dict(id='dmala-uncounted', prop='C09', edits=[(S+'dmala.py', "    state['num_ll_calls'] += 4\n    if not self.adaptive or self.co_opt_prob:\n      return\n", "    if not self.adaptive or self.co_opt_prob:\n      return\n    state['num_ll_calls'] += 4\n")],
 needs='DMALA without adaptation or in the optimisation mode', breaks='the energy evaluations of the step are not counted', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import dmala
m = Quad(3, seed=2, scale=1.)
for ad in (True, False):
  s = dmala.build_sampler(config(3, 2, dict(adaptive=ad, target_acceptance_rate=.574, balancing_fn_type='SQRT', schedule_step=10)))
  st = s.make_init_state(jax.random.PRNGKey(0)); x = jnp.zeros((2, 3), jnp.int32)
  for i in range(3): x, st, _ = s.step(m, jax.random.PRNGKey(i), x, None, st)
  expect(int(st['num_ll_calls']) == 12, 'three steps reported %s evaluations' % st['num_ll_calls'])
'''),
dict(id='pas-acc-unclipped', prop='C09', edits=[(S+'path_auxiliary.py', "    acc = jnp.mean(jnp.clip(jnp.exp(log_acc), a_max=1))\n    return new_x, new_state, acc", "    acc = jnp.clip(jnp.exp(jnp.mean(log_acc)), a_max=1)\n    return new_x, new_state, acc")],
 needs='several chains with different acceptance ratios in one step', breaks='the reported acceptance is the geometric mean of the ratios instead of the mean acceptance probability', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import path_auxiliary
m = Quad(3, seed=2, scale=1.5)
s = path_auxiliary.build_sampler(config(3, 2, dict(adaptive=False, use_fast_path=True, balancing_fn_type='SQRT', num_flips=2)))
st = s.make_init_state(jax.random.PRNGKey(0)); x = jnp.zeros((16, 3), jnp.int32)
seen = {}
orig = s.select_sample
def spy(rng, nc, log_acc, *a):
  seen['l'] = np.array(log_acc); return orig(rng, nc, log_acc, *a)
s.select_sample = spy
_, _, acc = s.step(m, jax.random.PRNGKey(3), x, None, st)
want = np.minimum(1, np.exp(seen['l'])).mean()
expect(abs(float(acc) - want) < 1e-4, 'reported %s, mean acceptance probability %s' % (acc, want))
'''),
dict(id='multinomial-extra', prop='C10', edits=[(M, "mask = jnp.arange(batch_size, dtype=cnt.dtype) + cnt < num_samples", "mask = jnp.arange(batch_size, dtype=cnt.dtype) + cnt <= num_samples")],
 needs='draws with replacement in groups (batch_size > 1) whose size does not divide the requested number', breaks='one draw too many is counted', libs=['dl.py'],
 demo=HDR+'''
from discs.common import math_util
for n in range(1, 8):
  for b in (1, 2, 3):
    c = math_util.multinomial(jax.random.PRNGKey(n), jnp.log(jnp.array([[.2, .3, .5]])), jnp.int32(n), True, False, batch_size=b)
    expect(int(jnp.sum(c)) == n, 'asked for %d draws, got %d (groups of %d)' % (n, int(jnp.sum(c)), b))
'''),
dict(id='log1mexp-branch', prop='C10', edits=[(M, "jnp.where(x > -0.693, jnp.log(-jnp.expm1(x)), jnp.log1p(-jnp.exp(x)))", "jnp.where(x > -6.93, jnp.log1p(-jnp.exp(x)), jnp.log(-jnp.expm1(x)))")],
 needs='arguments close to zero (or very negative), where the other branch is needed for accuracy', breaks='log(1 - exp(-|x|)) loses all digits for small |x| (minus infinity below 1e-8)', libs=['dl.py'],
 demo=HDR+'''
from discs.common import math_util
for v in (1e-9, 1e-7, 1e-5, 1e-3, .1, .7, 1., 5., 10.):
  got = float(math_util.log1mexp(jnp.float32(v))); want = np.log(-np.expm1(-v))
  expect(abs(got - want) <= 1e-3 * max(1, abs(want)), 'log1mexp(%g) = %g, exact %g' % (v, got, want))
'''),
dict(id='weight-ratio-log', prop='C10', edits=[(S+'locallybalanced.py', "      return jax.nn.log_sigmoid(logt)", "      return logt - jnp.log1p(jnp.exp(logt))")],
 needs='log ratios above about 88 with the RATIO balancing function', breaks='the log-scale weight overflows to minus infinity (the move is never proposed) instead of approaching zero', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import locallybalanced
s = locallybalanced.LocallyBalancedSampler(config(3, 2, dict(balancing_fn_type='RATIO')))
for v in (-200., -50., 0., 50., 120., 500.):
  got = float(s.apply_weight_function_logscale(jnp.float32(v))); want = -np.logaddexp(0, -v)
  expect(abs(got - want) < 1e-3 * max(1, abs(want)), 'log g(exp(%g)) = %g, exact %g' % (v, got, want))
'''),
]
