S='discs/samplers/'
HDR='''
from dl import *
class Flat:
  def __init__(self, shift=None): self.shift = shift
  def get_value_and_grad(self, p, x):
    x = x.astype(jnp.float32); g = jnp.zeros_like(x)
    if self.shift is not None: g = g + jnp.asarray(self.shift, jnp.float32)
    return jnp.sum((g * x).reshape(x.shape[0], -1), -1), g
  def forward(self, p, x): return jnp.zeros(x.shape[0])
'''
SEEDS=[
dict(id='dmala-cat-stay', prop='C36', edits=[(S+'dmala.py', "    log_posterior_x = log_posterior_x * (1 - x)\n", "    log_posterior_x = log_posterior_x - jnp.min(log_posterior_x, axis=-1, keepdims=True) * x\n")],
 needs='categorical DMALA where the current value is not the least likely one', breaks='the weight of keeping the current value is not one, so the step size no longer has its meaning (the acceptance test still keeps the target)', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import dmala
e = np.array([0., -2., 2.])
s = dmala.build_sampler(config(1, 3, dict(adaptive=False, step_size=.25, balancing_fn_type='SQRT')))
x = jnp.zeros((40000, 1), jnp.int32)
y, _, _ = s.step(Flat([e]), jax.random.PRNGKey(1), x, None, s.make_init_state(jax.random.PRNGKey(0)))
def q(i):
  v = np.exp(-2 + (e - e[i]) / 2); v[i] = 1.
  return v / v.sum()
want = [q(0)[j] * min(1, np.exp(e[j] - e[0]) * q(j)[0] / q(0)[j]) for j in (1, 2)]
got = [float((np.array(y) == j).mean()) for j in (1, 2)]
print(got, want)
expect(np.abs(np.array(got) - want).max() < .02, 'moves have frequencies %s instead of %s' % (got, want))
'''),
dict(id='dlmc-euler-cap', prop='C36', edits=[(S+'dlmc.py', "    return jnp.exp(jnp.clip(threshold_x, a_max=log_nu_x))\n", "    return jnp.exp(jnp.clip(threshold_x, a_max=0.0))\n")],
 needs='binary DLMC with the forward Euler solver and a step size so large that the linear rate exceeds the equilibrium probability', breaks='the flip probability exceeds the equilibrium probability it must not pass (the acceptance test still keeps the target)', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import dlmc
m = Flat()
s = dlmc.build_sampler(config(2, 2, dict(adaptive=False, solver='euler_forward', n=3, balancing_fn_type='SQRT')))
y, _, _ = s.step(m, jax.random.PRNGKey(1), jnp.zeros((20000, 2), jnp.int32), None, s.make_init_state(jax.random.PRNGKey(0)))
got = float(np.array(y).mean())
expect(abs(got - .5) < .02, 'on a flat energy a long step flips with frequency %.3f instead of 0.5' % got)
'''),
dict(id='gwg-cat-reference', prop='C36', edits=[(S+'gwg.py', "    ll_delta = grad_x - jnp.sum(grad_x * x, axis=-1, keepdims=True)\n", "    ll_delta = grad_x - jnp.sum(grad_x * x, axis=(-2, -1), keepdims=True) / x.shape[-2]\n")],
 needs='categorical Gibbs with gradients where the gradient at the current values differs between coordinates', breaks='the estimated change of a move is taken relative to the average coordinate instead of its own, so the proposal prefers the wrong coordinates (the acceptance test still keeps the target)', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import gwg
m = Flat([[4.] * 3, [0.] * 3])
s = gwg.build_sampler(config(2, 3, dict(adaptive=False, num_flips=1, target_acceptance_rate=.5, balancing_fn_type='SQRT')))
y, _, _ = s.step(m, jax.random.PRNGKey(1), jnp.ones((20000, 2), jnp.int32), None, s.make_init_state(jax.random.PRNGKey(0)))
got = (np.array(y) != 1).mean(0)
print(got)
expect(abs(got - .5).max() < .03, 'coordinates with equal chances move with frequencies %s' % got)
'''),
dict(id='pas-radius-floor', prop='C36', edits=[(S+'path_auxiliary.py', "      num_samples = jnp.clip(jnp.round(state['radius']).astype(jnp.int32),\n", "      num_samples = jnp.clip(state['radius'].astype(jnp.int32),\n")],
 needs='adaptive PAS after the radius has adapted to a value whose fractional part is above one half', breaks='the path is one flip shorter than the adapted radius says', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import path_auxiliary
s = path_auxiliary.build_sampler(config(6, 2, dict(adaptive=True, use_fast_path=True, num_flips=1, target_acceptance_rate=.574, balancing_fn_type='SQRT')))
st = dict(s.make_init_state(jax.random.PRNGKey(0))); st['radius'] = jnp.float32(2.7)
y, _, _ = s.step(Flat(), jax.random.PRNGKey(1), jnp.zeros((500, 6), jnp.int32), None, st)
n = np.array(y).sum(1)
expect((n == 3).all(), 'with radius 2.7 steps flip %s coordinates' % np.unique(n))
'''),
dict(id='rw-radius-int', prop='C36', edits=[(S+'randomwalk.py', "        rnd_new_sample, p=(state['radius'] / dim), shape=x.shape\n", "        rnd_new_sample, p=(jnp.round(state['radius']) / dim), shape=x.shape\n")],
 needs='adaptive random walk after the radius has adapted to a non-integer value', breaks='the expected number of changed coordinates is the rounded radius', libs=['dl.py'],
 demo=HDR+'''
from discs.samplers import randomwalk
s = randomwalk.build_sampler(config(4, 2, dict(adaptive=True, target_acceptance_rate=.5)))
st = dict(s.make_init_state(jax.random.PRNGKey(0))); st['radius'] = jnp.float32(1.4)
y, _, _ = s.step(Flat(), jax.random.PRNGKey(1), jnp.zeros((20000, 4), jnp.int32), None, st)
got = float(np.array(y).sum(1).mean())
expect(abs(got - 1.4) < .05, 'with radius 1.4 a step changes %.3f coordinates on average' % got)
'''),
]
