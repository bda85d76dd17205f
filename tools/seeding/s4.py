D='discs/'; T=D+'learning/train.py'
H='''
from trlib import *
'''
L=['trlib.py']
TOY='''
from discs.learning import train
class Toy(train.Trainer):
  def __init__(self, c): super().__init__(c); self.model, self.sampler = Quad(), Roll(); self.seen = []
  def build_loss_func(self, rng, batch):
    def f(p):
      l = jnp.mean((batch @ p['w']) ** 2)
      return l, {'loss': l}
    return f
  def batch_processing(self, ls, ss, k, b):
    self.seen.append(np.asarray(ss.ema_params['w'])[0]); return b, ls
class W:
  def __init__(self): self.rows = []
  def write_scalars(self, s, d): self.rows.append((s, d))
  def flush(self): pass
def run(n=None, **k):
  c = ml_collections.ConfigDict(dict(experiment=exp(**k)))
  t = Toy(c); gs, ls = t.init_states(jax.random.PRNGKey(0))
  r = np.random.default_rng(0); D = jax.local_device_count()
  data = [r.normal(size=(D, 2, 2)).astype(np.float32) for _ in range(n or c.experiment.total_train_steps)]
  w = W()
  return jax_utils.unreplicate(t.train_loop(w, jax.random.PRNGKey(1), gs, ls, iter(data))), data, w, t
'''
CD='''
import discs.learning.%s as m
from discs.models import %s as mod
def cd(D, pcd, two, mc, **k):
  c = ml_collections.ConfigDict(dict(model=mc, experiment=exp(pcd_steps=pcd, **k), sampler=dict(name='x')))
  s = Roll(); s.two = two
  return c, mod.build_model(c), s
'''
DEV='--xla_force_host_platform_device_count=2'
SEEDS=[
dict(id='ema-first-step', prop='C34', edits=[(T, "        decay=jnp.where(state.step == 0, 0.0,\n", "        decay=jnp.where(state.step <= 1, 0.0,\n")],
 needs='at least two training steps and a positive averaging decay', breaks='the averaged weights forget the first step', libs=L,
 demo=H+TOY+'''
s, data, _, _ = run(total_train_steps=3)
w = np.ones(2); e = None
for i, b in enumerate(data):
  b = b.reshape(-1, 2).astype(float)
  w = w - .1 * (2 * b * (b @ w)[:, None]).mean(0); e = w if i == 0 else .9 * e + .1 * w
expect(np.abs(np.asarray(s.ema_params['w']) - e).max() < 1e-4, 'average %s, expected %s' % (s.ema_params['w'], e))
'''),
dict(id='grad-device', prop='C34', xla=DEV, edits=[(T, "    grads = jax.lax.pmean(grads, axis_name='shard')\n    aux = jax.lax.pmean(aux, axis_name='shard')\n", "    aux = jax.lax.pmean(aux, axis_name='shard')\n    grads = jax.tree_util.tree_map(\n        lambda g: jax.lax.pmean(g, axis_name='shard') if g.ndim > 1 else g, grads)\n")],
 needs='several devices and a parameter that is a vector', breaks='biases are trained on the batch of one device only', libs=L,
 demo=H+TOY+'''
s, data, _, _ = run(total_train_steps=1)
b = data[0].reshape(-1, 2).astype(float); w = np.ones(2)
w = w - .1 * (2 * b * (b @ w)[:, None]).mean(0)
expect(np.abs(np.asarray(s.params['w']) - w).max() < 1e-4, 'weights %s, expected %s' % (s.params['w'], w))
'''),
dict(id='lr-joined', prop='C34', edits=[(T, "        optax.linear_schedule(config.learning_rate, config.learning_rate * 0.01,\n                              config.total_train_steps - warmup_steps)\n    ], [warmup_steps])\n", "        optax.linear_schedule(config.learning_rate, config.learning_rate * 0.01,\n                              config.total_train_steps)\n    ], [warmup_steps])\n")],
 needs='the up-down schedule with a warm-up, late in training', breaks='the decay is not finished at the end of training', libs=L,
 demo=H+'''
from discs.learning import train
c = ml_collections.ConfigDict(exp(lr_schedule='updown', warmup_frac=.3, total_train_steps=100))
f = train.build_lr_schedule(c)
expect(abs(float(f(30)) - .1) < 1e-6 and abs(float(f(100)) - .001) < 1e-6, 'rate %s at the end' % f(100))
'''),
dict(id='ckpt-resume', prop='C34', edits=[(T, "      for step in range(init_step + 1, exp_config.total_train_steps + 1):\n", "      for step in range(init_step + 1, init_step + exp_config.total_train_steps + 1):\n")],
 needs='training continued from a state that already has steps', breaks='a continued training takes the full number of steps again', libs=L,
 demo=H+TOY+'''
c = ml_collections.ConfigDict(dict(experiment=exp(total_train_steps=5)))
t = Toy(c); gs, ls = t.init_states(jax.random.PRNGKey(0))
data = iter([np.ones((jax.local_device_count(), 2, 2), np.float32)] * 9)
s = t.train_loop(W(), jax.random.PRNGKey(1), gs.replace(step=3), ls, data)
expect(int(jax_utils.unreplicate(s).step) == 5, 'step %s' % s.step)
'''),
dict(id='pcd-keys', prop='C34', edits=[(D+'learning/rbm/main_rbm_training.py', "      batch_rng_key = jax.random.fold_in(batch_rng_key, micro_step)\n      batch_rng = utils.shard_prng_key(batch_rng_key)\n      samples, sampler_state = self.sampler_step(\n", "      batch_rng = utils.shard_prng_key(\n          jax.random.fold_in(batch_rng_key, micro_step // 2))\n      samples, sampler_state = self.sampler_step(\n")],
 needs='at least two sampler steps per training step', breaks='two successive sampler steps use the same random key', libs=L,
 demo=H+CD%('rbm.main_rbm_training','rbm')+'''
c, model, s = cd(1, 3, True, dict(name='rbm', num_visible=4, num_hidden=2, num_categories=2, shape=(4,), data_mean=(.5,)*4))
t = m.RBMTrainer(c, model, s)
gs, ls = t.init_states(jax.random.PRNGKey(0)); ss = jax_utils.replicate(gs)
_, ls = t.batch_processing(ls, ss, jax.random.PRNGKey(1), np.zeros((jax.local_device_count(), 4, 4)))
k = np.asarray(ls.sampler_state['log'])[0, :3]
expect(len(set(map(tuple, k.tolist()))) == 3, 'keys %s' % k)
'''),
dict(id='buffer-slots', prop='C34', xla=DEV, edits=[(D+'learning/binary_ebm/main_binary_training.py', "    buffer_samples = np.reshape(jax.device_get(samples),\n                                (bsize,) + samples.shape[2:])\n", "    buffer_samples = np.reshape(np.swapaxes(jax.device_get(samples), 0, 1),\n                                (bsize,) + samples.shape[2:])\n")],
 needs='several devices with several chains each', breaks='evolved samples are written back to the wrong buffer slots', libs=L,
 demo=H+CD%('binary_ebm.main_binary_training','resnet')+'''
c, model, s = cd(2, 1, False, dict(name='resnet', n_channels=2, image_shape=(3, 4), num_categories=2, shape=(12,), data_mean=(.5,)*12))
np.random.seed(0)
t = m.EBMTrainer(c, model, s, np.random.randint(0, 2, (9, 12)).astype(np.float32))
gs, ls = t.init_states(jax.random.PRNGKey(0)); ss = jax_utils.replicate(gs)
before = t.buffer.buffer.copy()
_, ls = t.batch_processing(ls, ss, jax.random.PRNGKey(1), np.zeros((2, 2, 12)))
ch = (t.buffer.buffer != before).any(1)
expect(ch.sum() == 4 and (t.buffer.buffer[ch] == 1 - before[ch]).all(), 'buffer rows mixed up')
'''),
dict(id='omniglot-overlap', prop='C35', edits=[(D+'learning/raw_torch_dataset.py', "    x_train = train_data[:-n_validation]\n    x_val = train_data[-n_validation:]\n", "    x_train = train_data[:-n_validation].copy()\n    np.random.shuffle(train_data)\n    x_val = train_data[-n_validation:]\n")],
 needs='the omniglot reader', breaks='the images are shuffled again between the two parts of the split, so validation images are also trained on', libs=L,
 demo=H+'''
import scipy.io
from discs.learning import raw_torch_dataset as d
r = np.random.default_rng(0); np.random.seed(0)
x = (r.random((784, 1400)) < .5).astype(float)
with tempfile.TemporaryDirectory() as t:
  os.makedirs(t + '/OMNIGLOT'); scipy.io.savemat(t + '/OMNIGLOT/chardata.mat', dict(data=x, testdata=x[:, :3]))
  tr, va, te = d.load_raw_dataset(argparse.Namespace(dataset_name='omniglot', data_dir=t))
a = set(map(bytes, np.ascontiguousarray(tr.astype(np.uint8)))); b = set(map(bytes, np.ascontiguousarray(va.astype(np.uint8))))
expect(not a & b and len(a | b) == 1400, '%d images in both parts, %d of 1400 in any' % (len(a & b), len(a | b)))
'''),
dict(id='binarise-rows', prop='C35', edits=[(D+'learning/rbm/main_rbm_training.py', "  noise = tf.random.uniform(shape=img.shape, maxval=1)\n", "  noise = tf.random.uniform(shape=img.shape[1:], maxval=1)\n")],
 needs='images with several rows', breaks='pixels of one column share their random threshold', libs=L,
 demo=H+'''
import discs.learning.rbm.main_rbm_training as m
import tensorflow as tf
tf.random.set_seed(0)
o = np.stack([m.data_preprocess({'image': tf.constant(np.full((2, 1, 1), 128, np.uint8))}).numpy() for _ in range(300)])
expect(0.3 < (o[:, 0] == o[:, 1]).mean() < 0.7, 'pixels agree in %.2f of the draws' % (o[:, 0] == o[:, 1]).mean())
'''),
dict(id='convert-kernels', prop='C35', edits=[(D+'learning/binary_ebm/pt2params.py', "          val = np.transpose(val, (2, 3, 1, 0))\n", "          val = np.transpose(val, (3, 2, 1, 0))\n")],
 needs='a checkpoint with kernels that are not symmetric', breaks='convolution kernels are spatially transposed', libs=L,
 demo=H+'''
with tempfile.TemporaryDirectory() as t:
  sys.argv = ['x', '--config=discs/learning/binary_ebm/exp_config.py:static_mnist-2', '--pt_path=p', '--save_root=' + t]
  import discs.learning.binary_ebm.pt2params as m
  r = np.random.default_rng(0)
  class A:
    def __init__(s, a): s.a = a
    def numpy(s): return s.a
  ck = {'mean': A(np.full(784, .5, np.float32)), 'net.proj.weight': A(r.normal(size=(2, 1, 3, 3)).astype(np.float32)), 'net.proj.bias': A(np.zeros(2, np.float32)),
        'net.energy_linear.weight': A(np.ones((1, 2), np.float32)), 'net.energy_linear.bias': A(np.zeros(1, np.float32))}
  for i in range(8):
    for n, k in (('conv1', 3), ('conv2', 3)) + ((('shortcut_conv', 1),) if i < 2 else ()):
      ck['net.net.%d.%s.weight' % (i, n)] = A(r.normal(size=(2, 2, k, k)).astype(np.float32)); ck['net.net.%d.%s.bias' % (i, n)] = A(np.zeros(2, np.float32))
  m.torch.load = lambda *a, **k: {'ema_model': ck}; m.torch.device = str
  m.FLAGS(sys.argv); m.main(['x'])
  p = pickle.load(open(t + '/params.pkl', 'rb'))['params']
w = ck['net.proj.weight'].a
expect(all(p['Conv_0']['kernel'][i, j, 0, o] == w[o, 0, i, j] for i in range(3) for j in range(3) for o in range(2)), 'kernel entries moved')
'''),
dict(id='resnet-shortcut', prop='C13', edits=[(D+'models/resnet.py', "    out = nn.activation.swish(conv1(x))\n", "    x = nn.activation.swish(x) if self.stride == 2 else x\n    out = nn.activation.swish(conv1(x))\n")],
 needs='any image through the strided blocks', breaks='the network is not the residual network its checkpoints were trained as', libs=L,
 demo=H+'''
from discs.models import resnet
b = resnet.BasicBlock(planes=1, stride=2)
x = jnp.asarray(np.arange(16.).reshape(1, 4, 4, 1) - 8)
p = b.init(jax.random.PRNGKey(0), x)['params']
p = jax.tree_util.tree_map(lambda a: a * 0, p); p['shortcut_conv']['kernel'] = jnp.ones((1, 1, 1, 1))
o = np.asarray(b.apply({'params': p}, x))[0, :, :, 0]; v = np.asarray(x)[0, ::2, ::2, 0]
expect(np.allclose(o, v / (1 + np.exp(-v)), atol=1e-5), 'block output %s' % o)
'''),
]
