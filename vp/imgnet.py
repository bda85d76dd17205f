"""The residual image network, evaluated directly in float64 (torch layout)."""
import numpy as np


def conv(x, w, b, stride, pad):
  """x (B, C, H, W), w (O, C, k, k), zero padding on every side."""
  k = w.shape[2]
  x = np.pad(x, ((0, 0), (0, 0), (pad, pad), (pad, pad)))
  H = (x.shape[2] - k) // stride + 1
  W = (x.shape[3] - k) // stride + 1
  out = np.zeros((len(x), len(w), H, W))
  for i in range(H):
    for j in range(W):
      patch = x[:, :, i * stride:i * stride + k, j * stride:j * stride + k]
      out[:, :, i, j] = np.einsum('bcij,ocij->bo', patch, w)
  return out + b[None, :, None, None]


def swish(x):
  return x / (1 + np.exp(-x))


def net(ck, x):
  """Energies of images x (B, 1, H, W) for a checkpoint in torch naming."""
  def c(name, h, stride, pad):
    return conv(h, ck[name + '.weight'], ck[name + '.bias'], stride, pad)
  h = c('net.proj', x, 1, 1)
  for i in range(8):
    s = 2 if i < 2 else 1
    n = 'net.net.%d.' % i
    o = swish(c(n + 'conv1', h, s, 1))
    o = c(n + 'conv2', o, 1, 1)
    o = o + (c(n + 'shortcut_conv', h, s, 0)
             if n + 'shortcut_conv.weight' in ck else h)
    h = swish(o)
  h = h.mean(axis=(2, 3))
  return (h @ ck['net.energy_linear.weight'].T + ck['net.energy_linear.bias'])[
      :, 0]


def from_flax(params):
  """The same checkpoint from the model's own parameter tree."""
  ck = {}

  def put(name, p):
    k = np.asarray(p['kernel'], np.float64)
    ck[name + '.weight'] = (k.transpose(3, 2, 0, 1) if k.ndim == 4 else k.T)
    ck[name + '.bias'] = np.asarray(p['bias'], np.float64)
  put('net.proj', params['Conv_0'])
  put('net.energy_linear', params['Dense_0'])
  for i in range(8):
    b = params['BasicBlock_%d' % i]
    put('net.net.%d.conv1' % i, b['Conv_0'])
    put('net.net.%d.conv2' % i, b['Conv_1'])
    if 'shortcut_conv' in b:
      put('net.net.%d.shortcut_conv' % i, b['shortcut_conv'])
  return ck
