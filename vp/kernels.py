"""Exact one-step transition laws of the named algorithms, in float64.

Written from the algorithms, not from the code: each function returns, for one
start state, the list of (end state, probability) of the proposal-and-accept
step together with the expected acceptance probability.
"""
import itertools

import numpy as np

from vp import core


def weight(kind, logt):
  """log g(t) of the locally balancing functions."""
  if kind == 'SQRT':
    return logt / 2
  if kind == 'RATIO':
    return -np.logaddexp(0, -logt)
  if kind == 'MAX':
    return np.maximum(logt, 0)
  if kind == 'MIN':
    return np.minimum(logt, 0)
  raise core.HarnessError(kind)


def softmax(v):
  w = np.exp(v - v.max(-1, keepdims=True))
  return w / w.sum(-1, keepdims=True)


class Space:
  """Values, gradients and log-ratio estimates of a reference model."""

  def __init__(self, model):
    self.m = model
    self.C, self.dim = model.C, model.dim
    self.states = model.states()
    self.ll = model.np_ll(self.states)
    self.n = len(self.states)
    p = {k: np.asarray(v, np.float64) for k, v in model.params.items()}
    if self.C == 2:
      z = self.states.astype(np.float64)
    else:
      z = np.eye(self.C)[self.states].reshape(self.n, -1)
    t = np.tanh(z @ p['a'])
    g = p['h'] + z @ (p['j'] + p['j'].T) + np.outer(
        p['c'] * (1 - t * t), p['a'])
    if self.C == 2:
      # change of value predicted for flipping coordinate i
      self.delta = (1 - 2 * self.states) * g
      self.exact = np.stack(
          [self.ll[self.idx(self.flip(self.states, i))] - self.ll
           for i in range(self.dim)], 1)
    else:
      # change of value predicted for setting coordinate i to c
      g = g.reshape(self.n, self.dim, self.C)
      cur = np.take_along_axis(g, self.states[:, :, None], 2)
      self.delta = g - cur

  def idx(self, flat):
    return self.m.index_of(np.asarray(flat))

  def flip(self, s, i):
    s = np.array(s)
    s[..., i] = 1 - s[..., i]
    return s


class Law:

  def __init__(self, n):
    self.p = np.zeros(n)
    self.acc = 0.0

  def add(self, i, j, q, a):
    a = np.minimum(1.0, a)
    np.add.at(self.p, j, q * a)
    self.p[i] += (q * (1 - a)).sum()
    self.acc += (q * a).sum()
    return self


def metropolis(sp, i, j, q, logq_ratio):
  """Moves i -> j[k] with probability q[k], reverse/forward log ratio given."""
  j = np.asarray(j)
  a = np.exp(np.minimum(0.0, sp.ll[j] - sp.ll[i] + logq_ratio))
  return Law(sp.n).add(i, j, np.asarray(q), a)


def randomwalk(sp, i, radius):
  r = radius / sp.dim
  diff = (sp.states != sp.states[i]).sum(1)
  q = (r / (sp.C - 1)) ** diff * (1 - r) ** (sp.dim - diff)
  return metropolis(sp, i, np.arange(sp.n), q, 0.0)


def conditional(sp, i, block):
  """Redraw the coordinates of `block` from their joint conditional."""
  keep = [k for k in range(sp.dim) if k not in block]
  same = (sp.states[:, keep] == sp.states[i][keep]).all(1)
  w = np.where(same, np.exp(sp.ll - sp.ll.max()), 0.0)
  law = Law(sp.n)
  law.p = w / w.sum()
  law.acc = 1.0
  return law


def hammingball(sp, i, block):
  """Uniform auxiliary point in the radius-1 ball, then pi within its ball."""
  keep = [k for k in range(sp.dim) if k not in block]
  same = (sp.states[:, None, keep] == sp.states[None][:, :, keep]).all(-1)
  dist = (sp.states[:, None] != sp.states[None]).sum(-1)
  ball = same & (dist <= 1)
  pi = np.exp(sp.ll - sp.ll.max())
  law = Law(sp.n)
  us = np.flatnonzero(ball[i])
  for u in us:
    w = np.where(ball[u], pi, 0.0)
    law.p += w / w.sum() / len(us)
  law.acc = 1.0
  return law


def gwg_binary(sp, i, k, bal, mask=None):
  logits = weight(bal, sp.delta)
  if mask is not None:
    logits = np.where(mask[None] > 0, logits, -1e9)
  prob = softmax(logits)
  seq = np.array(list(itertools.product(range(sp.dim), repeat=k)))
  hit = np.zeros((len(seq), sp.dim), bool)
  for c in range(k):
    hit[np.arange(len(seq)), seq[:, c]] = True
  j = sp.idx(np.where(hit, 1 - sp.states[i], sp.states[i]))
  q = np.prod(prob[i][seq], 1)
  live = q > 0
  seq, j, q = seq[live], j[live], q[live]
  back = np.prod(prob[j[:, None], seq], 1)
  return metropolis(sp, i, j, q, np.log(back) - np.log(q))


def _moves(sp, bal):
  """Categorical: probability of each (coordinate, other value)."""
  logits = weight(bal, sp.delta)
  cur = np.eye(sp.C, dtype=bool)[sp.states]
  logits = np.where(cur, -np.inf, logits)
  return softmax(logits.reshape(sp.n, -1)).reshape(logits.shape)


def gwg_categorical(sp, i, bal):
  prob = _moves(sp, bal)
  js, qs, back = [], [], []
  for d in range(sp.dim):
    for c in range(sp.C):
      if c == sp.states[i][d]:
        continue
      y = sp.states[i].copy()
      y[d] = c
      j = int(sp.idx(y))
      js.append(j)
      qs.append(prob[i, d, c])
      back.append(prob[j, d, sp.states[i][d]])
  return metropolis(sp, i, js, np.array(qs),
                    np.log(np.array(back)) - np.log(np.array(qs)))


def _without_replacement(p):
  """log probability of drawing the columns of p[n,k] in order; total mass 1."""
  before = np.cumsum(p, 1) - p
  return (np.log(p) - np.log(1 - before)).sum(1)


def pas(sp, i, k, bal, exact=False, mask=None):
  x = sp.states[i]
  if sp.C == 2:
    logits = weight(bal, sp.exact if exact else sp.delta)
    if mask is not None:
      logits = np.where(mask[None] > 0, logits, -1e9)
    site = softmax(logits)
  else:
    move = _moves(sp, bal)
    site = move.sum(-1)
    value = move / site[..., None]
  cand = [d for d in range(sp.dim) if mask is None or mask[d] > 0]
  seq = np.array(list(itertools.permutations(cand, k)))
  if sp.C == 2:
    y = np.repeat(x[None], len(seq), 0)
    for c in range(k):
      r = np.arange(len(seq))
      y[r, seq[:, c]] = 1 - y[r, seq[:, c]]
    j = sp.idx(y)
    fwd = _without_replacement(site[i][seq])
    back = _without_replacement(site[j[:, None], seq[:, ::-1]])
    return metropolis(sp, i, j, np.exp(fwd), back - fwd)
  ys, fwd, back, seqs = [], [], [], []
  base = _without_replacement(site[i][seq])
  for s, b in zip(seq, base):
    for vals in itertools.product(range(sp.C), repeat=k):
      if any(v == x[d] for v, d in zip(vals, s)):
        continue
      y = x.copy()
      y[s] = vals
      ys.append(y)
      seqs.append(s)
      fwd.append(b + np.log(value[i, s, list(vals)]).sum())
  seqs = np.array(seqs)
  j = sp.idx(np.array(ys))
  back = (_without_replacement(site[j[:, None], seqs[:, ::-1]])
          + np.log(value[j[:, None], seqs, x[seqs]]).sum(1))
  fwd = np.array(fwd)
  return metropolis(sp, i, j, np.exp(fwd), back - fwd)


def _product(sp, i, dist):
  """Coordinates move independently: dist[state] is dim x C."""
  ar = np.arange(sp.dim)
  fwd = np.log(dist[i][ar[None], sp.states]).sum(1)
  back = np.log(np.stack([dist[j][ar, sp.states[i]] for j in range(sp.n)])
                ).sum(1)
  q = np.exp(fwd)
  live = q > 0
  return metropolis(sp, i, np.flatnonzero(live), q[live],
                    (back - fwd)[live])


def _from_flip(sp, flip):
  """Binary flip probabilities (n x dim) as n x dim x 2."""
  out = np.empty((sp.n, sp.dim, 2))
  r, c = np.indices((sp.n, sp.dim))
  out[r, c, 1 - sp.states] = flip
  out[r, c, sp.states] = 1 - flip
  return out


def dmala(sp, i, log_tau, bal):
  """log_tau: a number, or one per state."""
  lt = np.broadcast_to(np.asarray(log_tau, float), (sp.n,))
  w = weight(bal, sp.delta)
  if sp.C == 2:
    v = lt[:, None] + w
    return _product(sp, i, _from_flip(sp, 1 / (1 + np.exp(-v))))
  cur = np.eye(sp.C, dtype=bool)[sp.states]
  v = np.where(cur, 0.0, lt[:, None, None] + w)
  return _product(sp, i, softmax(v))


def dlmc(sp, i, log_tau, bal, solver):
  lt = np.broadcast_to(np.asarray(log_tau, float), (sp.n,))
  w = weight(bal, sp.delta)
  if sp.C == 2:
    nu = 1 / (1 + np.exp(-sp.delta))
    rate = np.exp(lt[:, None] + w)
    if solver == 'interpolate':
      f = nu * -np.expm1(-rate / nu)
    else:
      f = np.minimum(rate, nu)
    return _product(sp, i, _from_flip(sp, f))
  nu = softmax(sp.delta)
  rate = np.exp(lt[:, None, None] + w)
  if solver == 'interpolate':
    f = nu * -np.expm1(-rate / nu)
  else:
    f = rate
  cur = np.eye(sp.C, dtype=bool)[sp.states]
  leave = np.where(cur, 0.0, f).sum(-1, keepdims=True)
  stay = np.maximum(1 - leave, nu)
  f = np.where(cur, stay, f)
  return _product(sp, i, f / f.sum(-1, keepdims=True))


def log_z(sp, rows, bal):
  """log of the mean, over a batch of states, of the summed weights."""
  w = weight(bal, sp.delta[np.asarray(rows)]).reshape(-1)
  m = w.max()
  return m + np.log(np.exp(w - m).sum()) - np.log(len(rows))


def locally_balanced(sp, i, bal):
  p = softmax(weight(bal, sp.exact[i]))
  law = Law(sp.n)
  for d in range(sp.dim):
    law.p[int(sp.idx(sp.flip(sp.states[i], d)))] += p[d]
  return law
