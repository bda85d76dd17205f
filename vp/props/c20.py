"""C20: graph encodings and reductions preserve the problem."""
import itertools
import os
import tempfile

import numpy as np

from vp import core, comb
from vp.props.c19 import _edges_of


def WARM():
  comb.warm()


def check_edges(case):
  import networkx as nx
  from discs.common import utils
  g = comb.to_nx(case['graph'], case['weighted'])
  edges = {(min(u, v), max(u, v)): w for u, v, w in case['graph']['edges']}
  ne = len(edges)
  pad = case['pad'] if case['pad'] is None else max(0, ne + case['pad'])
  kw = dict(build_bidir_edges=case['bidir'],
            has_edge_weights=case['weighted'])
  if pad is not None:
    kw['padded_num_edges'] = pad
  if case['pw'] is not None and case['weighted']:
    kw['padded_weight'] = case['pw']
  p = utils.graph2edges(g, **kw)
  size = max(ne, pad or 0)
  names = ['edge_from', 'edge_to', 'edge_mask']
  if case['weighted']:
    names.append('edge_weight')
  for k in names:
    core.require(np.shape(p[k]) == (size,), '%s has shape %s, expected (%d,)',
                 k, np.shape(p[k]), size)
  core.require(int(np.asarray(p['num_edges']).reshape(())) == ne,
               'num_edges is %s for %d edges', p['num_edges'], ne)
  mask = np.asarray(p['edge_mask'])
  core.require(set(np.unique(mask).tolist()) <= {0, 1} and mask.sum() == ne,
               'the edge mask is %s for %d edges', mask.tolist(), ne)
  got = _edges_of(p)
  core.require(set(got) == set(edges), 'arrays decode to edges %s, the graph '
               'has %s', sorted(got), sorted(edges))
  for k, w in edges.items():
    ww = w if case['weighted'] else 1.0
    core.require(abs(got[k] - np.float32(ww)) <= 1e-6 * (1 + abs(ww)),
                 'edge %s decodes to weight %r, is %r', k, got[k], ww)
  pu = np.asarray(p['edge_from'])[mask == 0]
  pv = np.asarray(p['edge_to'])[mask == 0]
  n = max(1, case['graph']['n'])
  core.require(((pu >= 0) & (pu < n) & (pv == pu)).all(),
               'a padding edge joins two different nodes')
  if case['weighted']:
    pwt = np.asarray(p['edge_weight'])[mask == 0]
    core.require((pwt == np.float32(case['pw'] or 0.0)).all(),
                 'padding edges have weights %s', pwt.tolist())
  if case['bidir']:
    bf, bt = np.asarray(p['bidir_edge_from']), np.asarray(p['bidir_edge_to'])
    core.require(bf.shape == (2 * size,) and bt.shape == (2 * size,),
                 'bidirectional arrays have shape %s', bf.shape)
    m2 = np.concatenate([mask, mask]) == 1
    bw = (np.asarray(p['bidir_edge_weight'])[m2] if case['weighted']
          else np.ones(m2.sum()))
    d = sorted(zip(bf[m2].tolist(), bt[m2].tolist(), bw.tolist()))
    want = sorted([(a, b, got[(a, b)]) for a, b in got] +
                  [(b, a, got[(a, b)]) for a, b in got])
    core.require(d == want, 'bidirectional arrays hold %s, expected both '
                 'directions of every edge', d)
  return 'padded' if size > ne else 'exact', ne > 0


def _sat(nv, clauses):
  for a in itertools.product((False, True), repeat=nv):
    if all(any(a[abs(l) - 1] == (l > 0) for l in c) for c in clauses):
      return True
  return False


def _mis(adj):
  """Size of a maximum independent set (bit-set branch and bound)."""
  def rec(cand):
    if not cand:
      return 0
    # pick a vertex of maximum degree inside cand
    best, bd = -1, -1
    c = cand
    while c:
      v = (c & -c).bit_length() - 1
      c &= c - 1
      d = bin(adj[v] & cand).count('1')
      if d > bd:
        best, bd = v, d
    if bd == 0:
      return bin(cand).count('1')
    v = best
    return max(1 + rec(cand & ~adj[v] & ~(1 << v)), rec(cand & ~(1 << v)))
  return rec((1 << len(adj)) - 1)


def check_cnf(case):
  from discs.graph_loader import mis_loader
  from ml_collections import config_dict
  with tempfile.TemporaryDirectory(
      prefix='cnf-', dir=os.environ.get('VP_SCRATCH', '/tmp')) as d:
    os.makedirs(os.path.join(d, 'satlib_test'))
    comb.write_cnf(os.path.join(d, 'satlib_test', 'a.cnf'), case['nv'],
                   case['clauses'])
    cfg = config_dict.ConfigDict(dict(max_num_nodes=0, max_num_edges=0,
                                      num_instances=0))
    gen = mis_loader.SatLibGraphGen(d, cfg)
    out = list(gen.sample_gen('test'))
    core.require(len(out) == 1, 'one formula gives %d graphs', len(out))
    g = out[0][0]
    m = len(case['clauses'])
    nodes = sorted(int(v) for v in g.nodes())
    core.require(nodes == list(range(3 * m)), 'the graph of %d clauses has '
                 'nodes %s', m, nodes)
    core.require(gen.max_num_nodes == 3 * m and
                 gen.max_num_edges == g.number_of_edges() and
                 gen.num_instances == 1, 'announced sizes are wrong')
    adj = [0] * (3 * m)
    for u, v in g.edges():
      core.require(u != v, 'the graph has a self-loop at %s', u)
      adj[int(u)] |= 1 << int(v)
      adj[int(v)] |= 1 << int(u)
    mis, sat = _mis(adj), _sat(case['nv'], case['clauses'])
    core.require(mis <= m, 'independent set of size %d with %d clauses', mis, m)
    core.require((mis == m) == sat, 'the formula is %ssatisfiable, the maximum '
                 'independent set is %d of %d clauses', '' if sat else 'un',
                 mis, m)
    n, edges = comb.cnf_graph(case['clauses'])
    got = {(min(int(u), int(v)), max(int(u), int(v))) for u, v in g.edges()}
    core.require(got == edges, 'conflict graph edges differ: missing %s, '
                 'spurious %s', sorted(edges - got)[:3],
                 sorted(got - edges)[:3])
    return 'sat' if sat else 'unsat', m > 1


def edges_strategy(lo=1, hi=14):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    w = draw(st.booleans())
    return dict(graph=comb.draw_graph(draw, st, lo, hi, w), weighted=w,
                pad=draw(st.sampled_from([None, 0, 1, 5, -1])),
                pw=draw(st.sampled_from([None, 0.0, 2.5])),
                bidir=draw(st.booleans()))
  return strat()


def cnf_strategy(lo, hi):
  def f():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
      nv = draw(st.integers(3, 4 if lo > 4 else 6))
      seed = draw(st.integers(0, 10**6))
      m = draw(st.integers(lo, hi))
      r = core.rng_of('cnf', seed)
      cl = []
      for _ in range(m):
        vs = r.permutation(nv)[:3] + 1
        cl.append([int(v) * int(s) for v, s in zip(vs, r.choice([-1, 1], 3))])
      if draw(st.booleans()):          # make unsatisfiability likely
        vs = [int(v) for v in r.permutation(nv)[:3] + 1]
        alls = [[a * v for a, v in zip(s, vs)]
                for s in itertools.product((-1, 1), repeat=3)]
        cl = (alls + cl)[:max(hi, 8)] if lo > 4 else cl
      perm = r.permutation(len(cl))
      return dict(nv=nv, clauses=[cl[i] for i in perm])
    return strat()
  return f


STRATA = [
    core.Stratum('edges', edges_strategy, check_edges, 800, 40000),
    core.Stratum('edges-large', lambda: edges_strategy(30, 90), check_edges, 40,
                 1000),
    core.Stratum('cnf-small', cnf_strategy(1, 4), check_cnf, 300, 10000),
    core.Stratum('cnf-hard', cnf_strategy(5, 12), check_cnf, 300, 10000),
]
RULE = ('edges: graphs of 1-14 nodes (large: 30-90), weighted or not, edges and nodes in '
        'random order, padding above, equal to or below the number of edges, '
        'with and without bidirectional arrays; non-trivial: has an edge. '
        'cnf: 3-CNF formulas with 1-12 clauses over 3-6 variables, including '
        'unsatisfiable ones, plain or with the trailer of SATLIB files, satisfiability by truth table and maximum '
        'independent set by branch and bound; non-trivial: several clauses.')
ASSUMPTIONS = ['Clauses have three distinct variables, as in SATLIB.']
