"""Mechanical mutants of /repo against the checks that should see them.

  mutate.py --out FILE [--files GLOB ...] [--per-file N] [--seed S] [--jobs J]

Development aid only: no check uses it.  Every mutant lives in a scratch copy.
"""
import argparse
import ast
import concurrent.futures as cf
import fnmatch
import glob
import json
import os
import random
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))

MAP = [
    ('samplers/randomwalk.py', 'C02 C08 C06 C09 C01 C05 C36'),
    ('samplers/gibbs.py', 'C02 C08 C09 C01 C05 C36'),
    ('samplers/blockgibbs.py', 'C02 C08 C09 C01 C05 C36'),
    ('samplers/hammingball.py', 'C02 C08 C09 C01 C05 C36'),
    ('samplers/gwg.py', 'C03 C08 C06 C07 C09 C05 C01 C36'),
    ('samplers/path_auxiliary.py', 'C03 C08 C06 C07 C17 C09 C05 C01 C36'),
    ('samplers/dmala.py', 'C04 C06 C08 C09 C05 C01 C36'),
    ('samplers/dlmc.py', 'C04 C06 C08 C09 C05 C01 C36'),
    ('samplers/locallybalanced.py', 'C10 C03 C04 C09 C36'),
    ('samplers/configs/*', 'C33'),
    ('common/math_util.py', 'C10 C03 C04 C36'),
    ('models/bernoulli.py', 'C11 C14 C17 C15 C28 C09'),
    ('models/categorical.py', 'C11 C14 C15'),
    ('models/ising.py', 'C11 C14 C15'),
    ('models/potts.py', 'C11 C14 C15'),
    ('models/fhmm.py', 'C12 C14 C15'),
    ('models/rbm.py', 'C13 C14 C15 C18'),
    ('models/resnet.py', 'C13 C14 C15 C18 C35'),
    ('models/deep_ebm.py', 'C18'),
    ('models/text_infilling.py', 'C30'),
    ('models/configs/*', 'C33'),
    ('models/*', 'C16 C17 C14 C15 C22 C09'),
    ('graph_loader/*', 'C19 C21 C16 C20 C33'),
    ('common/utils.py', 'C20 C21 C29 C32 C34 C22'),
    ('experiment/sampling.py', 'C22 C24 C23 C25 C30'),
    ('common/experiment_saver.py', 'C22 C24 C31 C25 C30'),
    ('evaluators/ess_eval.py', 'C26 C24'),
    ('evaluators/lm_eval.py', 'C27'),
    ('evaluators/bernoulli_eval.py', 'C28'),
    ('evaluators/co_eval.py', 'C22'),
    ('evaluators/*', 'C22 C24 C25'),
    ('common/normcut_evaluator.py', 'C28 C31'),
    ('learning/replay_buffer.py', 'C32'),
    ('learning/raw_torch_dataset.py', 'C35'),
    ('learning/*pt2params.py', 'C35'),
    ('learning/*', 'C34 C35'),
    ('common/data_loader.py', 'C32 C34'),
    ('common/create_text_infilling_dataset.py', 'C29'),
    ('common/configs.py', 'C33'),
    ('common/train_configs.py', 'C34'),
    ('common/customized_huggingface_flax_bert.py', 'C30'),
    ('experiment/*', 'C33'),
    ('plot_results/*', 'C31'),
    ('run_*.py', 'C33'),
]
SWAP = {'max': 'min', 'min': 'max', 'sum': 'mean', 'mean': 'sum',
        'argmax': 'argmin', 'argmin': 'argmax', 'maximum': 'minimum',
        'minimum': 'maximum', 'any': 'all', 'all': 'any', 'zeros': 'ones',
        'ones': 'zeros', 'zeros_like': 'ones_like', 'ones_like': 'zeros_like',
        'floor': 'ceil', 'ceil': 'floor', 'std': 'var', 'var': 'std',
        'log': 'log1p', 'log1p': 'log', 'exp': 'expm1', 'sigmoid': 'tanh',
        'softmax': 'log_softmax', 'log_softmax': 'softmax', 'sorted': 'list',
        'concatenate': 'stack', 'cumsum': 'cumprod', 'softplus': 'relu',
        'vstack': 'hstack', 'range': None}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.FloorDiv: ['%'], ast.Mod: ['//'], ast.Pow: ['*'], ast.BitAnd: ['|'],
       ast.BitOr: ['&'], ast.MatMult: ['*']}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def mutants(src):
  tree = ast.parse(src)
  lines = src.split('\n')
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
  b = src.encode()

  def pos(n, end=False):
    return (off[n.end_lineno - 1] + n.end_col_offset if end else
            off[n.lineno - 1] + n.col_offset)
  out = []

  def rep(s, e, new, what, node):
    old = b[s:e].decode()
    if old != new:
      out.append((s, e, new, what, node.lineno))

  parents = {}
  for n in ast.walk(tree):
    for c in ast.iter_child_nodes(n):
      parents[c] = n

  def skip(n):
    while n is not None:
      if isinstance(n, ast.Call):
        f = ast.unparse(n.func)
        if f.split('.')[0] in ('logging', 'print', 'plt', 'pdb', 'warnings',
                               'flags', 'ValueError'):
          return True
      if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom,
                        ast.JoinedStr)):
        return True
      if isinstance(n, ast.arg) or (isinstance(n, ast.AnnAssign)):
        return True
      n = parents.get(n)
    return False

  for n in ast.walk(tree):
    if skip(n):
      continue
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        continue
      s, e = pos(n.left, True), pos(n.right)
      mid = b[s:e].decode()
      for new in BIN[type(n.op)]:
        ops = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/',
               'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitAnd': '&',
               'BitOr': '|', 'MatMult': '@'}
        o = ops[type(n.op).__name__]
        if o in mid:
          rep(s, e, mid.replace(o, new, 1), '%s -> %s' % (o, new), n)
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
      s, e = pos(n.left, True), pos(n.comparators[0])
      for new in CMP[type(n.ops[0])]:
        rep(s, e, ' %s ' % new, 'compare', n)
    elif isinstance(n, ast.BoolOp):
      s, e = pos(n.values[0], True), pos(n.values[1])
      mid = b[s:e].decode()
      a, c = (('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and'))
      if len(n.values) == 2:
        rep(s, e, mid.replace(a, c, 1), '%s -> %s' % (a, c), n)
    elif isinstance(n, ast.UnaryOp):
      if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
        rep(pos(n), pos(n, True), '0' if n.operand.value == 1 else
            repr(n.operand.value), 'neg const', n)
      else:
        rep(pos(n), pos(n.operand), '', 'drop unary', n)
    elif isinstance(n, ast.Constant):
      p = parents.get(n)
      if isinstance(p, ast.UnaryOp):
        continue
      if isinstance(n.value, bool):
        rep(pos(n), pos(n, True), str(not n.value), 'bool', n)
      elif isinstance(n.value, int):
        rep(pos(n), pos(n, True), str(n.value + 1), 'int+1', n)
        if n.value == 1:
          rep(pos(n), pos(n, True), '0', 'int-1', n)
      elif isinstance(n.value, float):
        rep(pos(n), pos(n, True), repr(n.value * 1.5 + (n.value == 0)),
            'float', n)
    elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
      rep(pos(n.test), pos(n.test, True),
          '(not (%s))' % b[pos(n.test):pos(n.test, True)].decode(), 'not if', n)
    elif isinstance(n, ast.AugAssign):
      rep(pos(n), pos(n, True), 'pass', 'drop augassign', n)
    elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
        n.targets[0], ast.Name):
      t = n.targets[0].id
      if any(isinstance(m, ast.Name) and m.id == t for m in ast.walk(n.value)):
        rep(pos(n), pos(n, True), 'pass', 'drop reassign', n)
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      rep(pos(n), pos(n, True), 'pass', 'drop call', n)
    if isinstance(n, ast.Call):
      f = n.func
      name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
      if SWAP.get(name):
        e = pos(f, True)
        rep(e - len(name), e, SWAP[name], '%s -> %s' % (name, SWAP[name]), n)
      if len(n.args) >= 2:
        x, y = n.args[0], n.args[1]
        if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
          sx, sy = ast.unparse(x), ast.unparse(y)
          if sx != sy:
            rep(pos(x), pos(y, True), '%s, %s' % (
                b[pos(y):pos(y, True)].decode(),
                b[pos(x):pos(x, True)].decode()), 'swap args', n)
      for k in n.keywords:
        if k.arg in ('axis', 'keepdims', 'replace', 'dtype', 'p', 'logits',
                     'where', 'mask', 'x_mask', 'mode', 'shape'):
          e = pos(k, True)
          s = pos(k)
          # swallow the comma before
          t = b[:s].decode().rstrip()
          if t.endswith(','):
            s2 = len(t.encode()) - 1
            rep(s2, e, '', 'drop keyword ' + k.arg, n)
  res = []
  for s, e, new, what, line in out:
    m = (b[:s] + new.encode() + b[e:]).decode()
    try:
      ast.parse(m)
    except SyntaxError:
      continue
    res.append((m, what, line, b[s:e].decode()[:80], new[:80]))
  return res


def checks_for(rel):
  for pat, c in MAP:
    if fnmatch.fnmatch(rel, 'discs/' + pat):
      return c.split()
  return []


def run_one(job):
  slot, base, rel, text, what, line, old, new, checks, scale, workers = job
  d = os.path.join('/tmp/mut', slot.get())
  try:
    path = os.path.join(d, 'repo', rel)
    orig = open(path).read()
    t0 = time.time()
    caught, log = None, []
    try:
      open(path, 'w').write(text)
      for c in checks:
        env = dict(os.environ, VP_DEV_REPO=os.path.join(d, 'repo'),
                   VP_DEV_OUT=os.path.join(d, 'out'), VP_WORKERS=str(workers),
                   TMPDIR=os.path.join(d, 'tmp'))
        try:
          r = subprocess.run(['python', os.path.join(ROOT, 'run_check.py'), c,
                              '--scale', str(scale)], cwd=ROOT, env=env,
                             capture_output=True, text=True, timeout=600)
          rc = r.returncode
        except subprocess.TimeoutExpired:
          rc = 'timeout'
        log.append((c, rc))
        if rc == 1:
          caught = c
          why = [l for l in r.stdout.splitlines() if l.startswith('why:')]
          break
      return dict(file=rel, line=line, what=what, old=old, new=new,
                  caught=caught, log=log, s=round(time.time() - t0),
                  why=(why[0][:200] if caught and why else ''))
    finally:
      open(path, 'w').write(orig)
  finally:
    slot.put(os.path.basename(d))


def main():
  import queue
  ap = argparse.ArgumentParser()
  ap.add_argument('--out', required=True)
  ap.add_argument('--files', nargs='*', default=[])
  ap.add_argument('--per-file', type=int, default=5)
  ap.add_argument('--seed', type=int, default=0)
  ap.add_argument('--jobs', type=int, default=2)
  ap.add_argument('--workers', type=int, default=4)
  ap.add_argument('--scale', type=float, default=1.0)
  ap.add_argument('--repo', default='/repo')
  ap.add_argument('--list', action='store_true')
  a = ap.parse_args()
  slot = queue.Queue()
  for i in range(a.jobs):
    n = '%s-%d' % (os.path.basename(a.out), i)
    d = '/tmp/mut/' + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/out')
    os.makedirs(d + '/tmp')
    if not a.list:
      shutil.copytree(a.repo, d + '/repo', ignore=shutil.ignore_patterns(
          '.git', '__pycache__'))
    slot.put(n)
  done = set()
  if os.path.exists(a.out):
    for l in open(a.out):
      e = json.loads(l)
      done.add((e['file'], e['line'], e['old'], e['new']))
  rng = random.Random(a.seed)
  jobs = []
  for p in sorted(glob.glob(a.repo + '/discs/**/*.py', recursive=True)):
    rel = os.path.relpath(p, a.repo)
    if '/test/' in rel or 'configs/' in rel or rel.endswith('__init__.py'):
      continue
    if a.files and not any(fnmatch.fnmatch(rel, '*' + f) for f in a.files):
      continue
    cs = checks_for(rel)
    if not cs:
      print('no checks for', rel)
      continue
    ms = mutants(open(p).read())
    rng.shuffle(ms)
    ms = [m for m in ms if (rel, m[2], m[3], m[4]) not in done][:a.per_file]
    for m in ms:
      jobs.append((slot, a.repo, rel, m[0], m[1], m[2], m[3], m[4], cs, a.scale,
                   a.workers))
  rng.shuffle(jobs)
  print(len(jobs), 'mutants')
  if a.list:
    for j in jobs:
      print(j[2], j[5], j[4], repr(j[6]), '->', repr(j[7]))
    return
  with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as f:
    for r in ex.map(run_one, jobs):
      f.write(json.dumps(r) + '\n')
      f.flush()


main()
