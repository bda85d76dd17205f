"""Runs discs/xm_launcher.py against a recording stand-in for XManager."""
import asyncio, os, shutil, sys, tempfile, types
sys.path.insert(0, os.getcwd())
from absl import flags


class Any:
  accelerator = None
  def __init__(self, *a, **k): self.k = k
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return Any()
  def __call__(self, *a, **k): return Any(*a, **k)


JOBS = []


class Exp:
  experiment_id = 7
  n = 0
  def __enter__(self): return self
  def __exit__(self, *a): return False
  def package(self, specs): return [s for s in specs]
  def add(self, f, args=None, **k):
    self.n += 1
    u = types.SimpleNamespace(work_unit_id=self.n, add=lambda j: JOBS.append(j))
    r = f(u, **args)
    if asyncio.iscoroutine(r): asyncio.run(r)


def launch(job, argv=()):
  m = {n: types.ModuleType(n) for n in ('xmanager', 'xmanager.xm', 'xmanager.xm_abc', 'xmanager.xm_local',
                                        'xmanager.contrib', 'xmanager.contrib.framework_defaults')}
  for n, v in m.items():
    v.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k)) if k.startswith('__') else Any
    if '.' in n:
      a, b = n.rsplit('.', 1); setattr(m[a], b, v)
  m['xmanager.xm'].GiB = 1
  m['xmanager.xm'].ServiceTier = Any()
  m['xmanager.xm'].Job = lambda executable=None, args=None, executor=None: dict(args)
  for n in ('xmanager.xm_abc', 'xmanager.xm_local'):
    m[n].create_experiment = lambda experiment_title=None: Exp()
  sys.modules.update(m)
  from discs import xm_launcher
  d = tempfile.mkdtemp()
  try:
    os.makedirs(d + '/a')
    with open(d + '/a/b.py', 'w') as f:
      f.write('from ml_collections import config_dict\ndef get_config():\n  return config_dict.ConfigDict(%r)\n' % (job,))
    flags.FLAGS(['x', '--config=' + d + '/a/b.py'] + list(argv))
    xm_launcher.main(['x'])
  finally:
    shutil.rmtree(d)
  return JOBS


def expect(c, msg):
  if not c:
    print(msg); sys.exit(1)
