"""Which repository lines do the checks execute?   (development aid only)

  python tools/coverage/linecov.py OUT C01 C02 ...   runs the checks at a small
                                                      scale with line events on
  python tools/coverage/linecov.py --report OUT      prints the lines never run
"""
import dis, glob, os, subprocess, sys, types

REPO = os.environ.get('VP_DEV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def install(out):
  import sys as s
  mon, tool = s.monitoring, 3
  mon.use_tool_id(tool, 'linecov')
  seen = set()
  prefix = os.path.join(REPO, 'discs') + os.sep

  def line(code, no):
    f = code.co_filename
    if f.startswith(prefix) and (f, no) not in seen:
      seen.add((f, no))
      with open(os.path.join(out, 'cov-%d' % os.getpid()), 'a') as h:
        h.write('%s:%d\n' % (f[len(prefix):], no))
    return mon.DISABLE

  mon.register_callback(tool, mon.events.LINE, line)
  mon.set_events(tool, mon.events.LINE)


def lines_of(path):
  code = compile(open(path).read(), path, 'exec')
  out, todo = set(), [code]
  while todo:
    c = todo.pop()
    out |= {l for _, l in dis.findlinestarts(c) if l}
    todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
  return out


def report(out):
  hit = {}
  for f in glob.glob(os.path.join(out, 'cov-*')):
    for l in open(f):
      n, no = l.rsplit(':', 1)
      hit.setdefault(n, set()).add(int(no))
  for p in sorted(glob.glob(os.path.join(REPO, 'discs/**/*.py'), recursive=True)):
    n = os.path.relpath(p, os.path.join(REPO, 'discs'))
    if 'test' in n:
      continue
    al = lines_of(p)
    miss = sorted(al - hit.get(n, set()))
    if miss:
      print('%-45s %4d/%4d  %s' % (n, len(al) - len(miss), len(al), ' '.join(map(str, miss))[:1500]))


if sys.argv[1] == '--report':
  report(sys.argv[2])
elif sys.argv[1] == '--in':
  install(sys.argv[2])
  sys.path.insert(0, HERE)
  sys.dont_write_bytecode = True
  os.environ['VP_CHILD'] = '1'
  from vp import core
  sys.exit(core.main(sys.argv[3:]))
else:
  import runpy
  out = os.path.abspath(sys.argv[1]); os.makedirs(out, exist_ok=True)
  src = open(os.path.join(HERE, 'run_check.py')).read()
  for pid in sys.argv[2:]:
    ns = {}
    exec(src[src.index('ENV = {'):src.index("if os.environ.get('VP_CHILD')")].replace('__file__', repr(os.path.join(HERE, 'run_check.py'))), {'os': os, '__builtins__': __builtins__}, ns)
    env = dict(os.environ); env.update(ns['ENV']); env.pop('PYTHONPATH', None)
    flags = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    if pid in ('C22', 'C23', 'C24', 'C25', 'C30', 'C32', 'C34'):
      flags = '--xla_force_host_platform_device_count=4 ' + flags
    env['XLA_FLAGS'] = flags
    env['VP_DEV_OUT'] = out + '/out'; env['VP_DEV_REPO'] = REPO
    r = subprocess.run([ns['PY'], os.path.abspath(__file__), '--in', out, pid, '--scale', os.environ.get('SCALE', '0.3')], cwd=HERE, env=env, capture_output=True, text=True)
    print(pid, r.returncode, (r.stdout + r.stderr)[-200:].replace('\n', ' ') if r.returncode else '')
