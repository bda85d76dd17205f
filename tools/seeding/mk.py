"""Builds /verif/seeded/<id>/ from a spec module and confirms each planted bug.

  python tools/seeding/mk.py SPEC.py [id ...]   create + confirm in scratch copies
  python tools/seeding/mk.py --check id ...     run the property's check on /repo with the patch

Not used by any check; it only produces and confirms planted changes.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
SEEDED = '/verif/seeded'
HERE = os.path.dirname(os.path.abspath(__file__))

def sh(cmd, cwd=None, timeout=900, env=None):
  e = dict(os.environ); e.update(env or {})
  try:
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout + p.stderr
  except subprocess.TimeoutExpired:
    return 124, 'timeout'

def original_lines(f):
  rc, out = sh(f'git -C /repo show 6a3d96e:{f}')
  return set(out.split('\n'))

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 XLA_FLAGS="%s" TF_CPP_MIN_LOG_LEVEL=3
export PYTHONPATH="$PWD:$here"
exec /opt/venv/bin/python "$here/demo.py"
'''

def make(s):
  d = os.path.join(SEEDED, s['id'])
  tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
  work = os.path.join(tmp, 'repo')
  try:
    os.makedirs(work)
    sh(f'git -C /repo archive HEAD | tar x -C {work} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=work)
    for f, old, new in s['edits']:
      p = os.path.join(work, f)
      t = open(p).read()
      if t.count(old) != 1:
        return s['id'], False, f'edit matches {t.count(old)} times in {f}: {old[:60]!r}'
      t2 = t.replace(old, new)
      orig = original_lines(f)
      a, b = t.split('\n'), t2.split('\n')
      gone = [l[2:] for l in difflib.ndiff(a, b) if l.startswith('- ')]
      if gone and not any(l in orig for l in gone):
        return s['id'], False, 'changes no original line'
      open(p, 'w').write(t2)
    os.makedirs(d, exist_ok=True)
    rc, diff = sh('git diff', cwd=work)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % s.get('xla', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for l in s.get('libs', []):
      shutil.copy(os.path.join(HERE, l), d)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # demo elsewhere
    dd = os.path.join(tmp, 'demo'); shutil.copytree(d, dd)
    for x in ('patch.diff', 'meta.json'): os.remove(os.path.join(dd, x))
    rc1, o1 = sh(f'bash {dd}/demo.sh', cwd=work, timeout=300)
    sh('git checkout -- .', cwd=work)
    rc0, o0 = sh(f'bash {dd}/demo.sh', cwd=work, timeout=300)
    ok = rc0 == 0 and rc1 not in (0, 124)
    msg = f'clean={rc0} patched={rc1}'
    tail = lambda o: '\n      '.join([l for l in o.strip().split('\n') if not any(w in l for w in ('arning','WARN','I0000','os.fork','it/s]','Generated Data','gt_sentence'))][-2:])
    msg += '\n    clean: ' + tail(o0) + '\n    patched: ' + tail(o1)
    if not ok: pass
    return s['id'], ok, msg
  finally:
    shutil.rmtree(tmp, ignore_errors=True)

def check(sid):
  """The quick check of the property on a scratch copy with the patch."""
  meta = json.load(open(f'{SEEDED}/{sid}/meta.json'))
  tmp = tempfile.mkdtemp(prefix='seedc_', dir='/tmp')
  work = os.path.join(tmp, 'repo')
  try:
    os.makedirs(work)
    sh(f'git -C /repo archive HEAD | tar x -C {work} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', cwd=work)
    rc, o = sh(f'git apply {SEEDED}/{sid}/patch.diff', cwd=work)
    if rc: return sid, meta['property'], 'PATCH FAILS ' + o
    rc, o = sh(f'python run_check.py {meta["property"]}', cwd='/verif', timeout=900,
               env={'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VP_DEV_REPO': work, 'VP_DEV_OUT': tmp})
    v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
    st = [l for l in o.split('\n') if l.startswith('stratum:')]
    why = [l for l in o.split('\n') if l.startswith('why:')]
    ok = rc == 1 and bool(v)
    p = os.path.join(HERE, 'results.json')
    res = json.load(open(p)) if os.path.exists(p) else {}
    was = res.get(sid, {})
    note = was.get('note', '')
    if was.get('result') == 'missed' and ok and not note: note = 'first missed'
    res[sid] = dict(result='caught' if ok else 'missed', stratum=(st or [''])[0][9:], note=note)
    json.dump(res, open(p, 'w'), indent=1, sort_keys=True)
    return sid, meta['property'], f'rc={rc} {"CAUGHT" if ok else "MISSED"} {(st or [""])[0]} {(why or [""])[0][:160]}' + ('' if rc in (0,1) else o[-800:])
  finally:
    shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
  if sys.argv[1] == '--check':
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids: print(*check(i), flush=True)
  else:
    sp = importlib.util.spec_from_file_location('spec', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    want = sys.argv[2:]
    seeds = [s for s in m.SEEDS if not want or s['id'] in want]
    with ThreadPoolExecutor(4) as ex:
      for r in ex.map(make, seeds): print(r[0], 'OK' if r[1] else 'BAD', r[2], flush=True)
