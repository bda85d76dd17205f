#!/opt/venv/bin/python
"""Entry point of every check:  run_check.py <PROPERTY-ID> [--replay FILE] [--tier T]."""
import os
import sys

ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONNOUSERSITE': '1',
    'JAX_PLATFORMS': 'cpu', 'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '3',
    'MPLBACKEND': 'Agg', 'HF_HUB_OFFLINE': '1', 'TRANSFORMERS_OFFLINE': '1',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'LANG': 'C.UTF-8',
}
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('VP_CHILD') != '1':
  env = dict(os.environ)
  env.update(ENV)
  env['VP_CHILD'] = '1'
  env.pop('PYTHONPATH', None)
  args = sys.argv[1:]
  flags = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
  if args[:1] and args[0] in ('C22', 'C23', 'C24', 'C25', 'C30', 'C32', 'C34'):
    flags = '--xla_force_host_platform_device_count=4 ' + flags
  env['XLA_FLAGS'] = flags
  os.chdir(HERE)
  os.execve(PY, [PY, os.path.join(HERE, 'run_check.py')] + args, env)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import core  # noqa: E402

if __name__ == '__main__':
  sys.exit(core.main(sys.argv[1:]))
