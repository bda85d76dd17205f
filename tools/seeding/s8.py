"""Planted changes, eighth set: the launcher."""
SEEDS = [
dict(id='launch-shared-args', prop='C37', edits=[('discs/xm_launcher.py', "args = copy.deepcopy(executable_args)", "args = executable_args")],
 needs='two sweep groups that set different options', breaks='a job inherits the options of the jobs before it', libs=['lnlib.py'],
 demo='''
from lnlib import *
jobs = launch(dict(model='ising', sampler='gwg', sweep=[
    {'sampler_config.name': ['dlmc'], 'sampler_config.solver': ['euler_forward']},
    {'sampler_config.name': ['gibbs']}]))
expect(len(jobs) == 2 and 'sampler_config.solver' not in jobs[1], 'settings leak: %s' % jobs)
'''),
dict(id='launch-sampler-file', prop='C37', edits=[('discs/xm_launcher.py', "      if 'sampler_config.name' in args.keys():", "      if len(kwargs) > 1 and next(iter(kwargs)) == 'sampler_config.name':")],
 needs='a sweep whose first setting is not the sampler name', breaks='the job runs with the configuration file of the default sampler', libs=['lnlib.py'],
 demo='''
from lnlib import *
jobs = launch(dict(model='ising', sampler='gwg', sweep=[
    {'config.experiment.chain_length': [5, 6], 'sampler_config.name': ['dlmc']}]))
expect(all(j['sampler_config'].endswith('/dlmc_config.py') for j in jobs), 'wrong sampler file: %s' % jobs)
'''),
dict(id='launch-dedupe', prop='C37', edits=[('discs/xm_launcher.py', "      all_sweeps_configs.append(sweeps)\n", "      seen = [c.get('sampler_config.name') for s in all_sweeps_configs for c in s]\n      all_sweeps_configs.append(\n          [c for c in sweeps if c.get('sampler_config.name') not in seen])\n")],
 needs='two sweep groups for the same sampler with different settings', breaks='the second group is not launched', libs=['lnlib.py'],
 demo='''
from lnlib import *
jobs = launch(dict(model='ising', sampler='gwg', sweep=[
    {'sampler_config.name': ['dlmc', 'gibbs'], 'model_config.init_sigma': [0.5]},
    {'sampler_config.name': ['dlmc'], 'model_config.init_sigma': [1.5]}]))
expect(len(jobs) == 3, '%d jobs instead of 3' % len(jobs))
'''),
dict(id='launch-dir-key', prop='C37', edits=[('discs/xm_launcher.py', "        elif k.startswith('model_config.'):\n          k = k[len('model_config.') :]\n", "        elif k.startswith('model_config.'):\n          k = k.strip('model_config.')\n")],
 needs='a swept model setting whose name starts or ends with a letter of model_config', breaks='the result directory names the setting wrongly', libs=['lnlib.py'],
 demo='''
from lnlib import *
jobs = launch(dict(model='ising', sampler='gwg', sweep=[{'model_config.init_sigma': [0.5], 'sampler_config.name': ['gwg']}]))
r = jobs[0]['config.experiment.save_root']
expect('init_sigma=0.5' in r, 'saved to %s' % r)
'''),
]
