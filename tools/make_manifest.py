"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'property-based testing: generated sampler histories, range/finiteness invariant',
    'C02': 'property-based testing: one-step invariance of exactly drawn targets, two-stage statistical oracle',
    'C03': 'property-based testing: one-step invariance of exactly drawn targets, two-stage statistical oracle',
    'C04': 'property-based testing: one-step invariance of exactly drawn targets, two-stage statistical oracle',
    'C05': 'metamorphic property-based testing: replace other chains / instances, same key',
    'C06': 'property-based testing: generated histories, step-size bounds and direction invariants',
    'C07': 'property-based testing: generated masks and histories, frozen coordinates, conditional invariance',
    'C08': 'property-based testing: generated histories, move-set and reachability oracles',
    'C09': 'differential property-based testing: counting model against reported counters',
    'C10': 'property-based testing of numerical laws and sampling distributions against exact references',
    'C11': 'differential property-based testing against float64 definitions',
    'C12': 'differential property-based testing against float64 definitions; decoded generator law',
    'C13': 'differential property-based testing against enumeration of hidden units',
    'C14': 'property-based testing: finite differences and exact flip differences',
    'C15': 'property-based testing: validity predicates and two-stage distribution tests',
    'C16': 'differential property-based testing against exhaustive search on generated datasets',
    'C17': 'differential property-based testing: log-ratios against log-likelihood differences',
    'C18': 'round-trip property-based testing: save, restore, rescore',
    'C19': 'round-trip property-based testing of generated dataset files',
    'C20': 'round-trip property-based testing; truth table against maximum independent set',
    'C21': 'property-based testing: validity predicate over generated graphs; parser round-trip',
    'C22': 'model-based property testing of whole optimisation runs with recorded history',
    'C23': 'property-based testing: recorded temperatures against the schedule definition',
    'C24': 'model-based property testing of whole sampling runs with a recording sampler',
    'C25': 'property-based testing of whole AIS runs: exact closed form and unbiasedness',
    'C26': 'differential property-based testing against a reference ESS; metamorphic relations',
    'C27': 'differential property-based testing against reference BLEU / n-gram code',
    'C28': 'differential property-based testing; permutation metamorphic relations',
    'C29': 'round-trip property-based testing of generated corpora',
    'C30': 'differential property-based testing with a reference masked language model',
    'C31': 'round-trip property-based testing of names, result files and grouping',
    'C32': 'stateful (model-based) property testing of the replay buffer; pipeline round-trip',
    'C33': 'property-based testing of configuration merging; exhaustive resolution of shipped configs',
    'C37': 'model-based property testing of the launcher against a recording stand-in for XManager; round-trip of directory names',
    'C36': 'property-based testing: one-step frequencies against exact transition laws enumerated in float64, two-stage statistical oracle',
    'C34': 'model-based testing of the training loop against a float64 reference optimiser; end-to-end program runs on generated data',
    'C35': 'round-trip property-based testing of data files; statistical test of binarisation; differential test of converted checkpoints against a direct network evaluation',
}


def main():
  props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
  checks, na = [], []
  for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'vp', 'props', pid.lower() + '.py')):
      checks.append(dict(
          property=pid,
          quick_cmd='./run_check.py %s --tier quick' % pid,
          thorough_cmd='./run_check.py %s --tier thorough' % pid,
          evidence_file='evidence/%s.json' % pid,
          technique=TECH[pid], level='exploration',
          level_note='Generated-input search against an executable oracle; '
                     'holds on everything explored, see the evidence file for '
                     'rule, counts and assumptions.'))
    else:
      na.append(dict(property=pid, reason='check not built yet'))
  m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
           not_applicable=na,
           notes='No hooks in /repo: checks import /repo as it is. fix: '
                 'commits are listed in known_findings.json.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
