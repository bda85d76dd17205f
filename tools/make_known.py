"""Writes known_findings.json; commits are looked up by subject in /repo."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # (subject, property, what failed)
    ('hammingball draws the auxiliary radius from log-counts', 'C02', 'Hamming-ball sampler: the auxiliary radius was drawn from counts used as logits, so one step changed the target law'),
    ("categorical GWG scores each chain's own proposed move", 'C03', 'categorical GWG with batches: proposal likelihoods of other chains entered the acceptance ratio (also C05)'),
    ('keep the adapted step size of DMALA and DLMC finite', 'C06', 'DMALA/DLMC adaptation reached infinite or NaN step sizes (also C04)'),
    ('count the value choice in the forward path of non-adaptive categorical PAS', 'C03', 'non-adaptive categorical PAS left the value choice out of the forward likelihood'),
    ('DMALA and DLMC score certain flips without 0 * log(0)', 'C01', 'DMALA/DLMC acceptance was NaN when a flip was certain'),
    ('DMALA estimates the total rate in log space', 'C01', 'DMALA rate estimate overflowed for steep energies (also C06)'),
    ('categorical DLMC proposals stay finite for steep energies', 'C01', 'categorical DLMC proposal weights overflowed for steep energies'),
    ('DMALA and DLMC adapt from the step size of the first step', 'C06', 'first DMALA/DLMC step adapted from the initial placeholder, against the acceptance direction'),
    ('the DMALA and DLMC step-size update does not overflow', 'C06', 'exponent of the step-size update overflowed (also C01)'),
    ('binomial coefficients are exact', 'C10', 'comb() lost integer precision'),
    ('Ising energies of integer samples are not truncated', 'C11', 'Ising log-likelihood of integer samples was truncated to integers'),
    ('the categorical FHMM transition matrix is stochastic', 'C12', 'categorical FHMM transition rows did not sum to one'),
    ('categorical FHMM recognises integer samples by their rank', 'C12', 'categorical FHMM mistook integer samples for one-hot ones for some shapes'),
    ('a categorical RBM can be created without stored parameters', 'C15', 'categorical RBM initialisation crashed without stored parameters'),
    ('the categorical FHMM draws its initial law and its path from different keys', 'C12', 'initial law and first hidden state shared a key, so the first state did not follow alpha'),
    ('Bernoulli and MIS neighbourhood log-ratios return the tuple the samplers expect', 'C17', 'Bernoulli and MIS log-ratios could not be used by the samplers; MIS counted padding edges'),
    ('normalised-cut log-ratios include the balance cost and skip padding edges', 'C17', 'normalised-cut log-ratios ignored the balance penalty and counted padding edges'),
    ('normalised-cut node degrees are indexed by node and padded', 'C19', 'node degrees followed insertion order and were not padded'),
    ('the ESS evaluator imports the JAX substrate it uses', 'C26', 'ESS evaluation crashed because the JAX substrate of TFP was reached through the TensorFlow package (also C24)'),
    ('the saved best samples leave out padding instances', 'C22', 'best_samples contained the padding instances added to fill the devices'),
    ('optimisation results of all instance batches are saved, not only the last', 'C22', 'with more instances than one batch only the last batch was saved'),
    ('optimisation runs work with fewer instances than devices', 'C22', 'runs crashed with fewer instances than devices'),
    ('the ESS is normalised by the share of the chain it was computed on', 'C26', 'ESS per step/evaluation was divided by the burn-in share instead of the measured share'),
    ('sampling runs work with fewer chains than saved sample rows', 'C24', 'runs crashed with fewer chains than saved rows'),
    ('estimation-error runs on one device save the whole parameter vector', 'C24', 'single-device runs saved only the first parameter'),
    ('n-gram percentages of sentences shorter than n words are zero', 'C27', 'uniqueness metrics divided by zero on short sentences'),
    ('the partition evaluation orders the adjacency matrix by node number', 'C28', 'cut quality was computed with rows in insertion order of the graph'),
    ('text infilling masks the scored position with the mask token', 'C30', 'the scored position was not hidden from the language model'),
    ('the infilling language model can be imported with current jaxlib', 'C30', 'the text-infilling model could not be imported: it used a jaxlib path that no longer exists'),
    ('reference corpora keep their last line apart from the others', 'C29', 'the reference corpus glued the last line of one corpus file to another line when it had no newline'),
    ('generated sentences are evaluated outside of jit', 'C30', 'text-infilling runs crashed because the sentences were evaluated inside jit'),
    ('the resample number is stripped from every sentence', 'C30', 'with ten or more resamples, digits of the resample number stayed in the sentence'),
    ('ESS values of single-device runs are read back completely', 'C31', 'the plotting code dropped ESS values of single-device runs'),
    ('only adaptive samplers are labelled as adaptive', 'C31', 'samplers with adaptive=False were labelled as adaptive, merging variants'),
    ('the optsicom sweep sets only options that exist', 'C33', 'every run of the optsicom sweep set an experiment option its configuration does not have and could not be started'),
    ('the training programs import the plotting module that exists', 'C34', 'neither training program could be imported: both imported discs.common.plot, which does not exist'),
    ('the RBM training program starts with any number of GPUs', 'C34', 'RBM training crashed at import with fewer than two GPUs'),
    ('image energies are finite for pixels that are always on', 'C13', 'a data-mean entry of exactly 1 made every energy NaN'),
    ('locally balanced step draws one neighbour of each multi-dimensional sample', 'C36', 'the locally balanced step drew several moves of the first rows instead of one per sample when samples have more than one dimension'),
    ('dmala and dlmc can be built from the documented model and sampler config', 'C33', 'dmala and dlmc could not be built from the two-section configuration the README documents'),
    ('SATLIB formula files with their usual trailer can be read', 'C20', 'formula files ending in the percent-and-zero trailer of the SATLIB benchmark could not be read'),
    ('the time axis of optimisation plots has one point per logged value', 'C31', 'for 49, 98, 103 and other numbers of logged values the time axis had one point more than the curve, and plotting stopped with an error'),
    ('saving samples with pictures writes them to the run directory', 'C31', 'dump_samples with visualize stopped with a NameError (undefined root_path)'),
    ('the saver passes lists and a label to the mixing-time graph', 'C28', 'plot_estimation_error stopped with a TypeError on every call (a missing argument)'),
    ('plotting by sampler works for Bernoulli and Ising runs that do not sweep init_sigma', 'C31', 'plots by sampler of Bernoulli and Ising results without init_sigma in the folder name stopped with an UnboundLocalError'),
]


def main():
  log = subprocess.check_output(
      ['git', '-C', '/repo', 'log', '--format=%H %s'], text=True).splitlines()
  by = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
  fixed = []
  for subj, pid, what in FIXED:
    h = by['fix: ' + subj][:10]
    fixed.append('fixed: property=%s %s %s' % (pid, h, what))
  left = [s for s in by if s.startswith('fix: ') and
          s[5:] not in [f[0] for f in FIXED]]
  assert not left, left
  with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=[], fixed=fixed), f, indent=1)
    f.write('\n')


main()
