"""Rewrites the "fixed" list of known_findings.json from this table."""
import json
import subprocess

FIXED = [
    ('Ising energy of integer samples', 'P01', 'the Ising energy of integer samples ignored the couplings, so samplers that pass integers and samplers that pass floats had different targets'),
    ('Hamming ball radius logits', 'P01', 'Hamming ball sampler not invariant for blocks of more than one site (ball sizes used as log weights)'),
    ('categorical GWG mixed', 'P01', 'categorical GWG not invariant and chains of a batch coupled for batches of two or more'),
    ('non-adaptive categorical path', 'P01', 'categorical path auxiliary sampler without adaptation not invariant'),
    ('Hamming ball draws the auxiliary', 'P01', 'Hamming ball chains of one batch shared the auxiliary radius draw'),
    ('categorical FHMM mistakes', 'P01', 'categorical FHMM energy wrong or failing for integer samples when k equals the number of categories'),
    ('categorical RBM cannot be built', 'P01', 'categorical RBM could not be built from the stored data mean of a trained model'),
    ('adaptive path auxiliary sampler walks', 'P01', 'adaptive path auxiliary sampler not invariant and changing masked positions once the radius exceeds the number of unmasked positions'),
    ('DMALA and DLMC proposals', 'P02', 'NaN acceptance (and NaN adaptive state) when a flip probability saturates at one'),
    ('adaptive DMALA and DLMC step', 'P02', 'adaptive step size NaN or infinite, chain frozen for ever'),
    ('DMALA rate normaliser', 'P02', 'adaptive DMALA state infinite or NaN on steep targets'),
    ('sampler steps modified', 'P03', 'eager steps of random walk, Gibbs, block Gibbs and DLMC without adaptation modified the state passed in, so a retried step counted twice'),
    ('dataset read errors were', 'P06', 'a read error of a dataset file ended the run as if the dataset were finished'),
    ('combinatorial results kept only', 'P06', 'results.pkl of a dataset with several batches held the last batch only'),
    ('fewer instances than devices', 'P06', 'runs with fewer instances per batch than devices crashed or attributed chains to the wrong instance'),
    ('normalised cut degrees', 'P06', 'node degrees of normalised cut followed the file order of the nodes and could not be padded'),
    ('ESS evaluation needs', 'P07', 'ESS evaluation failed with an AttributeError'),
    ('estimation error runs', 'P07', 'estimation error runs failed on a single device'),
    ('a graph file cut inside', 'P10', 'an instance cut short in a graph file was dropped silently'),
    ('processes of one job failed', 'P11', 'start-up failed when a process other than the first started first, or the directory appeared concurrently'),
    ('interrupted saves destroyed', 'P11', 'a crash or full disk during a save left torn result files and lost the earlier results'),
    ('text infilling runs ended', 'P12', 'text infilling runs ended in a TypeError instead of saving results'),
    ('every infilled sentence', 'P12', 'all sentences of a text infilling run were sampled with the same random key'),
    ('text infilling likelihoods', 'P12', 'the masked position of the infilling likelihood had a zero embedding instead of that of [MASK]'),
    ('sentences of later resamples', 'P12', 'sentences of the eleventh and later resamples were saved with a part of their number'),
    ('reference corpora could hold', 'P13', 'two corpus lines run together when the last line of a corpus has no line end'),
    ('interrupted dataset creation', 'P13', 'an interrupted creation left an old task file next to new reference corpora'),
    ('training could not be started', 'P14', 'training could not be restarted in the directory of an interrupted run'),
    ('processes could be given different', 'P15', 'processes were given different numbers of training batches'),
    ('training failed in every process', 'P16', 'training failed in every process but the first when it logged or ended'),
    ('a failed or interrupted training', 'P16', 'a failed or interrupted training destroyed the model trained before in its directory'),
    ('a pixel set in all', 'P16', 'a pixel set in all training images gave an undefined likelihood'),
    ('jobs of the optsicom sweep', 'P17', 'every job of the optsicom sweep ended with an error while it read its configuration'),
    ('tables of a CO or LM sweep', 'P18', 'one unfinished job kept the tables of a combinatorial or text sweep from being made'),
    ('bar was drawn at the setting', 'P18', 'the bars of a sampler moved to the settings of other jobs when a job before them had not finished'),
    ('time axis of a CO curve', 'P18', 'the curves over time could not be drawn for some trajectory lengths'),
    ('ESS of jobs that did not run in parallel', 'P18', 'the ESS of jobs on a single device was misread'),
    ('kept the table of a normcut', 'P18', 'one unfinished job kept the table of a normalised cut sweep from being made'),
    ('NaN logits when its step size underflowed', 'P02', 'categorical DLMC proposed with NaN logits (acceptance and step size NaN from then on) in a very cold target, when its step size had underflowed'),
    ('best samples of padding', 'P06', 'best samples of padding instances were saved as if they were instances of the dataset'),
    ('nodes are not listed in order', 'P18', 'the cut ratio of a graph whose nodes are not listed in order was computed for another partition'),
]

log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                     capture_output=True, text=True).stdout.splitlines()
out = []
for key, prop, what in FIXED:
  hit = [l for l in log if l.split(' ', 1)[1].startswith('fix: ') and key in l]
  assert len(hit) == 1, (key, hit)
  out.append('fixed: property=%s %s %s' % (prop, hit[0].split()[0], what))
missing = [l for l in log if ' fix: ' in ' ' + l and not any(
    l.split()[0] in o for o in out)]
assert not missing, missing
data = json.load(open('known_findings.json'))
data['fixed'] = out
with open('known_findings.json', 'w') as f:
  json.dump(data, f, indent=1)
  f.write('\n')
