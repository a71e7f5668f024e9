"""Properties this family of technique cannot decide here, with the reason."""


def _p(pid, title, statement, files, mech, reason, quant):
  return dict(reason=reason, prop=dict(
      id=pid, title=title, statement=statement,
      quantifier=dict(over=['inputs'], text=quant),
      why_tests_cant='They hold for every input; the tests sample one '
      'hand-made case each.',
      anchors=dict(files=files,
                   mechanism=[dict(name=a, where=b) for a, b in mech])))


PROPS = [
    _p('N01', 'Energies are the published formulas and gradients are theirs',
       'For every parameter setting and sample, each model\'s energy equals '
       'the formula of its definition (Bernoulli, categorical, Ising, Potts, '
       'FHMM, RBM, residual network, graph objectives with penalties), and '
       'the reported gradient is the derivative of that energy.',
       ['discs/models/*.py'], [('forward and get_value_and_grad',
                                'discs/models/*.py')],
       'A pure function of parameters and sample: no schedule, time, I/O, '
       'randomness or second party for a simulator to control; seeds would '
       'only be random testing. (Where an energy is consumed across parties '
       'the simulation does cover it: P01 against the samplers, P05 against '
       'an independent objective of the recorded samples.)',
       'all parameters and samples'),
    _p('N02', 'Text metrics are the standard ones',
       'For every list of sentences, the reported BLEU, self-BLEU and unique '
       'n-gram ratios equal their textbook definitions over the given '
       'references.', ['discs/evaluators/lm_eval.py'],
       [('nltk corpus_bleu and n-gram counting',
         'discs/evaluators/lm_eval.py')],
       'A pure function of two lists of sentences; nothing nondeterministic '
       'to simulate.', 'all sentence lists'),
    _p('N03', 'CNF formulas and graphs are converted faithfully',
       'For every CNF formula the conflict graph built from it has an '
       'independent set of one node per clause exactly when the formula is '
       'satisfiable.', ['discs/graph_loader/mis_loader.py'],
       [('cnf2graph', 'discs/graph_loader/mis_loader.py')],
       'A pure function from a clause list to a graph; no environment '
       'behaviour involved. (P10 does check the conversion of the formulas '
       'its simulated hosts read.)', 'all CNF formulas'),
]
