"""Properties, their checks and what each check covers (one table).

tools_gen.py writes properties.jsonl and MANIFEST.json from it.
"""
META = {}
ORDER = []

COMMON_ASSUME = [
    'CPU back end of the installed JAX; other back ends are not simulated',
    'XLA-compiled kernels and JAX PRNG are trusted to be deterministic '
    'functions of their inputs',
]
CLOCK = 'clock (time.*): virtual, advanced by the simulator'
DEVS = ('accelerators: host CPU devices; dispatch order, duration and loss '
        'decided by the simulator')


def add(pid, title, statement, over, quant, why, files, mechanism, observe,
        quick, thorough, rule, real, stub, note, assumptions=(), devices=1,
        state=(), hook=None, technique='deterministic simulation: seeded '
        'search over schedules and fault sequences', **k):
  ORDER.append(pid)
  META[pid] = dict(
      runs=dict(quick=quick, thorough=thorough), level='exploration',
      rule=rule, real=list(real), stub=list(stub),
      assumptions=list(assumptions) + COMMON_ASSUME, devices=devices,
      level_note=note, technique=technique,
      prop=dict(
          id=pid, title=title, statement=statement,
          quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
          anchors=dict(files=list(files),
                       mechanism=[dict(name=a, where=b) for a, b in mechanism],
                       state=[dict(name=a, meaning=b, where=c)
                              for a, b, c in state],
                       observe_at=list(observe), hook_needed=hook)),
      **k)


SAMPLER_FILES = ['discs/samplers/%s.py' % f for f in (
    'randomwalk', 'gibbs', 'blockgibbs', 'hammingball', 'gwg', 'dmala',
    'dlmc', 'path_auxiliary', 'locallybalanced', 'abstractsampler')] + [
        'discs/common/math_util.py']
SAMPLER_REAL = [
    'all sampler modules under discs/samplers with every kernel-changing '
    'option (63 configurations)',
    'discs/common/math_util.py',
    'the energy models and graph loaders the run draws, on tiny instances '
    'written to scratch files in the benchmark layouts']
SAMPLER_WHY = (
    'The sampler tests take one step (or a few) of a sampler from one start '
    'and look at shapes and at equality with a hand copy of the step; a '
    'distributional or whole-history statement over every sampler option, '
    'model, adaptive state and key is out of their reach, and most of them '
    'fail at this commit.')

add('P01',
    'Samplers leave the target distribution invariant and explore it',
    'For every sampler configuration and energy model, one step from samples '
    'of the target distribution yields samples of the target distribution, '
    'whatever adaptive state an earlier history has reached, and the chains '
    'of a batch take their steps independently. From any single '
    'starting sample, chains of samplers whose moves connect the space reach '
    'every state the target does not make rare.',
    ['configurations', 'inputs', 'histories'],
    'every sampler option (balancing function, block size, number of flips, '
    'solver, adaptive or not), every energy model, every parameter draw, '
    'every adaptive state reachable by a history, every PRNG key and batch '
    'grouping', SAMPLER_WHY, SAMPLER_FILES,
    [('Metropolis-Hastings correction with forward and reverse proposal '
      'probabilities', 'discs/samplers/*.py: step, discs/common/math_util.py: '
      'mh_step, multinomial, noreplacement_sampling_renormalize'),
     ('conditional resampling of blocks',
      'discs/samplers/gibbs.py, blockgibbs.py, hammingball.py: step')],
    ['samples returned by step()'],
    126, 4000,
    'a run draws a sampler configuration (stratified), a model instance, a '
    'history of warm-up steps that fixes the adaptive state and batch '
    'grouping, then 32768 exact target samples are pushed through 8 steps; '
    'non-trivial: at least one goodness-of-fit test was decided; distinct: '
    'event-log hashes differ',
    SAMPLER_REAL, [CLOCK, 'PRNG keys: drawn from the run seed'],
    'Goodness-of-fit against the exactly enumerated target, two looks '
    '(p < 1e-5, then an independent repeat four times as large at p < 1e-10): '
    'finds total-variation errors of about 1% and more on spaces of at most a '
    'few hundred states; independence by the spread of per-batch counts '
    '(z > 7, then z > 8 in a repeat four times as large); not a proof.',
    ['The target is exp(energy) as the model\'s own energy function computes '
     'it on the enumerated space (whether that energy is the right formula is '
     'not judged here).',
     'Samplers that make path moves of one fixed length, and the adaptive '
     'random walk, are only checked for invariance (they need not connect '
     'tiny spaces).',
     'The joint parallel-opt mode (co_opt_prob) is approximate by design and '
     'excluded.'])

add('P02',
    'Samples stay in the state space, masks hold, adaptation stays sane',
    'Every step of every sampler returns integer samples of the same shape '
    'with every value a valid category, leaves masked positions untouched '
    'where the sampler accepts a mask, reports an acceptance ratio in [0, 1] '
    'and keeps its whole state finite and its radius within the dimension, '
    'even when the target jumps, samples are replaced or the chain is stopped '
    'and restored. Once the target is benign again, every position of the '
    'sample moves within a bounded number of steps.',
    ['configurations', 'histories', 'fault_sequences', 'inputs'],
    'every sampler option and model, every history of target changes '
    '(annealing, parameter updates), sample refills and stop/restore events, '
    'batch sizes down to one chain', SAMPLER_WHY, SAMPLER_FILES,
    [('clipping of radius and step size', 'discs/samplers/randomwalk.py, '
      'gwg.py, path_auxiliary.py, dmala.py, dlmc.py'),
     ('mask as -1e9 logits', 'discs/samplers/gwg.py: get_dist_at, '
      'path_auxiliary.py: get_local_dist, proposal')],
    ['samples, acceptance and state returned by step()'],
    126, 6000,
    'a run draws a sampler configuration (stratified), a model, 1 to 5 '
    'segments of history with target jumps up to 25x, refills and restores, '
    'then up to 400 fault-free steps; every step is checked; distinct: '
    'event-log hashes differ',
    SAMPLER_REAL, [CLOCK, 'PRNG keys: drawn from the run seed',
                   'stop/restore: samples and state through pickle'],
    'Invariants checked after every simulated step of seeded histories with '
    'injected target jumps, refills and restarts, then bounded progress once '
    'they stop.',
    ['Masks are an obligation of the samplers that read them (gradient Gibbs '
     'on binary models and path auxiliary); the others resample masked '
     'positions, on which the energy does not depend.',
     'DLMC without adaptation keeps its first step size and is exempt from '
     'the progress bound.'])

add('P03',
    'A sampler step is a pure, repeatable function; chains are isolated',
    'A step depends only on its arguments: repeating it after a lost reply, '
    'interleaving it with the steps of other chains that share the sampler, '
    'or resuming from a stored copy gives identical samples and state, and '
    'the arguments are left unmodified. The next sample of one chain of a '
    'batch never depends on the samples the other chains hold.',
    ['schedules', 'fault_sequences', 'configurations'],
    'every interleaving of clients sharing a sampler and a model, every point '
    'at which a reply is lost or a client is stopped and restored, compiled '
    'and eager execution, every sampler option and model', SAMPLER_WHY,
    SAMPLER_FILES,
    [('explicit state and key passing', 'discs/samplers/*.py: step'),
     ('row-wise proposals and acceptance', 'discs/common/math_util.py')],
    ['values returned by step() and its arguments after the call'],
    126, 6000,
    'a run draws a sampler, a model, 2 or 3 clients, and a schedule '
    'interleaving their steps with retries, restores and replaced neighbour '
    'chains; the reference is each client alone on a sampler of its own; '
    'distinct: event-log hashes differ',
    SAMPLER_REAL, [CLOCK, 'scheduling of clients: seeded', 'lost replies: '
                   'result dropped and step repeated'],
    'Exact comparison of interleaved, retried and restored executions with a '
    'sequential reference execution.',
    ['In the very first step the step size of DLMC and DMALA is estimated '
     'from the whole batch by design; isolation is required from the second '
     'step on.'])

add('P04',
    'The count of energy evaluations is exact',
    'At every point of every history, the number of energy evaluations a '
    'sampler state reports per chain equals the number the model was actually '
    'asked for (a value is one, a value with gradient two, a neighbourhood '
    'of exact ratios one), starting from zero and surviving stop and restore.',
    ['configurations', 'histories', 'fault_sequences'],
    'every sampler option, model, batch size and history with lost results '
    'and restores', SAMPLER_WHY + ' No test looks at the counter against a '
    'metered model.', SAMPLER_FILES,
    [('per-step increment of the counter', 'discs/samplers/*.py: '
      'update_sampler_state, select_sample')],
    ['state returned by step(), calls received by the model'],
    126, 6000,
    'a run draws a sampler, a model, a batch size and 8 to 24 steps with lost '
    'results and restores; the model is wrapped by a meter that counts rows '
    'per execution; distinct: event-log hashes differ',
    SAMPLER_REAL + ['model energy functions behind a metering wrapper'],
    [CLOCK],
    'Refinement against a metered model at every step of seeded histories.')

CO_FILES = [
    'discs/experiment/sampling.py', 'discs/common/experiment_saver.py',
    'discs/evaluators/co_eval.py', 'discs/models/comb_ebm.py',
    'discs/models/maxcut.py', 'discs/models/mis.py',
    'discs/models/maxclique.py', 'discs/models/normcut.py',
    'discs/graph_loader/common.py', 'discs/graph_loader/maxcut_loader.py',
    'discs/graph_loader/mis_loader.py',
    'discs/graph_loader/maxclique_loader.py',
    'discs/graph_loader/normcut_loader.py', 'discs/common/utils.py']
CO_REAL = [
    'CO_Experiment, Saver, COevaluator, the four combinatorial models, the '
    'graph loaders of nine datasets, all samplers (run behind a spy that '
    'reports each step)']
SPY = ('sampler: the real one behind a reporting spy, or a scripted sampler '
       'that jumps uniformly (roughest histories)')
EXP_WHY = (
    'No test runs an experiment class at all; the records depend on the whole '
    'history of every chain, on batch and device layout, and on time.')

add('P05',
    'Combinatorial runs record the best solution each instance reached',
    'For every combinatorial experiment (maxcut, maximum independent set, '
    'maximum clique, normalised cut), the saved trajectory holds for every '
    'instance and every logging step the best value (objective minus penalty, '
    'relative to the reference) that any of its chains had reached at logging '
    'steps so far; the saved best ratio is the last of them, its saved mean is '
    'their mean, the saved best sample attains it, padding nodes, edges and '
    'instances contribute nothing, every step ran at the temperature of the '
    'configured annealing schedule and with randomness that no other step, '
    'device or instance of its batch is given, and the saved running time is '
    'the time of the steps after burn-in and nothing else.',
    ['histories', 'configurations', 'inputs'],
    'every instance set, sampler, schedule, chain length, logging interval, '
    'burn-in share, padding and history of samples', EXP_WHY, CO_FILES,
    [('running maximum over chains and steps',
      'discs/experiment/sampling.py: CO_Experiment._compute_chain'),
     ('annealing schedule', 'discs/experiment/sampling.py: CO_Experiment.'
      '_build_temperature_schedule'),
     ('result file', 'discs/common/experiment_saver.py: save_co_resuts')],
    ['results.pkl', 'steps taken by the sampler'],
    96, 3000,
    'a run draws a dataset layout, graphs, sampler, schedule, sizes and '
    'padding and runs the whole experiment on a virtual clock with random '
    'dispatch durations; the artefact is compared with a running maximum '
    'over the spied history under an objective written from the problem '
    'definition; non-trivial: the experiment ended and its records were '
    'compared; distinct: event-log hashes differ',
    CO_REAL, [CLOCK, SPY, DEVS],
    'Refinement of the saved artefact against an independent reference over '
    'the recorded history of each seeded run; instances of 4 to 7 nodes.')

add('P06',
    'Every instance of a dataset is solved and recorded exactly once',
    'A combinatorial experiment that ends normally has saved one record per '
    'instance of the dataset, in dataset order, each computed from that '
    'instance\'s own graph, reference and all of its chains, however the '
    'instances are grouped into batches (including a partial last batch) and '
    'however batches, instances and chains are spread over devices; the saved '
    'running time covers all batches, and no two instances or devices of a '
    'batch share randomness. An error while reading the dataset ends '
    'the run with that error instead of silently leaving instances out.',
    ['configurations', 'faults', 'histories'],
    'every number of instances, batch grouping, number of devices and layout, '
    'directory order, read fault and left-over artefact of an earlier run',
    EXP_WHY, CO_FILES,
    [('batching and padding of instances',
      'discs/graph_loader/common.py: get_iterator'),
     ('layout over devices',
      'discs/experiment/sampling.py: Experiment._prepare_data'),
     ('accumulation of results over batches',
      'discs/experiment/sampling.py: CO_Experiment.get_results, '
      'discs/common/experiment_saver.py: save_co_resuts')],
    ['results.pkl', 'exceptions leaving get_results'],
    108, 3000,
    'a run draws a dataset, a batch size, a device layout (1, 2 or 4 '
    'devices), directory order and read faults and runs the whole experiment; '
    'records are compared instance by instance with the spied history; '
    'non-trivial: the experiment ended or the injected error surfaced; '
    'distinct: event-log hashes differ',
    CO_REAL, [CLOCK, SPY, DEVS, 'file system: real files in scratch behind '
              'a fault-injecting seam'],
    'Conservation and attribution against the recorded history of each '
    'seeded run, with read faults injected at seeded points.', devices=4)

add('P07',
    'Sampling runs report the statistics of the samples they drew',
    'A sampling experiment takes exactly the configured number of steps in '
    'every chain, no two steps or devices with the same randomness; the '
    'effective sample size it saves is that of the distances '
    'of the samples drawn after burn-in (and none before) to one reference '
    'sample, averaged over all chains on all devices; its normalised forms '
    'divide by the steps after burn-in, by the time of those steps alone and '
    'by half the energy evaluations counted; hop counts cover every step, and '
    'saved samples are those of fixed, distinct chains at exactly the '
    'configured steps.',
    ['histories', 'configurations'],
    'every sampler, model, chain length, batch, device layout, saving '
    'interval and history', EXP_WHY,
    ['discs/experiment/sampling.py', 'discs/common/experiment_saver.py',
     'discs/evaluators/ess_eval.py'],
    [('burn-in and mixing loops',
      'discs/experiment/sampling.py: Sampling_Experiment._compute_chain'),
     ('effective sample size', 'discs/evaluators/ess_eval.py'),
     ('result row', 'discs/common/experiment_saver.py: _save_ess_results')],
    ['results.csv', 'samples.pkl', 'params.pkl', 'steps taken by the sampler'],
    96, 3000,
    'a run draws a model, sampler, sizes, device layout (1, 2 or 4 devices) '
    'and dispatch durations and runs the whole experiment; the artefacts are '
    'compared with statistics recomputed from the spied history; non-trivial: '
    'the experiment ended and its artefacts were compared; distinct: '
    'event-log hashes differ',
    ['Sampling_Experiment, Saver, ESSevaluator, classical models and all '
     'samplers (behind a reporting spy)'],
    [CLOCK, SPY, DEVS],
    'Refinement of the saved artefacts against statistics recomputed from '
    'the recorded history of each seeded run; burn-in share 0.5.', devices=4)

add('P08',
    'Annealed importance sampling estimates the partition function',
    'An energy-based-model experiment anneals every chain from the base '
    'distribution (inverse temperature 0) to the model (1) in equal steps, '
    'samples each step at the temperature just reached with randomness no '
    'other step or device is given, and saves after every '
    'step the log mean importance weight of exactly the chains it ran; '
    'started from the base distribution the final estimate of the partition '
    'function is unbiased, whatever the sampler and device layout.',
    ['histories', 'configurations'],
    'every sampler, network, chain length, batch and device layout', EXP_WHY,
    ['discs/experiment/sampling.py', 'discs/models/resnet.py',
     'discs/models/deep_ebm.py', 'discs/common/experiment_saver.py'],
    [('weight accumulation', 'discs/experiment/sampling.py: '
      'EBM_Experiment._compute_chain'),
     ('tempered energy', 'discs/models/resnet.py: ImageEBM.forward')],
    ['logz.pkl', 'steps taken by the sampler'],
    72, 2000,
    'a run draws a network, sampler, chain length, batch and device layout '
    'and runs the whole experiment; weights are recomputed from the spied '
    'chains and the fully enumerated energies, and half of the runs test '
    'unbiasedness with 1024 chains (alarm at 7 standard errors); '
    'non-trivial: estimates were compared; distinct: event-log hashes differ',
    ['EBM_Experiment, Saver, residual network, parameter loading, all '
     'samplers (behind a reporting spy)'],
    [CLOCK, SPY, DEVS],
    'Exact recomputation of the weights from the recorded history plus a '
    'statistical test against the enumerated partition function.',
    devices=4)

add('P10',
    'Graph datasets are shared out among hosts exactly once',
    'Read by any number of processes with global batches, every instance of '
    'a graph dataset is given to exactly one process, with its own graph and '
    'reference value and a number that depends on neither the directory '
    'order nor the process; every process gets the same number of batches of '
    'the same size and shapes, filled up with marked padding; a process that '
    'crashes and restarts gets the same share again; an unreadable or '
    'truncated file is reported and never shortens the dataset.',
    ['schedules', 'crash points', 'configurations'],
    'every dataset layout, number of hosts, batch size, interleaving, host '
    'crash and read fault', EXP_WHY,
    ['discs/graph_loader/common.py', 'discs/graph_loader/*.py',
     'discs/common/utils.py'],
    [('sharded batching', 'discs/graph_loader/common.py: get_iterator'),
     ('dataset scanning and reading', 'discs/graph_loader/*_loader.py: '
      'sample_gen'),
     ('edge arrays', 'discs/common/utils.py: graph2edges')],
    ['batches of get_iterator', 'max_num_nodes, max_num_edges, num_instances',
     'exceptions'],
    400, 12000,
    'a run draws a dataset, a number of hosts and a batch size and lets the '
    'scheduler interleave the hosts, crash and restart them, reorder '
    'directories and fail reads; the union of what the hosts were given is '
    'compared with the dataset; non-trivial: all hosts reached the end or the '
    'fault surfaced; distinct: event-log hashes differ',
    ['all graph loaders and get_iterator, one instance per simulated host'],
    ['process index and count: simulated topology',
     'file system: real files in scratch behind a fault-injecting seam'],
    'Exactly-once and attribution over the recorded shares of all hosts '
    'under seeded interleavings, host crashes and read faults.')

add('P09',
    'Sampling runs are reproducible',
    'Two executions of the sampling program with the same configuration save '
    'the same artefacts, times aside: nothing depends on the clock, the order '
    'of directory entries, the state of the process-wide random generators, '
    'the process it runs in or what that process ran before, or what an '
    'earlier, possibly interrupted, execution left in the result directory.',
    ['histories', 'crash points', 'configurations'],
    'every configuration, surroundings, earlier history and crash point of an '
    'earlier attempt', EXP_WHY,
    ['discs/experiment/main_sampling.py', 'discs/experiment/sampling.py',
     'discs/common/experiment_saver.py', 'discs/graph_loader/*.py'],
    [('random keys of a run', 'discs/experiment/sampling.py: preprocess'),
     ('file order of datasets', 'discs/graph_loader/*.py'),
     ('writing of artefacts', 'discs/common/experiment_saver.py')],
    ['every file of the result directory except event logs'],
    80, 2000,
    'a run draws a configuration and executes the program two to four times '
    'with different simulated clocks, directory orders, generator states, '
    'histories and interrupted attempts, and for a seventh of the runs once '
    'in a new interpreter with another string-hash seed; non-trivial: '
    'artefacts of two '
    'complete executions were compared; distinct: event-log hashes differ',
    ['main_sampling, all experiments, models, samplers, evaluators, Saver'],
    [CLOCK, DEVS, 'file system: real files in scratch, directory order '
     'simulated'],
    'Self-composition of seeded executions under different surroundings.',
    devices=4)

add('P11',
    'Saved artefacts are whole at every point of failure',
    'Whenever the sampling program crashes, runs out of disk space or fails '
    'to write, each data file in its result directory (results, samples, '
    'parameters, tables, configuration) is either the one that '
    'was there before or a complete one of this run, never a torn one, and '
    'none that existed is lost; a failed write is never reported as success; '
    'processes sharing the directory can start in any order; and running the '
    'same command again afterwards completes and saves the same results as '
    'an undisturbed run.',
    ['crash points', 'fault sequences', 'configurations'],
    'every configuration and every crash point, torn write or write error '
    'in the result directory', EXP_WHY,
    ['discs/common/experiment_saver.py', 'discs/common/utils.py',
     'discs/experiment/main_sampling.py', 'discs/evaluators/bernoulli_eval.py'],
    [('result files', 'discs/common/experiment_saver.py: _dump_dict, '
      '_save_ess_results'),
     ('configuration of the run', 'discs/common/utils.py: setup_logging')],
    ['every file of the result directory except event logs',
     'exceptions leaving main'],
    80, 2500,
    'a run draws a configuration, executes the program once without faults, '
    'then three to six times with a crash, torn write, full disk, write error '
    'or concurrent directory creation at a seeded operation, on an empty '
    'directory, on earlier results or on what the last fault left, half of '
    'them followed by one more execution without faults; '
    'non-trivial: the fault was reached and the artefacts were compared; '
    'distinct: event-log hashes differ',
    ['main_sampling, all experiments, models, samplers, evaluators, Saver'],
    [CLOCK, 'file system: real files in scratch behind a fault-injecting '
     'seam (a crash keeps what reached the system; in half of the runs '
     'written data stays in the buffer of the process until flush or close; '
     'loss of unsynced data at power failure is not simulated)',
     'devices: a computation the program already asked for with the same '
     'arguments is answered from memory'],
    'Crash and write-fault injection at seeded operations; artefacts '
    'compared with the complete versions of an undisturbed execution.')

TRAIN_WHY = ('No test trains anything; the outcome depends on the history of '
             'all chains, on the number of devices and processes and on where '
             'a process stops.')

add('P12',
    'Text infilling writes the sentences it was asked for',
    'For every infilling task file, each task is sampled the configured '
    'number of times, in order, each time by a chain of the configured number '
    'of sampler steps with randomness of its own; a saved sentence is the '
    'task with only its masked words replaced, by the words its chain ended '
    'at; the '
    'log-likelihood samplers and selection use is the sum over masked '
    'positions of log p(word | that position masked, all others given) of '
    'that very sentence under the language model; the top-k file holds the k '
    'most likely samples of each task; the saved scores are those of the '
    'saved sentences; and the run ends with its results saved.',
    ['histories', 'configurations'],
    'every task file, order and repetition of sentences, checkpoint, sampler '
    'and number of resamples', EXP_WHY,
    ['discs/models/text_infilling.py', 'discs/experiment/sampling.py',
     'discs/evaluators/lm_eval.py', 'discs/common/experiment_saver.py',
     'discs/common/customized_huggingface_flax_bert.py'],
    [('likelihood of a sentence', 'discs/models/text_infilling.py: '
      'single_forward'),
     ('chains and selection', 'discs/experiment/sampling.py: '
      'Text_Infilling_Experiment'),
     ('BERT with one-hot inputs',
      'discs/common/customized_huggingface_flax_bert.py')],
    ['results.pkl, results_topk.pkl', 'model.forward, get_value_and_grad'],
    48, 1200,
    'a run draws a checkpoint, a task file with sentences of equal lengths '
    'and repeated sentences, a sampler and resampling options and executes '
    'the program; non-trivial: saved sentences were compared with the tasks; '
    'distinct: event-log hashes differ',
    ['main_sampling, Text_Infilling_Experiment, TextInfilling, the '
     "repository's BERT, samplers, LMevaluator, Saver"],
    [CLOCK, DEVS, 'checkpoint and vocabulary: small ones drawn from the seed '
     '(width 8, 30522 made-up words)',
     'one name missing from the installed jaxlib is defined as an alias'],
    'Whole seeded runs compared with the masked language model of the '
    'transformers library on plain token ids.', devices=4)

add('P13',
    'The infilling dataset keeps every corpus line exactly once',
    'Creating the infilling dataset splits the corpora without loss: every '
    'line is either the source of exactly one task or in the reference '
    'corpus, never both; quotas and length limits are respected and no '
    'fitting line is passed over while there is room; a task is its source '
    'sentence with the asked number of inner words masked and the positions '
    'the tokenizer gives them. If creation crashes or a write fails at any '
    'point, no readable task file is left next to reference corpora it does '
    'not belong to, the failure is reported, and creating again works.',
    ['crash points', 'fault sequences', 'configurations'],
    'every corpus, option, draw, crash point and write or read fault',
    'No test creates a dataset; what is left on disk depends on the corpora, '
    'the draws and on where a write fails.',
    ['discs/common/utils.py', 'discs/common/create_text_infilling_dataset.py'],
    [('splitting and writing', 'discs/common/utils.py: '
      'create_infill_dataset')],
    ['infilling_task.json and the two reference corpora', 'exceptions'],
    2000, 60000,
    'a run draws two corpora and options, creates the dataset, then creates '
    'it again one to three times with a seeded crash, torn write, full disk '
    'or I/O error, and a last time without; non-trivial: at least two '
    'datasets were compared with the corpora; distinct: event-log hashes '
    'differ',
    ['create_infill_dataset, BertTokenizer'],
    ['file system: real files in scratch behind a fault-injecting seam',
     'random generator: seeded by the simulator'],
    'Conservation and consistency of the three files under seeded faults.')

add('P14',
    'Data-parallel training does the update of the whole batch',
    'On any number of devices, after every step of the training loop all '
    'replicas of parameters, optimizer state and running average are equal '
    'and are what one update on the whole batch gives: gradient of the mean '
    'over all devices, configured optimizer, clipping and schedule, running '
    'average with the configured decay. Negative samples are chains the '
    'sampler moved the configured number of steps under the current '
    'parameters, with randomness no other device, step or process uses. The '
    'loop makes exactly the steps asked for (or ends with the data), a '
    'checkpoint holds the state after the step it is named after, logged '
    'metrics are those of the step, and training can be started again or '
    'resumed from a checkpoint after a crash in the same directory.',
    ['schedules', 'crash points', 'configurations'],
    'every configuration, number of devices and processes, data and crash '
    'point', TRAIN_WHY,
    ['discs/learning/train.py', 'discs/learning/replay_buffer.py',
     'discs/learning/rbm/main_rbm_training.py',
     'discs/learning/binary_ebm/main_binary_training.py',
     'discs/common/utils.py'],
    [('update and averages', 'discs/learning/train.py: global_update_fn'),
     ('loop, keys and checkpoints', 'discs/learning/train.py: train_loop'),
     ('chains', 'batch_processing of RBMTrainer and EBMTrainer'),
     ('sharded state', 'discs/common/utils.py: '
      'create_sharded_sampler_state')],
    ['fn_plot callback after every step', 'checkpoints on disk',
     'metric writer', 'sampler calls'],
    96, 3000,
    'a run draws a trainer, configuration, number of devices and processes '
    'and data, trains, crashes after a seeded step and starts again, and '
    'resumes from a checkpoint; non-trivial: at least one step was compared '
    'with the reference update; distinct: event-log hashes differ',
    ['Trainer, RBMTrainer, EBMTrainer, ReplayBuffer, RBM, samplers'],
    [DEVS, 'other processes: simulated one after the other, each with its own '
     'devices; the collective between processes is not simulated',
     'metric writer: recording stub', 'torch, tensorflow_datasets, '
     'discs.common.plot: absent here, empty modules',
     'optax, orbax and tensorflow: real'],
    'Every step of seeded training runs is compared with a reference update '
    'on one device.', devices=4)

add('P15',
    'Training data is shared out among processes exactly once',
    'For every number of processes and devices, batch size and dataset, the '
    'training data loader gives each example of a pass to exactly one '
    'process and at most once, unchanged but for the preprocessing; every '
    'process gets the same number of batches, each shaped devices x '
    'per-device size; a repeated dataset never ends and goes over the same '
    'share again; and a process that crashes and starts again is given the '
    'same batches in the same order.',
    ['schedules', 'crash points', 'configurations'],
    'every dataset, number of processes and devices, batch size, shuffling '
    'and repetition option, interleaving and process crash', TRAIN_WHY,
    ['discs/common/data_loader.py', 'discs/common/utils.py'],
    [('sharding, shuffling, batching', 'discs/common/data_loader.py: '
      'prepare_dataloader'),
     ('batch size of a process', 'discs/common/utils.py: '
      'get_per_process_batch_size')],
    ['batches of numpy_iter(prepare_dataloader(...))'],
    800, 20000,
    'a run draws a dataset, topology and loader options, interleaves the '
    'processes, crashes and restarts some, and compares what all were given; '
    'non-trivial: every process was read to the end (or, if repeated, for six '
    'batches); distinct: event-log hashes differ',
    ['prepare_dataloader, numpy_iter, get_per_process_batch_size, tf.data'],
    ['process index and count: simulated topology'],
    'Exactly-once and equal-length shares over the recorded batches of all '
    'processes under seeded interleavings and crashes.', devices=4)

add('P16',
    'A training program saves the model it trained, whole',
    'For both training programs, every configuration and number of devices '
    'and processes: once training has ended in every process, the directory '
    'given to the sampling program as data_path makes a model that gives '
    'every sample the log-likelihood it has under the parameters after the '
    'last training step, and that starts chains from the mean of the training '
    'data. If a training stops, crashes, or fails to write its model at any '
    'point, the failure is reported, the model of an earlier training in that '
    'directory can still be loaded as it was (or the new one, whole), and '
    'training again works.',
    ['crash points', 'fault sequences', 'configurations'],
    'every program, configuration, number of devices and processes, order of '
    'processes, stop and write fault', TRAIN_WHY,
    ['discs/learning/rbm/main_rbm_training.py',
     'discs/learning/binary_ebm/main_binary_training.py',
     'discs/learning/train.py', 'discs/models/deep_ebm.py',
     'discs/models/rbm.py', 'discs/models/resnet.py',
     'discs/common/utils.py'],
    [('saving', 'main of both training programs'),
     ('loading', 'discs/models/deep_ebm.py: load_params_configs'),
     ('logging and configuration', 'discs/common/utils.py: setup_logging')],
    ['params.pkl and config.yaml through build_model(data_path)',
     'checkpoints', 'exceptions', 'results of the sampling program'],
    64, 2000,
    'a run trains a model, trains again in the same directory with a seeded '
    'stop, crash, torn write, full disk or I/O error, looks at the model '
    'left, and trains once more without; non-trivial: a saved model was '
    'compared with the parameters or with an undisturbed training; distinct: '
    'event-log hashes differ',
    ['both training programs from their command line, trainers, models, '
     'checkpoints, metric writer, tf.data; the sampling program on the '
     'trained RBM'],
    ['process index and count: simulated topology (collectives between '
     'processes are not simulated)', 'torch, torchvision: not used by what '
     'runs', 'tensorflow_datasets.load: a small dataset drawn from the seed',
     'discs.common.plot: not in the repository, replaced by nothing',
     'file system: real files in scratch behind a fault-injecting seam'],
    'Whole seeded executions of both programs; what is on disk is judged by '
    'loading it.', devices=2)

SWEEP_WHY = (
    'No test runs the launcher or reads the results of a sweep; what a sweep '
    'promises is about all of its jobs together, in whatever order the '
    'cluster makes, runs and loses them.')

add('P17',
    'A sweep becomes one job per declared combination, each run as declared',
    'For every run configuration, shipped or written in the same manner, and '
    'whatever the order in which the cluster makes the jobs or which jobs it '
    'turns down: the launcher submits exactly one job for each combination '
    'of swept values of each sweep block and no other job; each job makes '
    'the sampling program run with the model, sampler and experiment files '
    'of that combination, the swept values in place of theirs, and nothing '
    'of any other job; and no two jobs, of this or another launch, write '
    'their results to the same directory.',
    ['schedules', 'fault sequences', 'configurations'],
    'every run configuration, launch option, order and interleaving of job '
    'creation, and set of rejected jobs', SWEEP_WHY,
    ['discs/xm_launcher.py', 'discs/experiment/main_sampling.py',
     'discs/run_configs', 'discs/common/configs.py', 'discs/models/configs',
     'discs/samplers/configs', 'discs/experiment/configs'],
    [('combinations and jobs', 'discs/xm_launcher.py: get_sweeps, make_job'),
     ('merging of configurations', 'discs/experiment/main_sampling.py: '
      'get_main_config'),
     ('sweep declarations', 'discs/run_configs')],
    ['arguments of the submitted jobs', 'configuration returned by '
     'get_main_config for the arguments of a job'],
    900, 20000,
    'a run launches a shipped or drawn sweep once or twice on a simulated '
    'cluster and compares jobs and configurations with the declaration; '
    'non-trivial: a job reached the sampling program; distinct: event-log '
    'hashes differ',
    ['launcher, all 44 run configurations, every configuration file, command '
     'line and configuration merging of the sampling program, ml_collections '
     'and absl'],
    ['XManager: stub that gives out ids, runs job coroutines in a drawn order '
     'and can turn jobs down', 'path prefix of the container: replaced by the '
     'repository'],
    'Jobs of seeded launches against the declared combinations; '
    'configurations against an independent composition of the files.')

add('P18',
    'Tables and figures of a sweep show each job\'s results as its own',
    'For every sweep whose jobs differ in samplers and in settings common to '
    'the samplers, and for every set of jobs that have saved their results, '
    'whatever jobs have crashed or not started and in whatever order the '
    'directory lists them: the results program makes one table (CO, LM) or '
    'figure per metric (ESS) for each setting, and one figure over steps and '
    'over time (CO curves), or one table of cut ratio and balanceness '
    '(normalised cut); each holds the numbers the finished jobs of that '
    'setting saved (or those of the partition they saved), each under its '
    'own sampler and, in a study of one setting, at its own value of it, with nothing from another job, nothing '
    'lost and nothing where a job has not finished; and its name tells the '
    'setting.',
    ['schedules', 'crash points', 'configurations'],
    'every such sweep, study key, set of finished, crashed and unstarted '
    'jobs, and directory order', SWEEP_WHY,
    ['discs/plot_results/plot_results.py', 'discs/plot_results/plot_utils.py',
     'discs/plot_results/plot_co_through_time.py',
     'discs/common/normcut_evaluator.py',
     'discs/common/experiment_saver.py', 'discs/xm_launcher.py'],
    [('names of job directories', 'discs/xm_launcher.py: make_job'),
     ('reading names and sampler labels', 'discs/plot_results/plot_utils.py: '
      'get_experiment_config, process_keys'),
     ('grouping', 'discs/plot_results/plot_utils.py: get_clusters_key_based, '
      'sort_based_on_samplers'),
     ('tables and bars', 'discs/plot_results/plot_results.py'),
     ('what jobs save', 'discs/common/experiment_saver.py')],
    ['CSV tables', 'bars, error bars, ticks and curves of the saved figures'],
    240, 10000,
    'a run launches a shipped or drawn sweep, lets some jobs finish, crash '
    'while saving, start again or never start, runs the results program and '
    'compares what it made with what the jobs saved; non-trivial: a table or '
    'figure was compared; distinct: event-log hashes differ',
    ['launcher, run configurations, configuration merging, saver, results '
     'programs plot_results, plot_co_through_time and normcut_evaluator, '
     'matplotlib up to rendering'],
    ['XManager: stub', 'sampling: drawn results handed to the real saver',
     'Figure.savefig: records what was drawn, renders nothing',
     'file system: real files in scratch behind a seam that draws directory '
     'orders and crashes'],
    'Tables and figures of seeded sweeps with crashed and unfinished jobs '
    'against what the real saver was given.')
