"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    return d

PROPS = [
P('P01', 'Linear reading delivers every token exactly once',
  'Reading text files in linear order yields, on every pass, the sentences in file order with sentence start and end markers added where missing, empty lines ignored, and each sentence cut into consecutive pieces of at most the maximum sequence length (a leftover piece of a single token is skipped). Every mini-batch holds at most the requested number of sequences, only the last may be smaller, and its word IDs, file indices, plain words and mask describe exactly those tokens: unknown words (and, when requested, out-of-shortlist words) carry the <unk> ID, and everything past a sequence end is masked out. The announced number of mini-batches equals the number delivered, no matter when it is asked for between passes.',
  ['inputs', 'configurations', 'histories'], 'all corpora (lines, empty lines, missing final newline, several files), batch sizes, sequence length limits and sequences of passes and length queries',
  'Unit tests read one or two fixed corpora; dropped or duplicated tokens appear only for particular combinations of line length, length limit, batch size and end of file.',
  ['theanolm/parsing/batchiterator.py', 'theanolm/parsing/linearbatchiterator.py', 'theanolm/parsing/scoringbatchiterator.py', 'theanolm/parsing/functions.py'],
  [('chunking and batching', 'BatchIterator.__next__/_read_sequence'), ('matrix construction', 'BatchIterator._prepare_batch, ScoringBatchIterator._prepare_batch')]),
P('P02', 'A shuffled epoch is exactly the requested sample of the training data',
  'Whatever the random numbers, one epoch of shuffled reading visits each line of a training file exactly once when no sampling fraction is given, round(fraction x lines) distinct lines when the fraction is at most one, and that many lines (repetitions allowed) when it is larger; a new random order is drawn for each epoch and every order is possible. The lines are delivered intact as mini-batches of whole sentences (cut at the maximum sequence length) with the index of the file they came from, for every line ending and file layout.',
  ['inputs', 'schedules', 'configurations'], 'all small training file sets, sampling fractions, batch sizes and outcomes of the random number generator',
  'A test sees one seed; losing or repeating a sentence depends on the drawn order, file boundaries and sampling fraction.',
  ['theanolm/parsing/shufflingbatchiterator.py', 'theanolm/parsing/batchiterator.py', 'theanolm/parsing/functions.py'],
  [('line index', 'SentencePointers, find_sentence_starts'), ('sampling and shuffling', 'ShufflingBatchIterator._reset')]),
P('P03', 'Saved reading position resumes exactly where it was',
  'Saving the position of the shuffled training data reader after any number of mini-batches and restoring it, into the same or a new reader over the same files and whatever the restored reader was doing before, makes it deliver exactly the mini-batches that the saved reader would have delivered next up to the end of that epoch. Saving does not disturb reading, and a state with missing reading position is rejected.',
  ['histories', 'crash_points', 'inputs'], 'all interleavings of reading, saving, and restoring over all save points of an epoch (including mid-sentence and the last mini-batch) and reader states at the time of restoring',
  'Tests restore at one convenient point; loss of sentences shows only for restores at sentence-piece boundaries or epoch ends.',
  ['theanolm/parsing/shufflingbatchiterator.py', 'theanolm/parsing/batchiterator.py'],
  [('state', 'ShufflingBatchIterator.get_state/set_state')]),
P('P04', 'Vocabulary files map every word to one ID and one class',
  'For every vocabulary source (word list, class list, SRILM classes, word counts) each listed word gets one ID in the order of the file, IDs are consecutive and map back to the word, words listed in the same class share a class and others do not, <s>, </s> and <unk> always exist in the shortlist, and extra words become out-of-shortlist words that no class contains. Looking up an unknown word gives <unk>, and class lookups treat out-of-shortlist words as <unk>. Duplicate words and malformed lines are rejected.',
  ['inputs', 'configurations'], 'all small vocabulary files in every format, with and without special tokens and out-of-shortlist words',
  'Order of special tokens, class IDs and shortlist boundary interact; tests use a single file.',
  ['theanolm/vocabulary/vocabulary.py', 'theanolm/vocabulary/wordclass.py', 'theanolm/commands/train.py'],
  [('construction', 'Vocabulary.from_file/from_word_counts'), ('lookup', 'Vocabulary.words_to_ids/get_class_memberships')]),
P('P05', 'Word, class and out-of-shortlist probabilities are normalised relative counts',
  'After computing probabilities from word counts, the unigram probabilities are the relative counts over the vocabulary, class membership probabilities are the relative counts inside each class (uniform when no member occurs) and sum to one in every class, and the probabilities that divide the <unk> mass among out-of-shortlist words are one for shortlist words and sum to one over the rest (when any of them occurs). Special tokens always have nonzero membership probability, and class probabilities are the normalised sums of their members.',
  ['inputs', 'configurations'], 'all small vocabularies, classes, out-of-shortlist words, and word counts including zeros',
  'Zero counts, empty classes and unlisted words are corner cases of a numeric computation that tests sample once.',
  ['theanolm/vocabulary/vocabulary.py', 'theanolm/vocabulary/wordclass.py', 'theanolm/vocabulary/statistics.py'],
  [('probabilities', 'Vocabulary.compute_probs/get_oos_probs/get_class_probs'), ('counting', 'compute_word_counts, BigramStatistics')]),
P('P06', 'A saved model reloads as the same model',
  'Writing a model to a file (first time or over an existing state) and reading it back yields the same vocabulary (words, IDs, classes, all probabilities), the same architecture (inputs, layers, options, connections in order), the same parameters, and therefore identical predictions for every word history. A state that lacks part of the model or belongs to a different architecture is rejected instead of being loaded.',
  ['configurations', 'inputs', 'histories'], 'all vocabularies and architectures of the bounded space (every layer type, fan-in, class structure) and sequences of save and load',
  'Round-trip errors depend on the number of inputs, layers and words and on repeated saving; a single example model cannot show them.',
  ['theanolm/network/network.py', 'theanolm/network/architecture.py', 'theanolm/backend/parameters.py', 'theanolm/vocabulary/vocabulary.py', 'theanolm/network/basiclayer.py'],
  [('state', 'Network.get_state/set_state/from_file, Architecture.get_state/from_state/check_state, Parameters, Vocabulary.get_state/from_state')]),
P('P07', 'Predictions are a probability distribution over the vocabulary',
  'For every network architecture, every word history and every point of the sequence, the probabilities assigned to all possible next words sum to one and none is negative: over classes, over words when classes are used (class times membership probability), and over shortlist and out-of-shortlist words when the <unk> probability is divided among the latter. When <unk> is excluded at inference its probability is zero and the others still sum to one.',
  ['configurations', 'inputs'], 'all architectures of the bounded family and all word histories up to the depth bound',
  'Normalisation must hold for every history; tests evaluate a few.',
  ['theanolm/network/softmaxlayer.py', 'theanolm/network/hsoftmaxlayer.py', 'theanolm/scoring/textscorer.py', 'theanolm/network/network.py'],
  [('output layers', 'SoftmaxLayer, HSoftmaxLayer'), ('scoring', 'TextScorer.score_batch')]),
P('P08', 'A word score depends only on its own sentence, up to the word',
  'With any architecture, the log probability of a word in a sequence is the same whatever other sequences share the mini-batch, wherever the sequence sits in the mini-batch, and however much padding follows it and whatever IDs the padding holds. With any unidirectional architecture, it is the same whatever follows it in the sentence. Dropout has no effect when scoring.',
  ['inputs', 'configurations'], 'all architectures of the bounded family, all pairs of histories with all continuations, all mini-batch compositions within bounds',
  'A leak through padding or neighbours only shows for some composition of lengths.',
  ['theanolm/network/network.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/network/basiclayer.py', 'theanolm/scoring/textscorer.py', 'theanolm/network/dropoutlayer.py'],
  [('masking and recurrence', 'LSTMLayer/GRULayer create_structure, BasicLayer helpers')]),
P('P09', 'Word-by-word evaluation equals whole-sentence evaluation',
  'Feeding a sequence one word at a time while carrying the recurrent state gives the same probabilities as evaluating the whole sequence at once, for every unidirectional architecture, every history, and every way of splitting, combining and reordering the carried states of several sequences. A fresh state is the sentence-initial state of the whole-sequence evaluation.',
  ['histories', 'configurations'], 'all architectures of the bounded family and all trees of histories explored by advancing joint or separate states',
  'State bookkeeping errors need several layers, several sequences and several steps to appear.',
  ['theanolm/network/recurrentstate.py', 'theanolm/network/network.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/network/glulayer.py'],
  [('state', 'RecurrentState, Network.add_recurrent_state')]),
P('P10', 'Text scores, line scores and perplexity agree and honour the exclusion rules',
  'For any text, the per-word log probabilities of batch scoring, the line score, the sequence score and the perplexity describe the same model: a line score is the sum of its word scores, and the perplexity is the exponential of minus the average over counted words, regardless of mini-batch division. Unknown words are left out exactly when <unk> is excluded or when its probability mass has been divided among out-of-shortlist words; out-of-shortlist words are left out when <unk> is excluded, receive their share when its mass has been divided among them, and count as <unk> otherwise; words of zero class membership probability are never counted.',
  ['inputs', 'configurations'], 'all texts up to the bound over shortlist, out-of-shortlist, zero-probability, unknown and special words, for every scorer option and batch division',
  'The exclusion rules combine four word kinds with three options; tests cover a few cells.',
  ['theanolm/scoring/textscorer.py', 'theanolm/commands/score.py'],
  [('scoring', 'TextScorer.score_batch/score_line/score_sequence/compute_perplexity')]),
P('P11', 'Lattice files are read and written faithfully',
  'Reading an SLF or Kaldi lattice gives exactly the nodes, links, words, times, acoustic and language scores (converted from the file\'s logarithm base or linear scale), scale factors, start and final nodes that the file describes, whether words are attached to nodes or links and whichever field names are used. Writing a lattice and reading it back gives an equivalent lattice, and inconsistent files are rejected.',
  ['inputs'], 'all lattices up to the bound and all spellings of their fields',
  'Field variants and topology combine; fixtures show one lattice each.',
  ['theanolm/scoring/slflattice.py', 'theanolm/scoring/kaldilattice.py', 'theanolm/scoring/lattice.py'],
  [('parsers', 'SLFLattice, KaldiLattice'), ('writers', 'Lattice.write_slf/write_kaldi')]),
P('P12', 'Lattice nodes are visited in topological order and cycles are rejected',
  'For every acyclic lattice the processing order contains each reachable node exactly once, after all of its predecessors, preferring the node with the earliest time among those that are ready. A cyclic lattice is reported as an error instead of looping or giving an order.',
  ['inputs'], 'all directed graphs (with parallel links) and node times up to the bound',
  'Ordering errors depend on graph shape and times; tests use two graphs.',
  ['theanolm/scoring/lattice.py'],
  [('ordering', 'Lattice.sorted_nodes')]),
P('P13', 'Unpruned decoding finds every hypothesis with its exact score',
  'Without pruning, decoding a lattice returns exactly one hypothesis for every distinct word sequence from the start to a final node, best first, carrying the best-scoring path of that sequence (with linear interpolation, which does not preserve the order of partial sums: one of its paths). Its acoustic score is the sum over the path, its language model score the interpolation (log-linear or linear) of the lattice scores and the neural network scores of the words and the sentence end given the preceding words, scaled and with one word insertion penalty per word and sentence end; the network score is the one text scoring would give, including class membership and the chosen treatment of unknown and out-of-shortlist words.',
  ['inputs', 'configurations'], 'all lattices of the bounded family (including null links, parallel links, several final nodes, unknown words) under every scoring option',
  'The number of paths and options is exponential; tests compare one lattice at two settings.',
  ['theanolm/scoring/latticedecoder.py', 'theanolm/backend/probfunctions.py', 'theanolm/commands/decode.py'],
  [('token passing', 'LatticeDecoder.decode/_propagate/_append_word/_handle_unk_logprob'), ('scores', 'LatticeDecoder.Token.recompute_total')]),
P('P14', 'Pruning and recombination only drop hypotheses the limits allow',
  'With a beam, a token limit or a recombination order, decoding never invents or re-scores hypotheses: every result is a path of the lattice with its exact score, results are sorted, no word sequence is returned twice, and a lattice with a path never fails. At each node, recombination of n words keeps the best partial hypothesis of those that share their last n words (sentence start and end included), a beam drops exactly those that are at least the beam worse than the best one that has reached this or a later point in time, except the best one of the node, and a token limit keeps exactly the best so many. Limits generous enough to cover all hypotheses change nothing; relative pruning never goes below its minimum limits and keeps at least one hypothesis; the options of the decode command reach the decoder.',
  ['inputs', 'configurations'], 'all lattices of the bounded family under all values of beam, token limit, recombination order and relative pruning',
  'Pruning errors are silent (a worse transcript) and depend on score order at particular nodes.',
  ['theanolm/scoring/latticedecoder.py', 'theanolm/commands/decode.py'],
  [('pruning', 'LatticeDecoder._prune'), ('recombination', 'LatticeDecoder._sorted_recombined_tokens')]),
P('P15', 'A rescored lattice contains the decoded hypotheses with their scores',
  'Rescoring a determinised lattice yields an acyclic lattice with one start and one final node in which every decoded hypothesis is a path, every path is a word sequence of the original lattice, and no path occurs twice. Besides the decoded hypotheses the paths are exactly those obtained by exchanging the beginning of a path for a hypothesis that recombination dropped in its favour (at the same node, or at the end of the sentence). Each path carries the acoustic score and alignment labels of the original path in order, and its total language score is the original lattice score plus the network score of the hypothesis (after a point of recombination, the network score of the words that follow is that of the hypothesis that was kept).',
  ['inputs', 'configurations'], 'all determinised lattices of the bounded family and all recombination orders and limits',
  'Recombined branches are re-attached; correctness depends on the global shape of the lattice.',
  ['theanolm/scoring/rescoredlattice.py', 'theanolm/commands/decode.py'],
  [('construction', 'RescoredLattice')]),
P('P16', 'Decoding jobs partition the lattice set',
  'For every number of jobs, every lattice named on the command line or in the list file is processed by exactly one job, in order, blank entries are ignored, and each lattice of a Kaldi archive is delivered exactly once with its own lines. Word IDs in Kaldi lattices are translated by the given word list, and invalid job numbers or formats are rejected.',
  ['inputs', 'configurations'], 'all lattice lists, archive layouts (blank lines, missing final blank line) and job counts within bounds',
  'Losing or duplicating one utterance of a batch shows only for certain list lengths and layouts.',
  ['theanolm/scoring/latticebatch.py', 'theanolm/scoring/kaldilattice.py'],
  [('job split', 'LatticeBatch')]),
P('P17', 'The model file always holds the best validated model',
  'At every moment of a training run the saved model is the one from the middle of the validation that produced the lowest cost accepted so far (or, without validation data, the model at the end of the last epoch), together with the matching optimizer state, reading position and cost history. A validation is accepted only when its cost, the median (or the given statistic) of its samples, improves the best cost by at least 0.1 percent.',
  ['histories', 'schedules', 'configurations'], 'all sequences of validation perplexities, validation frequencies, sample counts, patience values and epoch lengths within bounds',
  'The outcome depends on the whole history of perplexities; tests play one history.',
  ['theanolm/training/trainer.py'],
  [('candidate', 'Trainer._validate/_set_candidate_state/_has_improved')]),
P('P18', 'Annealing restores the best model and training stops by its criterion',
  'When more validations than the patience allows pass without improvement, training returns to the saved best model (parameters, optimizer state, reading position, epoch and update counts) and continues with half of the learning rate in use at that moment; otherwise nothing is rolled back and the learning rate is unchanged. Training ends exactly when the selected criterion says so: after the maximum number of epochs, when a learning rate decrease brought no better model, or when the learning rate has been decreased more often than allowed, but never before the minimum number of epochs.',
  ['histories', 'configurations'], 'all perplexity histories, stopping criteria, patience, minimum and maximum epoch counts and annealing limits within bounds',
  'Interaction of rollback, epoch counting and stopping is a state machine that tests drive along one path.',
  ['theanolm/training/trainer.py', 'theanolm/training/stoppers.py'],
  [('annealing', 'Trainer._decrease_learning_rate/_reset_state'), ('stopping', 'BasicStopper, NoImprovementStopper, AnnealingCountStopper')]),
P('P19', 'Validation happens evenly the requested number of times per epoch',
  'In an epoch of any length, validation completes exactly the requested number of times (when the epoch has room for that many validations of the requested sample count), evenly spaced with the last one at the end of the epoch, and each uses the requested number of consecutive samples ending at the validation point.',
  ['configurations', 'histories'], 'all epoch lengths, validation frequencies and sample counts within bounds',
  'Rounding of the schedule depends on divisibility; tests check one combination.',
  ['theanolm/training/trainer.py', 'wordclasses/functions.py'],
  [('schedule', 'Trainer._is_scheduled, is_scheduled')]),
P('P20', 'Interrupted training resumes as if it had not been interrupted',
  'A training run that is killed at any point and restarted from its model file continues exactly like an uninterrupted run that is at the saved state: same parameters, optimizer state, learning rate, epoch and update counts, cost history and remaining mini-batches of the epoch. Saving state does not change the course of training.',
  ['crash_points', 'histories', 'configurations'], 'all interruption points of a training run, all optimizers, validation on and off',
  'The forgotten piece of state matters only for particular optimizers and restart points.',
  ['theanolm/training/trainer.py', 'theanolm/training/basicoptimizer.py', 'theanolm/backend/parameters.py', 'theanolm/parsing/shufflingbatchiterator.py', 'theanolm/network/network.py'],
  [('state', 'Trainer.get_state/_reset_state/initialize, BasicOptimizer.get_state/set_state')]),
P('P21', 'A training update reflects exactly the unmasked, included target words',
  'The training cost of a mini-batch is the average negative log probability of its real target words (plus the configured regularisation); padding, and <unk> targets when excluded, influence neither the cost nor the updated parameters, and the order of sequences in the mini-batch and how much padding they carry do not matter. Per-file weights scale the update of a mini-batch from that file, a weight of one changes nothing, and the norm of the parameter change never exceeds the learning rate times the maximum norm where a limit is set.',
  ['inputs', 'configurations'], 'all mini-batches up to the bound, all optimizers, cost options, masks, file assignments and weights',
  'Leakage through padding or wrong normalisation is numeric and silent.',
  ['theanolm/training/cost.py', 'theanolm/training/basicoptimizer.py', 'theanolm/network/network.py'],
  [('cost', 'Cost.get_tensor'), ('update', 'BasicOptimizer.update_minibatch/_normalize')]),
P('P22', 'Every optimizer follows its update rule and restores its state',
  'For every sequence of mini-batches, each optimizer changes the parameters and its own state exactly as its published update rule prescribes for the gradients of the cost, including learning rate, momentum, decay and bias correction terms. Restoring the optimizer and network state saved after any update makes all later updates identical.',
  ['histories', 'configurations'], 'all optimizers, hyperparameter grids and update sequences up to the bound with save/restore at every point',
  'An error in the accumulation shows only after several updates; tests do one.',
  ['theanolm/training/basicoptimizer.py', 'theanolm/training/sgdoptimizer.py', 'theanolm/training/nesterovoptimizer.py', 'theanolm/training/adagradoptimizer.py', 'theanolm/training/adadeltaoptimizer.py', 'theanolm/training/rmspropsgdoptimizer.py', 'theanolm/training/rmspropnesterovoptimizer.py', 'theanolm/training/adamoptimizer.py'],
  [('rules', '_get_param_updates of each optimizer')]),
P('P23', 'Word class exchange never lowers the likelihood and always makes the best move',
  'Offering a word to the class optimizer moves it exactly when some other regular class raises the class bigram log likelihood of the corpus, and then to the class that raises it most; special tokens and the only word of a class never move. After any sequence of moves, the reported log likelihood, word classes and membership probabilities equal those computed from scratch from the corpus and the current classes, and both implementations agree.',
  ['histories', 'inputs'], 'all small corpora, initial classes, and sequences of offered words',
  'Incremental count errors accumulate over moves and need specific bigrams (self-bigrams, shared neighbours).',
  ['wordclasses/bigramoptimizer.py', 'wordclasses/numpybigramoptimizer.py', 'wordclasses/theanobigramoptimizer.py', 'theanolm/vocabulary/statistics.py'],
  [('exchange', 'BigramOptimizer.move_to_best_class'), ('counts', '_move/_evaluate of both optimizers')]),
P('P24', 'The class tool terminates and writes classes that load as optimised',
  'Running the class tool on a corpus ends with classes from which no single word move improves the likelihood, and the output lists every vocabulary word exactly once with its final class. Reading the output back (either format) gives the same partition and, for the probability format, the same membership probabilities; a vocabulary given in advance restricts and initialises the classes.',
  ['inputs', 'configurations'], 'all small corpora, class counts, vocabulary and output formats, both methods',
  'Termination and completeness depend on the whole optimisation history.',
  ['wordclasses/wctool.py', 'wordclasses/bigramoptimizer.py', 'theanolm/vocabulary/vocabulary.py'],
  [('tool', 'wctool.main/save')]),
P('P25', 'Noise sampling draws valid classes with the probabilities used by the cost',
  'For every noise distribution and sharing mode, sampled noise classes are valid class IDs, the distribution\'s probabilities sum to one over the classes and equal the true sampling probabilities, and the sampled classes are scored with their own output weights at every time step and sequence. For those samples the noise-contrastive cost is the mean over the included words of -log h(target) - sum log(1 - h(noise)) with h = p / (p + q), and the BlackOut cost that of -log r(target) - sum log(1 - r(noise)) with r = (p/q) / (sum of p/q over the target and its noise); both stay finite for classes without prior probability.',
  ['inputs', 'configurations', 'schedules'], 'all class counts, distributions, sharing modes, mini-batch shapes and random outcomes on a complete grid',
  'Off-by-one in the support or broadcasting between time and sequence axes is invisible in a statistical test.',
  ['theanolm/backend/classdistribution.py', 'theanolm/network/samplingoutputlayer.py', 'theanolm/training/cost.py', 'theanolm/network/network.py'],
  [('sampling', 'UniformDistribution, LogUniformDistribution, MultinomialDistribution'), ('costs', 'NCECost, BlackoutCost')]),
P('P26', 'Generated text follows the model',
  'Text generation returns the requested number of sequences, each starting with the sentence start followed by the seed words (unknown ones as <unk>) and then sampled words, length - 1 of them. Whatever the random numbers, each sampled word belongs to a class drawn from the network distribution given exactly the preceding words of that sequence, and is drawn from that class with its membership probability. The sample command prints each sequence up to its first sentence end.',
  ['schedules', 'inputs', 'configurations'], 'all random outcomes (one per class at each step) up to the length bound, all seeds and sequence counts',
  'A wrong conditioning still produces plausible text; only enumerating outcomes shows the conditional distribution.',
  ['theanolm/textsampler.py', 'theanolm/vocabulary/wordclass.py'],
  [('generation', 'TextSampler.generate'), ('class sampling', 'WordClass.sample')]),
P('P27', 'Score reports add up',
  'The score report lists every word of the input in order with its own log probability, whatever subword scheme and logarithm base, and its totals (words, sentences, excluded words, perplexities) are consistent with the listed values: merging subwords into words adds their log probabilities, preserves the total, keeps word boundaries and sentence ends, and a word with an excluded part is excluded. Utterance scores give one line per non-empty input line.',
  ['inputs', 'configurations'], 'all texts up to the bound for each subword marking, report format, option and log base',
  'Subword boundaries and exclusions combine in ways a single example does not.',
  ['theanolm/commands/score.py'],
  [('report', 'score._score_text/_merge_subwords/_write_word_scores/_score_utterances')]),
P('P28', 'Probability interpolation is exact over the whole range',
  'Linear interpolation of two log probabilities gives the logarithm of the weighted sum of the probabilities, and log-linear interpolation the weighted sum of the logarithms, for every weight from zero to one and every pair of values including minus infinity and values whose probabilities underflow. A component of zero weight has no effect, whatever its value, and the result lies between the inputs for weights that sum to one.',
  ['inputs'], 'all pairs from a complete grid of magnitudes (including -inf and underflow boundaries) and weights',
  'The underflow path is entered only at extreme magnitudes.',
  ['theanolm/backend/probfunctions.py'],
  [('interpolation', 'interpolate_linear/interpolate_loglinear')]),
P('P29', 'Every layer type computes its defined function',
  'For every layer type (projection, fully connected, addition, LSTM, GRU, their bidirectional forms, highway, gated linear unit, dropout at inference, softmax, hierarchical softmax) the network output for any input sequence equals the published definition of the layer evaluated with the saved parameters, whatever the number of inputs, activation, sizes and masks.',
  ['configurations', 'inputs'], 'all layer types with all option values of the bounded family and all input sequences up to the bound',
  'A changed gate or transposed weight keeps all shapes and normalisation intact.',
  ['theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py', 'theanolm/network/highwaylayer.py', 'theanolm/network/glulayer.py', 'theanolm/network/bidirectionallayer.py', 'theanolm/network/hsoftmaxlayer.py', 'theanolm/network/additionlayer.py', 'theanolm/network/projectionlayer.py', 'theanolm/network/fullyconnectedlayer.py', 'theanolm/network/dropoutlayer.py'],
  [('layers', 'create_structure of each layer')]),
P('P30', 'Architecture descriptions build the described network',
  'An architecture description yields exactly the inputs and layers it lists, in order, with the given types, sizes, activations, devices and connections (several inputs are concatenated in the given order); unspecified sizes and activations take their defaults (the total input size, or the first input for addition layers; tanh), comments, blank lines and the order of fields do not matter, and the last layer is the output layer, sized by the vocabulary. Descriptions with unknown elements, malformed fields, missing types, names or inputs, unknown layer, input or activation types, impossible sizes, or references to elements that are not defined earlier are rejected.',
  ['inputs', 'configurations'], 'all descriptions up to the bound over the description grammar',
  'Field order, repetition and defaults combine; fixtures show a handful of descriptions.',
  ['theanolm/network/architecture.py', 'theanolm/network/network.py', 'theanolm/network/basiclayer.py', 'theanolm/network/networkinput.py'],
  [('parser', 'Architecture.from_description'), ('construction', 'Network.__init__, create_layer')]),
P('P31', 'Dropout drops every unit independently, only during training',
  'During training, each input unit of a dropout layer is kept with probability one minus the dropout rate (0.5 by default, at most 0.9999), independently of every other unit, time step, sequence and dropout layer, and a kept unit is divided by that probability; the cost and the parameter update use the same dropped units. Outside training (scoring, validation, decoding, word-by-word evaluation) the layer passes its input through unchanged, whatever the random numbers.',
  ['inputs', 'histories'], 'all sets of dropped units and all mini-batch shapes up to the bound',
  'A wrong or shared mask only changes the distribution of training results; tests cannot fix the random draws.',
  ['theanolm/network/dropoutlayer.py', 'theanolm/network/network.py'],
  [('mask', 'DropoutLayer.create_structure'), ('mode', 'Network.is_training')]),
P('P32', 'The train command trains the model that its options describe',
  'For every combination of options, theanolm train writes the model that results from applying the selected optimization method with the given hyperparameters to the gradients of the selected cost (with its regularisation, <unk> exclusion, noise distribution, sample number and dampening, gradient normalisation and file weights) for the selected number of mini-batches and epochs, under the selected validation, patience and stopping rules, starting from an output bias that equals the log class frequencies; it stores the vocabulary that the vocabulary options and training data define, reports the validation perplexity of the saved model, and continuing from the model file continues that computation.',
  ['configurations', 'histories'], 'all one-option and two-option variations of the command up to the bound',
  'An option that is dropped or swapped on its way from the command line gives a slightly different but plausible model.',
  ['theanolm/commands/train.py', 'theanolm/training/trainer.py', 'theanolm/training/cost.py', 'theanolm/vocabulary/vocabulary.py'],
  [('wiring', 'train'), ('vocabulary', '_read_vocabulary')]),
P('P33', 'The decode command writes what its options describe',
  'For every combination of options, theanolm decode writes, for each lattice in order under its utterance name (its number when it has none), the n best hypotheses that decoding with the given interpolation weight and kind, LM scale and word insertion penalty (those of the lattice file when not given), treatment of unknown words, pruning limits and recombination order gives, in the selected format with scores in the selected logarithm base; or the rescored lattice of those hypotheses in SLF or Kaldi format, which records the LM scale and word insertion penalty that were given. Kaldi input or output without a word list is rejected.',
  ['configurations', 'inputs'], 'all one-option and two-option variations of the command on a family of lattices',
  'An option that is dropped, swapped or converted twice on its way from the command line gives plausible but wrong transcripts.',
  ['theanolm/commands/decode.py', 'theanolm/scoring/latticedecoder.py', 'theanolm/scoring/latticebatch.py', 'theanolm/scoring/lattice.py'],
  [('wiring', 'decode'), ('output', 'format_token, RescoredLattice')]),
P('P34', 'A command that could not do its work says so',
  'For every combination of faults in what they are given (missing, unreadable, empty, truncated, wrongly compressed, wrongly encoded or malformed model, text, lattice, vocabulary, symbol and architecture files; files that contradict each other; invalid options), the train, score, decode, sample and wctool commands end with a nonzero exit status, and train leaves the contents of an existing model file as they were; without faults the exit status is zero. Running theanolm without a command prints how it is used; the version command prints its version.',
  ['fault_sequences', 'inputs'], 'all single faults and pairs of faults of different arguments from the bounded families',
  'Each fault is discovered in another place; a handler that reports and continues looks like success to a script that runs the command.',
  ['bin/theanolm', 'theanolm/commands/train.py', 'theanolm/commands/score.py', 'theanolm/commands/decode.py', 'theanolm/commands/sample.py', 'theanolm/backend/filetypes.py'],
  [('exit status', 'main'), ('handlers', 'exception_handler')]),
P('P35', 'Options for logging, debugging and profiling do not change what a command does',
  'With every combination of the options that only observe a command (--debug, --profile, --print-graph, --log-level, --log-file, --log-interval) train, score, decode, sample and wctool succeed when they succeed without the options, and with the same random seed write exactly the same model (parameters, optimizer and trainer state), scores, hypotheses, lattices, sentences and classes; training that is continued with other such options continues identically.',
  ['configurations', 'inputs', 'histories'], 'all option combinations for one network; each option and all together for every network type, cost, noise distribution, method and output',
  'The options switch on rarely executed code in every part of the system; one that fails, consumes random numbers or changes a computation shows only with the right combination.',
  ['theanolm/commands/train.py', 'theanolm/commands/score.py', 'theanolm/commands/decode.py', 'theanolm/commands/sample.py', 'theanolm/network/network.py', 'theanolm/training/trainer.py', 'wordclasses/wctool.py'],
  [('options', 'train'), ('log messages', 'Trainer._log_update')]),
P('P36', 'Single precision gives the results of double precision up to rounding',
  'When Theano is configured for single precision (floatX=float32), every command succeeds when it does in double precision, and with the same random seed writes the same results up to rounding: model parameters and optimizer state after training with every kind of network, cost, noise distribution, optimization method and vocabulary, word and utterance scores, perplexities, decoded hypotheses and rescored lattices, generated text and word classes. A model trained in single precision can be trained further and used in either precision.',
  ['configurations', 'inputs', 'histories'], 'every network type, cost, method, output; training and scoring histories over both precisions',
  'Single precision is what GPUs are used with; a value of the wrong type fails or changes the computation in one rarely used combination only, and tests run in double precision.',
  ['theanolm/backend/parameters.py', 'theanolm/backend/probfunctions.py', 'theanolm/network/basiclayer.py', 'theanolm/training/basicoptimizer.py', 'theanolm/scoring/textscorer.py', 'theanolm/scoring/latticedecoder.py', 'theanolm/textsampler.py'],
  [('probability type', 'logprob_type'), ('casts', 'TextScorer'), ('parameters', 'Parameters.add')]),
P('P37', 'Files mean the same however they are supplied',
  'Whether the inputs are plain files, compressed files (of one or several members) or come from standard input where a command accepts it, whether the output goes to a plain file, a compressed file or standard output, whatever the locale, the working directory and the names of the files, train, score, decode, sample and wctool produce exactly the same models, scores, hypotheses, lattices, sentences and classes from the same contents, which may contain any letters (in words, class, layer and utterance names). The model file is all that is needed to use a model: it can be moved elsewhere without the files it was trained from, used and (with the training text) trained further.',
  ['configurations', 'inputs', 'histories'], 'all combinations of kinds of inputs, destinations and locales for every command; histories that move the model',
  'Each file is opened in its own place; a missing encoding or a suffix test that is too loose shows only in another locale or directory, and tests run in one.',
  ['theanolm/backend/filetypes.py', 'theanolm/commands/train.py', 'theanolm/network/architecture.py', 'theanolm/scoring/latticebatch.py', 'wordclasses/wctool.py'],
  [('opening', 'TextFileType.__call__'), ('vocabulary', '_read_vocabulary'), ('class output', 'save')]),
]

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as handle:
        for prop in PROPS:
            handle.write(json.dumps(prop) + '\n')
