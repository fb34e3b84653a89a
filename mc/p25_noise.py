"""P25: noise distributions, noise sampling and sampling-based costs, on complete grids of random numbers."""

import itertools

import numpy

from mc import netlib, nnref, supply
from mc.core import expect

PROPERTY = 'P25'
TITLE = 'Noise sampling draws valid classes with the probabilities used by the cost'
MUST_COVER = ('uniform', 'log-uniform', 'unigram', 'extreme', 'without_replacement', 'every_class_every_place', 'per_word', 'per_step',
              'per_batch', 'nce', 'blackout', 'padding', 'excluded', 'dampened', 'zero_prior', 'several_steps_and_sequences', 'classes',
              'padding_zero_prior', 'unknown_target')
ASSUMPTIONS = ['random numbers: MRG_RandomStreams.uniform (on which its other draws are built) is a stand-in that returns the '
               'values that the exploration chooses; float64',
               'noise-contrastive estimation: log h(target) + sum log(1 - h(noise)), h = p / (p + q); BlackOut: log (p/q of the target / '
               'sum) + sum log(1 - p/q of the noise / sum), sum over the target and its noise; p = exp(preactivation)',
               'a sample without replacement follows the noise distribution in its first draw and the remaining distribution in '
               'the next ones; numerical stability term 1e-12 in the costs (an argument of the cost)',
               'output layers other than softmax do not support sampling']
BOUNDS = {
    'quick': 'distributions: every support 1-40, 6 prior vectors, grid of 600 random numbers, all pairs of a 60 x 60 grid without '
             'replacement; sampling: 3 networks x 3 noise types x 3 sharing modes x 5 mini-batch shapes x 1-3 samples, 30 rotations of '
             'a grid so that every place takes every class; both costs on each',
    'thorough': 'supports 1-300, grids of 5000 and 200 x 200, 120 rotations, 6 networks, 9 shapes, up to 4 samples',
}
CLOSE = 1e-8
EPSILON = 1e-12
PRIORS = [[1.0], [0.5, 0.5], [0.7, 0.3], [0.1, 0.2, 0.3, 0.4], [0.0, 0.5, 0.0, 0.25, 0.25], [0.05, 0.0, 0.6, 0.01, 0.3, 0.04]]
NETS = [('plain', 'small'), ('gru', 'classes'), ('lstm', 'words')]
MORE_NETS = [('plain', 'words'), ('lstm', 'classes'), ('gru', 'small')]
# mini-batches: the lengths of their sequences
SHAPES = [[2], [3], [2, 2], [4, 2], [3, 4, 2], ]
MORE_SHAPES = [[5], [2, 5, 3], [2, 3, 2, 2], [6, 6]]


def units(tier, seed):
    deep = tier == 'thorough'
    result = []
    supports = list(range(1, 301 if deep else 41))
    for part in range(8):
        result.append({'kind': 'support', 'supports': supports[part::8], 'grid': 5000 if deep else 600})
    for prior in PRIORS:
        result.append({'kind': 'prior', 'prior': prior, 'grid': 5000 if deep else 600, 'pairs': 200 if deep else 60})
    for net in NETS + (MORE_NETS if deep else []):
        for noise in ('uniform', 'log-uniform', 'unigram'):
            for sharing in (None, 'seq', 'batch'):
                for exclude in (False, True):
                    result.append({'kind': 'network', 'net': list(net), 'noise': noise, 'sharing': sharing, 'exclude': exclude,
                                   'shapes': SHAPES + (MORE_SHAPES if deep else []), 'samples': 4 if deep else 3,
                                   'rotations': 120 if deep else 30})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'support':
        for support, type_ in itertools.product(unit['supports'], ('uniform', 'log-uniform')):
            ctx.run({'kind': 'distribution', 'type': type_, 'support': support, 'prior': None, 'grid': unit['grid'], 'pairs': 0})
    elif unit['kind'] == 'prior':
        ctx.run({'kind': 'distribution', 'type': 'unigram', 'support': len(unit['prior']), 'prior': unit['prior'],
                 'grid': unit['grid'], 'pairs': unit['pairs']})
    else:
        for dampening in (0.5, 1.0, 0.0) if unit['noise'] == 'unigram' else (0.5,):
            for zero in (False, True) if unit['noise'] == 'unigram' and dampening else (False,):
                for shape, k in itertools.product(unit['shapes'], range(1, unit['samples'] + 1)):
                    ctx.run({'kind': 'network', 'net': unit['net'], 'noise': unit['noise'], 'sharing': unit['sharing'],
                             'exclude': unit['exclude'], 'dampening': dampening, 'zero': zero, 'lengths': shape, 'samples': k,
                             'rotations': unit['rotations']})


def law(type_, support, prior):
    if type_ == 'uniform':
        return numpy.full(support, 1.0 / support)
    if type_ == 'log-uniform':
        ids = numpy.arange(support)
        return numpy.log((ids + 2.0) / (ids + 1.0)) / numpy.log(support + 1.0)
    return numpy.asarray(prior) / sum(prior)


def run_case(case, ctx):
    supply.install()
    if case['kind'] == 'distribution':
        run_distribution(case, ctx)
    else:
        run_network(case, ctx)


def run_distribution(case, ctx):
    import theano
    from theano import tensor
    from theano.sandbox.rng_mrg import MRG_RandomStreams
    from theanolm.backend import UniformDistribution, LogUniformDistribution, MultinomialDistribution
    type_, support = case['type'], case['support']
    random = MRG_RandomStreams(1)
    if type_ == 'uniform':
        distribution = UniformDistribution(random, support)
    elif type_ == 'log-uniform':
        distribution = LogUniformDistribution(random, support)
    else:
        distribution = MultinomialDistribution(random, theano.shared(numpy.asarray(case['prior'])))
    what = '{} noise over {} classes {}'.format(type_, support, case['prior'] or '')
    q = law(type_, support, case['prior'])
    ids = tensor.lvector('ids')
    every = numpy.arange(support)
    probs = distribution.probs(ids)
    probs = theano.function([ids], tensor.as_tensor_variable(probs), on_unused_input='ignore')(every)
    probs = numpy.broadcast_to(probs, (support,))
    expect(numpy.allclose(probs, q, rtol=0, atol=CLOSE), 'probabilities are {} instead of {}: {}', probs, q, what)
    expect(abs(probs.sum() - 1) < CLOSE, 'probabilities sum to {}: {}', probs.sum(), what)

    size, count = tensor.lscalar('size'), tensor.lscalar('count')
    draw = theano.function([size, count], distribution.sample(size, count))

    def sample(values, n, k):
        supply.source = supply.Values(values)
        got = draw(n, k)
        ctx.step()
        expect(got.shape == (n, k), 'samples have shape {} instead of {}: {}', got.shape, (n, k), what)
        expect(numpy.issubdtype(got.dtype, numpy.integer) and got.min() >= 0 and got.max() < support,
               'samples {}-{}: {}', got.min(), got.max(), what)
        return got

    n = case['grid']
    counts = numpy.bincount(sample(supply.grid(n), n, 1)[:, 0], minlength=support)
    expect(numpy.abs(counts - n * q).max() <= 1.01, '{} random numbers give the classes {} instead of {}: {}', n, counts, n * q, what)
    expect((counts[q == 0] == 0).all(), 'classes that have probability zero are sampled: {}', what)
    for u in (0.0, 2.0 ** -31, 1 - 2.0 ** -31, 1 - 2.0 ** -24, 0.5):
        got = sample([u], 2, 1)
        expect((q[got] > 0).all(), '{} gives a class that has probability zero: {}', u, what)
    ctx.count('extreme')
    ctx.count(type_)
    ctx.count('zero_prior', (q == 0).any())
    usable = int((q > 0).sum())
    if type_ == 'unigram' and usable > 1:
        m = case['pairs']
        pairs = numpy.array(list(itertools.product(supply.grid(m), repeat=2)))
        # the order in which the numbers are used is not specified: each row of a sample has to use two of its own
        got = [sample(pair, 1, 2)[0] for pair in pairs]
        table = numpy.zeros((support, support))
        for a, b in got:
            table[a, b] += 1
        expect((numpy.diag(table) == 0).all(), 'a class is sampled twice: {}', what)
        for a in range(support):
            expect(abs(table[a].sum() - m * m * q[a]) <= 1.01 * m, 'class {} is sampled first {} times instead of {}: {}', a,
                   table[a].sum(), m * m * q[a], what)
            for b in range(support):
                want = 0 if a == b or q[a] == 0 else table[a].sum() * q[b] / (1 - q[a])
                expect(abs(table[a, b] - want) <= 1.01 * max(1, table[a].sum() / m),
                       'classes {} and {} are sampled {} times instead of {}: {}', a, b, table[a, b], want, what)
        ctx.count('without_replacement')
    elif type_ != 'unigram':
        # the samples of a row and of different rows have their own random numbers
        for rows, k in ((2, 3), (3, 2)):
            values = supply.grid(rows * k)
            got = sample(values, rows, k)
            one = sample(values, rows * k, 1)
            expect(sorted(got.flat) == sorted(one.flat),
                   'samples {} for the random numbers {}: {}', got.tolist(), values, what)
    ctx.outcome(what, counts.tolist())
    ctx.state(what)


def run_network(case, ctx):
    import theano
    from theanolm.training.cost import NCECost, BlackoutCost
    arch, vocab_kind = case['net']
    vocab = netlib.vocabulary(vocab_kind)
    support = vocab.num_classes()
    lengths, k = case['lengths'], case['samples']
    what = '{} {} noise {} sharing {} {} samples, sequences {}{}'.format(
        '/'.join(case['net']), case['noise'], case['dampening'], case['sharing'], k, lengths, ' excluding <unk>' if case['exclude'] else '')
    prior = numpy.arange(2.0, 2.0 + support)
    prior[support // 2] = 40.0
    if case['zero']:
        # the class of <unk>, which is used for padding, does not occur
        prior[vocab.word_id_to_class_id[vocab.word_to_id['<unk>']]] = 0.0
        prior[0] = 0.0 if support > 5 else 1.0
        what += ' zero'
    prior /= prior.sum()
    q = prior ** case['dampening']
    if case['noise'] != 'unigram' or case['dampening'] == 0:
        q = law('uniform' if case['noise'] == 'unigram' else case['noise'], support, None)
    q = q / q.sum()
    steps = max(lengths) - 1
    drawn = {None: k, 'seq': steps * k, 'batch': k}[case['sharing']]
    if case['noise'] == 'unigram' and case['dampening'] and drawn > (q > 0).sum():
        ctx.count('too_many_samples')
        return

    def make():
        from theanolm.network import Network
        net = Network(netlib.architecture(arch), vocab, class_prior_probs=prior, mode=Network.Mode(minibatch=True))
        netlib.set_params(net, netlib.param_values(net, 1, 0.8))
        net.set_sampling(case['noise'], case['dampening'], case['sharing'])
        exclude = vocab.word_to_id['<unk>'] if case['exclude'] else None
        sample, logprobs = net.noise_sample()
        outputs = [sample, logprobs, net.unnormalized_logprobs()]
        for cls in (NCECost, BlackoutCost):
            outputs.extend(cls(net, exclude_id=exclude, epsilon=EPSILON).get_tensor())
        return theano.function([net.input_word_ids, net.input_class_ids, net.target_word_ids, net.target_class_ids, net.mask,
                                net.num_noise_samples], outputs, givens=[(net.is_training, numpy.int8(1))],
                               on_unused_input='ignore'), net
    function, net = netlib.cached(('p25', arch, vocab_kind, case['noise'], case['dampening'], case['sharing'], case['exclude'],
                                   case['zero']), make)
    # words that occur, in an order that depends on the sequence
    usable = [w for w in range(vocab.num_shortlist_words()) if q[vocab.word_id_to_class_id[w]] > 0]
    sequences = [[usable[(3 * i + 2 * t) % len(usable)] for t in range(length)] for i, length in enumerate(lengths)]
    unk = vocab.word_to_id['<unk>']
    if unk in usable and lengths[0] > 2:
        sequences[0][1] = unk
    words, mask = netlib.matrix(sequences, pad=unk)
    classes = vocab.word_id_to_class_id[words]
    inputs, targets, mask = words[:-1], words[1:], mask[1:]
    target_classes = classes[1:]
    T, N = inputs.shape
    _, everything = nnref.evaluate(netlib.description(arch), netlib.param_values(net, 1, 0.8), inputs, classes[:-1], mask, support,
                                   want='all')
    preact = everything['preact']
    places = {None: T * N * k, 'seq': T * k, 'batch': k}[case['sharing']]
    included = (mask != 0) & ((targets != unk) | (not case['exclude']))
    rotations = case['rotations']
    seen = numpy.zeros((T, N, k, support))
    expect(included.any(), 'harness: no words')
    grid = supply.grid(rotations)
    for rotation in range(rotations):
        supply.source = supply.Values(grid[(rotation + 7 * numpy.arange(max(places, 1))) % rotations])
        sample, logprobs, target_logprobs, nce, nce_words, blackout, blackout_words = function(
            inputs, classes[:-1], targets, target_classes, mask, k)
        ctx.step()
        sample = numpy.asarray(sample)
        wanted = {None: (T, N, k), 'seq': (T, 1, k), 'batch': (1, 1, k)}[case['sharing']]
        expect(sample.shape == wanted, 'samples have the shape {} instead of {}: {}', sample.shape, wanted, what)
        expect(sample.min() >= 0 and sample.max() < support, 'samples {}-{}: {}', sample.min(), sample.max(), what)
        sample = numpy.broadcast_to(sample, (T, N, k))
        expect((q[sample] > 0).all(), 'a class that has probability zero is sampled: {}', what)
        own = numpy.take_along_axis(preact, sample, axis=2)
        expect(numpy.allclose(numpy.broadcast_to(logprobs, (T, N, k))[mask != 0], own[mask != 0], rtol=0, atol=CLOSE),
               'scores of the noise are {} instead of {}: {}', numpy.asarray(logprobs).tolist(), own.tolist(), what)
        target = numpy.take_along_axis(preact, target_classes[:, :, None], axis=2)[:, :, 0]
        expect(numpy.allclose(target_logprobs[mask != 0], target[mask != 0], rtol=0, atol=CLOSE),
               'scores of the targets are {} instead of {}: {}', numpy.asarray(target_logprobs).tolist(), target.tolist(), what)
        with numpy.errstate(all='ignore'):
            p_target, p_noise = numpy.exp(target), numpy.exp(own)
            q_target, q_noise = q[target_classes], q[sample]
            want = numpy.log(p_target / (p_target + q_target)) + numpy.log(q_noise / (p_noise + q_noise)).sum(axis=2)
            ratio_target, ratio_noise = p_target / q_target, p_noise / q_noise
            total = ratio_target + ratio_noise.sum(axis=2)
            want2 = numpy.log(ratio_target / total) + numpy.log(1 - ratio_noise / total[:, :, None]).sum(axis=2)
        for name, got, number, values in (('noise-contrastive', nce, nce_words, want), ('BlackOut', blackout, blackout_words, want2)):
            expect(int(number) == included.sum(), '{} words are counted by the {} cost instead of {}: {}', int(number), name,
                   included.sum(), what)
            right = -values[included].mean()
            expect(abs(float(got) - right) < 1e-6 * max(1, abs(right)), 'the {} cost is {} instead of {} with the samples {}: {}', name,
                   float(got), right, sample.tolist(), what)
        for index in numpy.ndindex(T, N, k):
            seen[index + (sample[index],)] += 1
        ctx.state(what, sample.tolist())
    if case['zero']:
        # an unknown word as the target, although <unk> has no prior probability
        places_ = numpy.nonzero(mask)
        targets, target_classes = numpy.array(targets), numpy.array(target_classes)
        targets[places_[0][0], places_[1][0]] = unk
        target_classes[places_[0][0], places_[1][0]] = vocab.word_id_to_class_id[unk]
        _, _, _, nce, _, blackout, _ = function(inputs, classes[:-1], targets, target_classes, mask, k)
        ctx.step()
        expect(numpy.isfinite(nce) and numpy.isfinite(blackout), 'an unknown word makes the costs {} and {}: {}', nce, blackout, what)
        ctx.count('unknown_target')
    # every place takes the classes with their probabilities (with replacement, or in the first draw)
    if case['noise'] != 'unigram' or not case['dampening']:
        off = numpy.abs(seen - rotations * q).max()
        expect(off <= 1.01, 'over a grid of {} random numbers, a class is sampled {} times more or less often than it should: {}',
               rotations, off, what)
        ctx.count('every_class_every_place', (seen > 0).all())
    ctx.outcome(what, seen.tolist())
    ctx.count({None: 'per_word', 'seq': 'per_step', 'batch': 'per_batch'}[case['sharing']])
    ctx.count('nce')
    ctx.count('blackout')
    ctx.count('padding', (mask == 0).any())
    ctx.count('excluded', (included != (mask != 0)).any())
    ctx.count('dampened', case['noise'] == 'unigram' and case['dampening'] == 0.5)
    ctx.count('padding_zero_prior', (q[target_classes[mask == 0]] == 0).any())
    ctx.count('several_steps_and_sequences', T > 1 and N > 1)
    ctx.count('classes', vocab_kind == 'classes')
