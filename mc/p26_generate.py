"""P26: text generation on complete grids of random numbers."""

import contextlib
import itertools

import numpy

from mc import cli, netlib, nnref, supply
from mc.core import expect

PROPERTY = 'P26'
TITLE = 'Generated text follows the model'
MUST_COVER = ('no_seed', 'seed', 'seed_oos', 'seed_oov', 'one_step', 'two_steps', 'three_steps', 'recurrent', 'classes', 'several_words',
              'zero_membership', 'extreme', 'command', 'ends_early', 'no_end', 'reproducible', 'one_sequence',
              'rare_member')
ASSUMPTIONS = ['random numbers: MRG_RandomStreams.uniform and the multinomial, choice and uniform draws of numpy.random are stand-ins '
               'that return the values that the exploration chooses (complete grids for the network, an equidistributed sequence for '
               'every class distribution)',
               'the result contains the sentence start, the seed words and (length - 1) sampled words; unknown seed words appear as '
               '<unk>, and the network sees <unk> in place of words outside the shortlist; length of at least one']
BOUNDS = {
    'quick': '8 networks x all seeds of 0-2 of 5 words x a grid of 500 random numbers for one sampled word; 5 networks with grids of '
             '20 x 40 (two words) and 8 x 8 x 24 (three words); sample command with 4 seeds and 5 lengths',
    'thorough': 'all seeds of 0-3 of 6 words, grids of 2000, 40 x 80 and 12 x 12 x 40, 8 networks',
}
NETS = [('plain', 'small'), ('lstm', 'words'), ('gru', 'classes'), ('class-fc', 'classes'), ('deep', 'small'), ('hsoftmax9', 'words'),
        ('two-inputs', 'classes'), ('highway', 'small')]
SCALE = 2.0


def units(tier, seed):
    deep = tier == 'thorough'
    result = [{'kind': 'members', 'vocab': vocab} for vocab in ('tiny', 'rare', 'classes', 'unkclass', 'words')]
    for net in NETS:
        result.append({'kind': 'one', 'net': list(net), 'depth': 3 if deep else 2, 'grid': 2000 if deep else 500, 'deep': deep})
        result.append({'kind': 'command', 'net': list(net)})
    for net in NETS if deep else NETS[:3] + [('class-fc', 'classes'), ('two-inputs', 'classes')]:
        for grid in ([40, 80], [12, 12, 40]) if deep else ([20, 40], [8, 8, 24]):
            for history in ('', 'a', 'c b'):
                result.append({'kind': 'steps', 'net': list(net), 'grid': grid, 'seed': history})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'members':
        ctx.run(unit)
    elif unit['kind'] == 'one':
        words = ['a', 'b', 'c', 'o', 'unknown'] + (['<unk>'] if unit['deep'] else [])
        for length in range(unit['depth'] + 1):
            for seed in itertools.product(words, repeat=length):
                ctx.run({'kind': 'steps', 'net': unit['net'], 'grid': [unit['grid']], 'seed': ' '.join(seed)})
    elif unit['kind'] == 'steps':
        ctx.run({'kind': 'steps', 'net': unit['net'], 'grid': unit['grid'], 'seed': unit['seed']})
    else:
        for seed, length in itertools.product(('', 'a', ' b  a ', 'o c'), (1, 2, 3, 6, 12)):
            ctx.run({'kind': 'command', 'net': unit['net'], 'seed': seed, 'length': length, 'count': 1 + length % 4})


def radical(index):
    """Van der Corput sequence."""
    result, base = 0.0, 0.5
    index += 1
    while index:
        result += base * (index & 1)
        index >>= 1
        base /= 2
    return result


@contextlib.contextmanager
def words_owned():
    """numpy's random draws follow an equidistributed sequence for every distribution."""
    counters = {}

    def number(key=None):
        counters[key] = counters.get(key, -1) + 1
        return radical(counters[key])

    def index(p):
        cumulative = numpy.cumsum(p)
        return min(int(numpy.searchsorted(cumulative / cumulative[-1], number(tuple(p)), side='right')), len(p) - 1)

    def multinomial(n, pvals, size=None):
        shape = () if size is None else tuple(numpy.atleast_1d(size))
        result = numpy.zeros(shape + (len(pvals),), dtype=int)
        for place in numpy.ndindex(shape):
            for _ in range(n):
                result[place + (index(pvals),)] += 1
        return result

    def choice(a, size=None, replace=True, p=None):
        values = numpy.arange(a) if isinstance(a, (int, numpy.integer)) else numpy.asarray(a)
        p = numpy.full(len(values), 1.0 / len(values)) if p is None else p
        if size is None:
            return values[index(p)]
        return numpy.array([values[index(p)] for _ in range(int(numpy.prod(size)))]).reshape(size)

    def random(size=None):
        return number() if size is None else numpy.array([number() for _ in range(int(numpy.prod(size)))]).reshape(size)

    def uniform(low=0.0, high=1.0, size=None):
        return low + (high - low) * random(size)

    def rand(*size):
        return random(size or None)

    mine = {'multinomial': multinomial, 'choice': choice, 'random': random, 'random_sample': random, 'uniform': uniform, 'rand': rand}
    saved = {name: getattr(numpy.random, name) for name in mine}
    try:
        for name in mine:
            setattr(numpy.random, name, mine[name])
        yield
    finally:
        for name in saved:
            setattr(numpy.random, name, saved[name])


def make_sampler(case):
    def make():
        from theanolm.textsampler import TextSampler
        net = netlib.network(case['net'][0], case['net'][1], minibatch=False, scale=SCALE)
        return net, TextSampler(net)
    return netlib.cached(('p26', tuple(case['net'])), make)


def distribution(case, net, tokens):
    """Probabilities of the next word after the sentence start and the tokens."""
    vocab = net.vocabulary
    unk = vocab.word_to_id['<unk>']
    ids = [vocab.word_to_id.get(w, unk) for w in ['<s>'] + tokens]
    ids = numpy.array([i if i < vocab.num_shortlist_words() else unk for i in ids])[:, None]
    probs = nnref.evaluate(netlib.description(case['net'][0]), netlib.param_values(net, 1, SCALE), ids,
                           vocab.word_id_to_class_id[ids], numpy.ones(ids.shape, dtype='int8'), vocab.num_classes())[-1, 0]
    result = {}
    for word_id in range(vocab.num_shortlist_words()):
        class_id = int(vocab.word_id_to_class_id[word_id])
        result[vocab.id_to_word[word_id]] = class_id, float(probs[class_id]), float(vocab.get_word_prob(word_id))
    return result


def run_case(case, ctx):
    supply.install()
    if case['kind'] == 'steps':
        run_steps(case, ctx)
    elif case['kind'] == 'members':
        run_members(case, ctx)
    else:
        run_command(case, ctx)


def seed_words(vocab, seed):
    return [w if w in vocab.word_to_id else '<unk>' for w in seed.split()]


def run_steps(case, ctx):
    net, sampler = make_sampler(case)
    vocab = net.vocabulary
    grid = case['grid']
    n = int(numpy.prod(grid))
    seed = seed_words(vocab, case['seed'])
    what = '{} after {!r} with grid {}'.format('/'.join(case['net']), case['seed'], grid)
    # every combination of the random numbers of the sampled steps, one per parallel sequence
    index = numpy.array(list(itertools.product(*[range(g) for g in grid])))
    steps = [(index[:, i] + 0.5) / g for i, g in enumerate(grid)]
    # values may be drawn while reading the seed as well, and do not matter there
    calls = [0]

    def constant(count):
        # draws for anything else, such as dropout, have other sizes
        calls[0] += count == n
        return numpy.full(count, 0.37)

    supply.source = constant
    with words_owned():
        sampler.generate(len(grid) + 1, n, case['seed'])
    before = calls[0] - len(grid)

    def source(count):
        if count != n:
            return numpy.full(count, 0.37)
        position, calls[0] = calls[0] - before, calls[0] + 1
        return steps[position] if 0 <= position < len(steps) else numpy.full(count, 0.37)

    calls[0] = 0

    supply.source = source
    with words_owned():
        result = sampler.generate(len(grid) + 1, n, case['seed'])
    ctx.step(len(grid) + len(seed))
    expect(len(result) == n, '{} sequences instead of {}: {}', len(result), n, what)
    expect(all(len(s) == 1 + len(seed) + len(grid) for s in result), 'lengths {}: {}', sorted({len(s) for s in result}), what)
    expect(all(s[:1 + len(seed)] == ['<s>'] + seed for s in result), 'a sequence starts with {}: {}', result[0][:1 + len(seed)], what)
    for step in range(len(grid)):
        groups = {}
        for j, sequence in enumerate(result):
            groups.setdefault(tuple(sequence[1:1 + len(seed) + step]), []).append(j)
        # numbers of this step and the following ones cycle within a block
        block = int(numpy.prod(grid[step:]))
        for history, members in groups.items():
            blocks = len({j // block for j in members})
            rest = block // grid[step]
            want = distribution(case, net, list(case['seed'].split()) + list(history[len(seed):]))
            counts, class_counts = {}, {}
            for j in members:
                word = result[j][1 + len(seed) + step]
                expect(word in want, 'samples {}: {}', word, what)
                counts[word] = counts.get(word, 0) + 1
                class_counts[want[word][0]] = class_counts.get(want[word][0], 0) + 1
            for word, (class_id, class_prob, prob) in want.items():
                expected = len(members) * class_prob
                got = class_counts.get(class_id, 0)
                expect(abs(got - expected) <= (1.01 if len(members) == blocks * block else 2.01) * blocks * rest,
                       'class {} is sampled {} times instead of {} after {}: {}', class_id, got, expected, history, what)
                # within the class
                expect(abs(counts.get(word, 0) - got * prob) <= 3 + 0.02 * got if step == 0 and len(grid) == 1 else
                       prob > 0 or not counts.get(word),
                       '{} is sampled {} times instead of {} after {}: {}', word, counts.get(word, 0), got * prob, history, what)
                ctx.count('zero_membership', prob == 0)
                ctx.count('several_words', 0 < prob < 1 and counts.get(word, 0) > 0)
            ctx.state(what, history, sorted(counts.items()))
    # extreme random numbers
    for u in (0.0, 2.0 ** -31, 1 - 2.0 ** -31):
        supply.source = supply.Values([u])
        with words_owned():
            sequence = sampler.generate(3, 1, case['seed'])[0]
        ctx.step(3)
        for i in range(1 + len(seed), len(sequence)):
            want = distribution(case, net, list(case['seed'].split()) + sequence[1 + len(seed):i])
            expect(sequence[i] in want and want[sequence[i]][1] > 0, 'samples {} with random number {}: {}', sequence[i], u, what)
        ctx.count('extreme')
        ctx.count('one_sequence')
    ctx.outcome(what, [' '.join(s) for s in result])
    ctx.count({1: 'one_step', 2: 'two_steps', 3: 'three_steps'}[len(grid)])
    ctx.count('no_seed', not seed)
    ctx.count('seed', len(seed))
    ctx.count('seed_oos', 'o' in case['seed'].split())
    ctx.count('seed_oov', 'unknown' in case['seed'])
    ctx.count('recurrent', case['net'][0] in ('lstm', 'gru', 'deep'))
    ctx.count('classes', case['net'][1] == 'classes')


def run_members(case, ctx):
    """Frequencies of the words of every class."""
    vocab = netlib.vocabulary(case['vocab'])
    number = 20000
    members = {}
    for word_id in range(vocab.num_shortlist_words()):
        members.setdefault(int(vocab.word_id_to_class_id[word_id]), []).append(word_id)
    for class_id, words in members.items():
        with words_owned():
            drawn = [int(w) for w in vocab.class_ids_to_word_ids([class_id] * number)]
        ctx.step(number)
        expect(len(drawn) == number and set(drawn) <= set(words), 'class {} of {} gives the words {}', class_id, case['vocab'], set(drawn))
        for word_id in words:
            expected = number * float(vocab.get_word_prob(word_id))
            expect(abs(drawn.count(word_id) - expected) <= 3, '{} is drawn {} times of {} instead of {} from its class in {}',
                   vocab.id_to_word[word_id], drawn.count(word_id), number, expected, case['vocab'])
            ctx.count('rare_member', 0 < expected < 30)
        ctx.state(case['vocab'], class_id, [drawn.count(w) for w in words])
    ctx.outcome(case['vocab'])


def run_command(case, ctx):
    net, sampler = make_sampler(case)
    what = 'sample {} {!r} {} words'.format('/'.join(case['net']), case['seed'], case['length'])
    model = cli.model(net)
    count, length = case['count'], case['length']
    values = supply.grid(97)

    def source():
        position = [0]

        def draw(number):
            position[0] += number
            return values[(41 * (position[0] + numpy.arange(number))) % 97]
        return draw

    output = cli.scratch('sampled')
    texts = []
    for _ in range(2):
        supply.source = source()
        with words_owned():
            cli.run('sample', [model, '--output-file', output, '--num-sentences', count, '--random-seed', 7,
                               '--sentence-length', length] + (['--seed-sequence', case['seed']] if case['seed'] else []))
        with open(output, encoding='utf-8') as handle:
            texts.append(handle.read())
        ctx.step()
    expect(texts[0] == texts[1], 'the same random seed gives {!r} and {!r}: {}', texts[0], texts[1], what)
    supply.source = source()
    with words_owned():
        sequences = sampler.generate(length, count, case['seed'])
    ctx.step(length)
    lines = []
    for sequence in sequences:
        end = sequence.index('</s>') + 1 if '</s>' in sequence else len(sequence)
        lines.append(' '.join(sequence[:end]) + '\n')
        ctx.count('ends_early', end < len(sequence))
        ctx.count('no_end', '</s>' not in sequence)
    expect(texts[0] == ''.join(lines), 'prints {!r} instead of {!r}: {}', texts[0], ''.join(lines), what)
    if case['net'][1] == 'classes' and length > 3:
        # the words of a class are drawn with real random numbers
        for number in (0, 1, 2 ** 31):
            texts = []
            for _ in range(2):
                supply.source = source()
                cli.run('sample', [model, '--output-file', output, '--num-sentences', 8, '--random-seed', number, '--sentence-length', 20])
                with open(output, encoding='utf-8') as handle:
                    texts.append(handle.read())
                ctx.step()
            expect(texts[0] == texts[1], 'the same random seed {} gives {!r} and {!r}: {}', number, texts[0], texts[1], what)
    ctx.state(what, texts[0])
    ctx.outcome(what, texts[0])
    ctx.count('command')
    ctx.count('reproducible')
