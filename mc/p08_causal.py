"""P08: word scores against every continuation, mini-batch and padding."""

import itertools

import numpy

from mc import netlib
from mc.core import Violation, expect

PROPERTY = 'P08'
TITLE = 'A word score depends only on its own sentence, up to the word'
MUST_COVER = ('padding', 'neighbours', 'continuations', 'dropout', 'perplexity', 'oos_input', 'bidirectional')
ASSUMPTIONS = ['independence of the following words only for unidirectional architectures (bidirectional layers look ahead by design)',
               'floating point tolerance 1e-9 in double precision']
BOUNDS = {
    'quick': '13 unidirectional and 2 bidirectional architectures x 2 vocabularies; 14 sequences of 2-5 words; every ordered pair x (one '
             'padding ID with 0-2 extra padding rows, for half of them 4 padding IDs) and every triple of 7 up to rotation; all '
             'continuations of every history of length <=2 over 4 words by <=2 words (unidirectional)',
    'thorough': 'as quick with every ordered triple and quadruple of 9 sequences, continuations by <=3 words',
}


def sequences(vocab):
    w = vocab.word_to_id
    sos, eos, unk, a, b, c, o = (w[x] for x in ('<s>', '</s>', '<unk>', 'a', 'b', 'c', 'o'))
    return [[sos, eos], [sos, a], [sos, a, eos], [sos, b, a, eos], [sos, o, a, eos], [a, b], [sos, a, b, c, eos],
            [sos, a, b, a, eos], [eos, sos, a], [sos, unk, a], [sos, c, c, c, c], [b, a, unk, b], [sos, b, c],
            [sos, a, o, eos]]


def units(tier, seed):
    result = []
    for arch in netlib.ARCHS:
        for vocab in ('small', 'classes'):
            for kind in ('pairs', 'triples') + (('continue',) if arch in netlib.CAUSAL else ()) + (('quads',) if tier != 'quick' else ()):
                result.append({'arch': arch, 'vocab': vocab, 'kind': kind, 'tier': tier})
    result.sort(key=lambda u: u['kind'] not in ('triples', 'quads'))
    return result


def explore(unit, ctx):
    vocab = netlib.vocabulary(unit['vocab'])
    seqs = sequences(vocab)
    pads = [0, vocab.word_to_id['<unk>'], vocab.num_words() - 1, vocab.word_to_id['</s>']]
    if unit['kind'] == 'pairs':
        for i, j in itertools.product(range(len(seqs)), repeat=2):
            for pad, extra in itertools.product(pads, (0, 1, 2)):
                if unit['tier'] != 'quick' or extra == 1 and (i + j) % 2 == 0 or pads[(i + j) % 4] == pad:
                    ctx.run(dict(unit, batch=[i, j], pad=pad, extra=extra))
    elif unit['kind'] == 'triples':
        if unit['tier'] == 'quick':
            combos = [c for c in itertools.product(range(0, len(seqs), 2), repeat=3) if c[0] == min(c)]
        else:
            combos = itertools.product(range(len(seqs)), repeat=3)
        for index, c in enumerate(combos):
            ctx.run(dict(unit, batch=list(c), pad=pads[index % 4], extra=index % 2))
    elif unit['kind'] == 'quads':
        for index, c in enumerate(itertools.product(range(9), repeat=4)):
            ctx.run(dict(unit, batch=list(c), pad=pads[index % 4], extra=index % 2))
    else:
        w = vocab.word_to_id
        symbols = [w['<s>'], w['a'], w['<unk>'], w['c']]
        depth = 2 if unit['tier'] == 'quick' else 3
        for n in (1, 2):
            for history in itertools.product(symbols, repeat=n):
                for m in range(1, depth + 1):
                    ctx.run(dict(unit, history=list(history), tail=m))


def arch_is_bi(arch):
    return netlib.ARCHS[arch][0] == 'bi'


def alone(net, case, sequence, shortlist):
    """Scores of a sequence evaluated on its own."""
    vocab = netlib.vocabulary(case['vocab'])
    key = ('alone', case['arch'], case['vocab'], tuple(sequence), shortlist)
    if key not in _ALONE:
        ids, mask = netlib.matrix([sequence])
        _ALONE[key] = netlib.score_batch(netlib.scorer(net, shortlist), vocab, ids, mask)[0]
    return _ALONE[key]


_ALONE = {}


def same(first, second):
    if first is None or second is None:
        return first is None and second is None
    if numpy.isneginf(first) or numpy.isneginf(second):
        return first == second
    return abs(first - second) < 1e-9


class Batches(list):
    """What compute_perplexity iterates over."""


def run_case(case, ctx):
    vocab = netlib.vocabulary(case['vocab'])
    net = netlib.network(case['arch'], case['vocab'])
    ctx.count('bidirectional', arch_is_bi(case['arch']))
    ctx.count('dropout', 'dropout' in netlib.ARCHS[case['arch']][1])
    if case['kind'] == 'continue':
        # every continuation of the history gives the same scores up to the history,
        # and the first new word scores the same whatever comes after it
        symbols = list(range(vocab.num_words())) if case['tail'] < 3 else [0, 1, vocab.num_words() - 1]
        rows = [case['history'] + list(t) for t in netlib.histories(symbols, case['tail'])]
        ids, mask = netlib.matrix(rows)
        scores = netlib.score_batch(netlib.scorer(net, False), vocab, ids, mask)
        ctx.step(len(rows))
        for row, got in zip(rows, scores):
            for t in range(1, len(row)):
                want = alone(net, case, row[:t + 1], False)[-1]
                expect(same(got[t - 1], want), 'score of word {} of {} is {} but {} without the words after it',
                       t, row, got[t - 1], want)
            ctx.state(case['arch'], case['vocab'], tuple(row))
        ctx.count('continuations')
        return
    seqs = sequences(vocab)
    batch = [seqs[i] for i in case['batch']]
    ids, mask = netlib.matrix(batch, case['pad'], case['extra'])
    ctx.count('padding', bool((mask == 0).any()))
    ctx.count('neighbours')
    ctx.count('oos_input', bool((ids >= vocab.num_shortlist_words()).any()))
    for shortlist in (False, True):
        scorer = netlib.scorer(net, shortlist)
        scores = netlib.score_batch(scorer, vocab, ids, mask)
        ctx.step(int(mask.sum()))
        expect(len(scores) == len(batch), '{} sequences scored instead of {}', len(scores), len(batch))
        total, count = 0.0, 0
        for sequence, got in zip(batch, scores):
            want = alone(net, case, sequence, shortlist)
            expect(len(got) == len(sequence) - 1, '{} scores for {} words', len(got), len(sequence))
            for t, (x, y) in enumerate(zip(got, want)):
                expect(same(x, y), 'word {} of {} scores {} in a mini-batch and {} alone', t + 1, sequence, x, y)
                if y is not None and not numpy.isneginf(y):
                    total += y
                    count += 1
        if not shortlist and count:
            got = scorer.compute_perplexity([(ids, None, mask)])
            want = numpy.exp(-total / count)
            expect(abs(got - want) < 1e-8 * want, 'perplexity of a mini-batch is {} instead of {}', got, want)
            ctx.count('perplexity')
    ctx.state(case['arch'], case['vocab'], tuple(case['batch']), case['pad'], case['extra'])
    ctx.outcome(case['arch'], tuple(case['batch']))
