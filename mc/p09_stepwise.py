"""P09: every way of advancing, combining, reordering and splitting states."""

import itertools

import numpy

from mc import netlib
from mc.core import Violation, expect

PROPERTY = 'P09'
TITLE = 'Word-by-word evaluation equals whole-sentence evaluation'
MUST_COVER = ('combined', 'split', 'reordered', 'initial', 'multi_state_layers', 'rejected')
ASSUMPTIONS = ['floating point tolerance 1e-9 in double precision']
BOUNDS = {
    'quick': '11 architectures that allow it x 2 vocabularies; breadth-first search over pools of up to 3 carried states: '
             'every history of <=3 words over 3 words, every ordered selection of 1-3 (repeated) states of a pool, '
             'advanced jointly with every assignment of 2 words',
    'thorough': 'as quick with histories of <=4 words and 4-state selections',
}


def units(tier, seed):
    result = []
    for arch in netlib.STEP:
        for vocab in ('words', 'classes'):
            for kind in ('tree', 'pool') + (('shape',) if vocab == 'words' else ()):
                result.append({'arch': arch, 'vocab': vocab, 'kind': kind, 'tier': tier})
    return result


def symbols(vocab):
    return [vocab.word_to_id[w] for w in ('a', '<unk>', 'c')]


def explore(unit, ctx):
    vocab = netlib.vocabulary(unit['vocab'])
    if unit['kind'] == 'tree':
        depth = 3 if unit['tier'] == 'quick' else 4
        for width in (1, 2, 5, 27):
            ctx.run(dict(unit, depth=depth, width=width))
    elif unit['kind'] == 'pool':
        pool = [[]] + [[s] for s in symbols(vocab)[:2]] + [list(p) for p in
                                                           itertools.product(symbols(vocab)[:2], repeat=2)]
        size = 3 if unit['tier'] == 'quick' else 4
        for n in range(1, size + 1):
            for chosen in itertools.product(range(len(pool)), repeat=n):
                if n == 4 and chosen[0] != min(chosen):
                    continue
                words = list(itertools.product(range(2), repeat=n))
                for w in (words if n <= 2 else words[::3]):
                    ctx.run(dict(unit, states=[pool[i] for i in chosen], words=list(w)))
    else:
        ctx.run(unit)


def reference(case, history):
    """Class probabilities after <s> + history by whole-sequence evaluation."""
    key = (case['arch'], case['vocab'], tuple(history))
    if key not in _REFERENCE:
        vocab = netlib.vocabulary(case['vocab'])
        net = netlib.network(case['arch'], case['vocab'])
        ids, mask = netlib.matrix([[vocab.word_to_id['<s>']] + list(history)])
        class_ids, _ = vocab.get_class_memberships(ids)
        _REFERENCE[key] = netlib.output_function(net)(ids, class_ids, mask)[-1, 0]
    return _REFERENCE[key]


_REFERENCE = {}


def advance(case, state, words):
    """One joint step: returns class probabilities and the new joint state."""
    from theanolm.network import RecurrentState
    vocab = netlib.vocabulary(case['vocab'])
    net = netlib.network(case['arch'], case['vocab'], False)
    ids = numpy.array([words], dtype='int64')
    class_ids, _ = vocab.get_class_memberships(ids)
    result = netlib.step_function(net)(ids, class_ids, *state.get())
    return result[0][0], RecurrentState(net.recurrent_state_size, len(words), result[1:])


def split(case, state, index):
    from theanolm.network import RecurrentState
    sizes = netlib.network(case['arch'], case['vocab'], False).recurrent_state_size
    return RecurrentState(sizes, 1, [x[:, index:index + 1] for x in state.get()])


def fresh(case, number=1):
    from theanolm.network import RecurrentState
    return RecurrentState(netlib.network(case['arch'], case['vocab'], False).recurrent_state_size, number)


def compare(case, got, history, what):
    error = numpy.abs(got - reference(case, history)).max()
    expect(error < 1e-9, '{}: probabilities after {} differ by {} from whole-sequence evaluation ({})',
           what, history, error, case['arch'])


def state_for(case, history):
    """Single-sequence state after <s> + history (carried one word at a time)."""
    key = ('state', case['arch'], case['vocab'], tuple(history))
    if key not in _REFERENCE:
        vocab = netlib.vocabulary(case['vocab'])
        state = fresh(case)
        for word in [vocab.word_to_id['<s>']] + list(history):
            _, state = advance(case, state, [word])
        _REFERENCE[key] = state
    return _REFERENCE[key]


def run_case(case, ctx):
    from theanolm.network import RecurrentState
    vocab = netlib.vocabulary(case['vocab'])
    sos = vocab.word_to_id['<s>']
    net = netlib.network(case['arch'], case['vocab'], False)
    ctx.count('multi_state_layers', len(net.recurrent_state_size) > 2)
    if case['kind'] == 'shape':
        state = fresh(case, 2)
        for variable, size in zip(state.get(), net.recurrent_state_size):
            expect(variable.shape == (1, 2, size), 'shape {} of a fresh state', variable.shape)
            expect(not variable.any(), 'a fresh state is not zero')
        if net.recurrent_state_size:
            sizes = net.recurrent_state_size
            good = [numpy.ones((1, 2, s)) for s in sizes]
            for bad in ([numpy.ones((1, 3, s)) for s in sizes], [numpy.ones((2, 2, s)) for s in sizes],
                        [numpy.ones((1, 2, s + 1)) for s in sizes], good[:-1], good + good[:1]):
                try:
                    state.set(bad)
                except ValueError:
                    ctx.count('rejected')
                    continue
                raise Violation('a state of the wrong shape was accepted')
            state.set(good)
            expect(all(x is y for x, y in zip(state.get(), good)), 'set() and get() disagree')
            for i in range(len(sizes)):
                expect(numpy.array_equal(state.get(i), good[i]), 'get({}) is another variable', i)
        else:
            ctx.count('rejected')
        ctx.step(6)
        return
    if case['kind'] == 'tree':
        # all histories of the given length, `width` of them side by side
        rows = [list(h) for h in itertools.product(symbols(vocab), repeat=case['depth'])]
        for start in range(0, len(rows), case['width']):
            block = rows[start:start + case['width']]
            state = fresh(case, len(block))
            for t in range(case['depth'] + 1):
                words = [sos] * len(block) if t == 0 else [r[t - 1] for r in block]
                probs, state = advance(case, state, words)
                ctx.step(len(block))
                for n, row in enumerate(block):
                    compare(case, probs[n], row[:t], '{} sequences side by side'.format(len(block)))
                    ctx.state(case['arch'], case['vocab'], tuple(row[:t]))
        ctx.count('initial')
        return
    # combine separately carried states in the given order, advance them jointly
    states = [state_for(case, h) for h in case['states']]
    before = [[x.copy() for x in s.get()] for s in states]
    joint = RecurrentState.combine_sequences(states)
    expect(joint.num_sequences == len(states), 'combined state has {} sequences', joint.num_sequences)
    words = [symbols(vocab)[w] for w in case['words']]
    probs, after = advance(case, joint, words)
    ctx.step(len(words))
    histories = [h + [w] for h, w in zip(case['states'], words)]
    for n, history in enumerate(histories):
        compare(case, probs[n], history, 'combination of {}'.format(case['states']))
    for state, values in zip(states, before):
        expect(all(numpy.array_equal(x, y) for x, y in zip(state.get(), values)),
               'combining or advancing changed an original state')
    ctx.count('combined', len(states) > 1)
    ctx.count('reordered', len(states) > 1 and case['states'] != sorted(case['states']))
    # split the joint state, reverse the order, combine joint and single states, and go on
    parts = [split(case, after, n) for n in range(len(states))]
    ctx.count('split')
    again = RecurrentState.combine_sequences([parts[-1]] + [after] + parts[:1])
    order = [histories[-1]] + histories + histories[:1]
    step = [symbols(vocab)[(n + len(order)) % 3] for n in range(len(order))]
    probs, _ = advance(case, again, step)
    ctx.step(len(step))
    for n, history in enumerate(order):
        compare(case, probs[n], history + [step[n]], 'split and recombined')
        ctx.state(case['arch'], case['vocab'], tuple(map(tuple, order)), n)
    ctx.outcome(case['arch'], tuple(map(tuple, order)))
