"""P07: the distribution after every history, for every architecture."""

import numpy

from mc import netlib, nnref
from mc.core import Violation, expect

PROPERTY = 'P07'
TITLE = 'Predictions are a probability distribution over the vocabulary'
MUST_COVER = ('classes', 'oos', 'excluded', 'stepwise', 'large_params', 'hsoftmax_exact', 'bidirectional')
ASSUMPTIONS = ['<unk> has a class of its own when it is excluded at inference (documented limitation)',
               'floating point tolerance 1e-8 in double precision']
BOUNDS = {
    'quick': '15 architectures x 3 vocabularies x parameter scales 0.8/30 x <unk> included/excluded; all histories of '
             'length <=3 over the shortlist at class level; all histories of length <=2 x all next words (shortlist, '
             'out-of-shortlist) through the text scorer; word-by-word evaluation of length <=2',
    'thorough': 'as quick with histories one word longer and 5 parameter sets',
}


def units(tier, seed):
    result = []
    for arch in netlib.ARCHS:
        for vocab in ('words', 'small', 'classes'):
            for exclude in (False, True):
                for scale in (0.8, 30.0):
                    for s in ((1,) if tier == 'quick' else (1, 2, 3, 4, 5)):
                        result.append({'arch': arch, 'vocab': vocab, 'exclude': exclude, 'scale': scale,
                                       'seed': s, 'tier': tier})
    return result


def explore(unit, ctx):
    extra = 0 if unit['tier'] == 'quick' else 1
    for depth in range(1, 4 + extra):
        ctx.run(dict(unit, level='classes', depth=depth))
    for depth in range(1, 3 + extra):
        for shortlist in (True, False):
            ctx.run(dict(unit, level='words', depth=depth, shortlist=shortlist))
        if netlib.ARCHS[unit['arch']][0] == 'step':
            ctx.run(dict(unit, level='step', depth=depth))


def check_sums(case, ctx, total, what, unused=None):
    """total: array of sums that have to be one."""
    bad = numpy.abs(total - 1.0) > 1e-8
    if not bad.any():
        return
    text = netlib.ARCHS[case['arch']][1]
    worst = float(total.ravel()[numpy.abs(total.ravel() - 1.0).argmax()])
    if 'hsoftmax' in text and unused is not None:
        # the only mass that may be missing belongs to outputs beyond the last class
        if numpy.allclose(total + unused, 1.0, atol=1e-8):
            ctx.finding('hsoftmax-unused-outputs',
                        'hierarchical softmax with a number of classes that is not the product of its level sizes '
                        'leaves probability mass on unused outputs ({} classes)'.format(
                            netlib.vocabulary(case['vocab']).num_classes()), case)
            return
    raise Violation('{} sum to {} ({}, {})'.format(what, worst, case['arch'], case['vocab']))


def run_case(case, ctx):
    vocab = netlib.vocabulary(case['vocab'])
    text = netlib.ARCHS[case['arch']][1]
    hsoftmax = 'hsoftmax' in text
    net = netlib.network(case['arch'], case['vocab'], case['level'] != 'step', case['exclude'], case['seed'],
                         case['scale'])
    params = {p: v.get_value() for p, v in net.get_variables().items()}
    unk = vocab.word_to_id['<unk>']
    unk_class = int(vocab.word_id_to_class_id[unk])
    symbols = range(vocab.num_shortlist_words())
    if case['level'] == 'classes' and case['depth'] == 4 and len(symbols) > 8:
        symbols = [0, 1, unk] + [vocab.word_to_id[w] for w in ('<s>', '</s>', 'a')]
    sequences = netlib.histories(symbols, case['depth'])
    ctx.count('large_params', case['scale'] > 1)
    ctx.count('bidirectional', netlib.ARCHS[case['arch']][0] == 'bi')

    if case['level'] == 'words':
        return run_words(case, ctx, vocab, net, text, params, sequences, unk)

    ids, mask = netlib.matrix(sequences)
    class_ids, _ = vocab.get_class_memberships(ids)
    if case['level'] == 'classes':
        probs = netlib.output_function(net)(ids, class_ids, mask)
    else:
        from theanolm.network import RecurrentState
        state = RecurrentState(net.recurrent_state_size, len(sequences))
        parts = []
        for t in range(case['depth']):
            result = netlib.step_function(net)(ids[t:t + 1], class_ids[t:t + 1], *state.get())
            parts.append(result[0])
            state.set(result[1:])
        probs = numpy.concatenate(parts)
        ctx.count('stepwise')
    ctx.step(ids.size)
    expect(probs.shape == ids.shape + (vocab.num_classes(),), 'shape {} of the distribution', probs.shape)
    expect(bool((probs >= 0).all()), 'a probability is negative or not a number')
    ctx.count('classes')
    unused = None
    if hsoftmax:
        _, layers = nnref.evaluate(text, params, ids, class_ids, mask, vocab.num_classes(), want='all')
        unused = layers['unused']
        ctx.count('hsoftmax_exact', bool((unused == 0).all()))
    check_sums(case, ctx, probs.sum(axis=2), 'class probabilities', unused)
    if case['exclude']:
        ctx.count('excluded')
        if (probs[:, :, unk_class] != 0).any():
            message = 'excluded <unk> has probability {}'.format(float(probs[:, :, unk_class].max()))
            if hsoftmax:
                ctx.finding('hsoftmax-exclude-unk', 'hierarchical softmax does not exclude <unk>', case)
            else:
                raise Violation(message)
    for sequence in sequences:
        ctx.state(case['arch'], case['vocab'], case['exclude'], case['scale'], case['level'], sequence)
    ctx.outcome(case['arch'], case['vocab'], tuple(numpy.round(probs.ravel()[:20], 8)))


def run_words(case, ctx, vocab, net, text, params, sequences, unk):
    """All next words after every history, through the text scorer."""
    scorer = netlib.scorer(net, case['shortlist'], case['exclude'])
    num = vocab.num_words()
    num_short = vocab.num_shortlist_words()
    rows = [list(h) + [w] for h in sequences for w in range(num)]
    # the scorer reads the next word from the same matrix, followed by a final word
    ids, mask = netlib.matrix([r + [vocab.word_to_id['</s>']] for r in rows])
    scores = netlib.score_batch(scorer, vocab, ids, mask)
    ctx.step(len(rows))
    t = case['depth'] - 1
    hsoftmax = 'hsoftmax' in text
    class_ids, _ = vocab.get_class_memberships(ids)
    unused = None
    if hsoftmax:
        _, layers = nnref.evaluate(text, params, netlib.to_shortlist(vocab, ids[:-1]), class_ids[:-1], mask[1:],
                                   vocab.num_classes(), want='all')
        unused = layers['unused'][t]
    bidirectional = netlib.ARCHS[case['arch']][0] == 'bi'
    for index, history in enumerate(sequences):
        block = [scores[index * num + w][t] for w in range(num)]
        values = numpy.array([0.0 if b is None else numpy.exp(b) for b in block])
        expect(bool((values >= 0).all()) and bool((values <= 1 + 1e-9).all()), 'not a probability: {}', list(values))
        missing = float(unused[index * num]) if unused is not None else None
        if bidirectional and case['depth'] > 1:
            # predictions depend on future words by design; only the next word varies here,
            # which a backward layer does not see when predicting it
            pass
        if case['exclude'] and hsoftmax:
            continue                    # recorded as a finding at class level
        if case['shortlist'] and net.oos_logprobs is not None:
            expect(block[unk] is None, '<unk> is predicted although its mass is divided')
            total = values.sum()
            ctx.count('oos')
        else:
            if case['exclude']:
                expect(block[unk] is None, '<unk> is predicted although it is excluded')
            total = values[:num_short].sum()
        check_sums(case, ctx, numpy.array([total]), 'word probabilities after {}'.format(history),
                   None if missing is None else numpy.array([missing]))
        ctx.state('words', case['arch'], case['vocab'], case['exclude'], case['shortlist'], case['scale'], history)
    ctx.outcome('words', case['arch'], case['vocab'], case['shortlist'])
