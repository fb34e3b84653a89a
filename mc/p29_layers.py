"""P29: the real networks against the numpy definition for all short inputs."""

import itertools

import numpy

from mc import netlib, nnref
from mc.core import Violation, expect

PROPERTY = 'P29'
TITLE = 'Every layer type computes its defined function'
MUST_COVER = ('masked', 'hsoftmax', 'bidirectional', 'exclude_unk', 'dropout', 'scored', 'stepped', 'from_grid')
ASSUMPTIONS = ['floating point tolerance 1e-8 in double precision',
               'the reference evaluator mc/nnref.py states the published layer definitions']
BOUNDS = {
    'quick': '15 architectures + a grid of single-layer architectures (type x activation x size x number of inputs; 7 filter sizes) '
             'x 2 parameter sets; all word sequences of length <=3 over 4 words and their class inputs, all '
             'masks of 3-sequence mini-batches with lengths 1-4, whole-sequence and word-by-word evaluation',
    'thorough': 'as quick with all word sequences of length <=4 over the whole shortlist, 4 parameter sets',
}

GRID = []
for _type in ('fc', 'tanh', 'lstm', 'gru', 'highway', 'glu', 'add', 'dropout', 'blstm', 'bgru'):
    for _act in ('tanh', 'relu', 'leakyrelu'):
        for _inputs in (('p',), ('p', 'q'), ('q', 'p', 'p')):
            for _size in (None, 1, 2, 5):
                if _type == 'glu' and len(_inputs) > 1:
                    continue
                if _type in ('highway', 'dropout') and _size is not None:
                    continue
                if _type in ('glu', 'add', 'dropout', 'gru', 'bgru') and _act != 'tanh':
                    continue
                if _type in ('blstm', 'bgru') and _size == 1:
                    continue
                extra = ' activation=' + _act if _act != 'tanh' or len(_inputs) == 2 else ''
                GRID.append("""
input type=word name=wi
input type=class name=ci
layer type=projection name=p input=wi size=4
layer type=projection name=q input=ci size=3
layer type={} name=x {}{}{}
layer type={} name=out input=x
""".format(_type, ' '.join('input=' + i for i in _inputs), '' if _size is None else ' size={}'.format(_size),
           extra, 'softmax' if len(GRID) % 4 else 'hsoftmax'))
for _filter in (1, 2, 3, 4, 6, 7, 8):
    GRID.append("""
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=glu name=x input=p filter_size={} size=3
layer type=softmax name=out input=x
""".format(_filter))


def units(tier, seed):
    seeds = (1, 2) if tier == 'quick' else (1, 2, 3, 4)
    result = []
    for arch in netlib.ARCHS:
        for vocab in ('words', 'small', 'classes'):
            for s in seeds:
                result.append({'arch': arch, 'vocab': vocab, 'seed': s, 'tier': tier})
    for index in range(len(GRID)):
        result.append({'grid': index, 'vocab': ('classes', 'small')[index % 2], 'seed': 1, 'tier': tier})
    return result


def batches(vocab, tier, full):
    """Mini-batches (lists of ID sequences, padding ID) that cover the space."""
    short = list(range(vocab.num_shortlist_words()))
    symbols = short if tier != 'quick' else short[:2] + short[-2:]
    depth = 4 if tier != 'quick' and full else 3
    for n in range(1, depth + 1):
        yield [list(s) for s in netlib.histories(symbols, n)], 0
    if full:
        base = [short[-3], short[0], short[1], short[-1]]
        for lengths in itertools.product((1, 2, 3, 4), repeat=3):
            yield [[base[(i + j) % 4] for j in range(n)] for i, n in enumerate(lengths)], sum(lengths) % len(short)


def explore(unit, ctx):
    vocab = netlib.vocabulary(unit['vocab'])
    for sequences, pad in batches(vocab, unit['tier'], 'arch' in unit):
        ctx.run(dict(unit, sequences=sequences, pad=pad, exclude=False))
    if unit['vocab'] == 'words':
        ctx.run(dict(unit, sequences=[[0, 1, 2], [4, 3]], pad=1, exclude=True))


def run_case(case, ctx):
    arch = case['arch'] if 'arch' in case else GRID[case['grid']]
    text = netlib.ARCHS[arch][1] if arch in netlib.ARCHS else arch
    vocab = netlib.vocabulary(case['vocab'])
    if 'hsoftmax' in text and case['exclude']:
        return
    net = netlib.network(arch, case['vocab'], True, case['exclude'], case['seed'])
    params = {p: v.get_value() for p, v in net.get_variables().items()}
    ids, mask = netlib.matrix(case['sequences'], case['pad'])
    class_ids, memberships = vocab.get_class_memberships(ids)
    exclude = int(vocab.word_id_to_class_id[vocab.word_to_id['<unk>']]) if case['exclude'] else None
    want = nnref.evaluate(text, params, ids, class_ids, mask, vocab.num_classes(), exclude)
    got = netlib.output_function(net)(ids, class_ids, mask)
    expect(got.shape == want.shape, 'output shape {} instead of {}', got.shape, want.shape)
    # every position that belongs to a sequence
    inside = mask == 1
    error = numpy.abs(got - want)[inside].max()
    expect(error < 1e-8, 'network output differs from the definition by {} (architecture {})', error, arch)
    ctx.step(int(mask.sum()))
    for t, n in zip(*numpy.nonzero(inside)):
        ctx.state(arch, case['vocab'], case['seed'], tuple(ids[:t + 1, n]))
    ctx.outcome(tuple(numpy.round(got[inside].ravel()[:30], 9)))
    ctx.count('masked', not inside.all())
    ctx.count('hsoftmax', 'hsoftmax' in text)
    ctx.count('bidirectional', 'blstm' in text or 'bgru' in text)
    ctx.count('exclude_unk', case['exclude'])
    ctx.count('dropout', 'dropout' in text)
    ctx.count('from_grid', 'grid' in case)
    if ids.shape[0] > 1 and not case['exclude']:
        # the probabilities that scoring uses; it masks by the target words
        scored = netlib.score_batch(netlib.scorer(net, False), vocab, ids, mask)
        ref = nnref.evaluate(text, params, ids[:-1], class_ids[:-1], mask[1:], vocab.num_classes())
        for n, logprobs in enumerate(scored):
            for t, value in enumerate(logprobs):
                p = ref[t, n, class_ids[t + 1, n]] * memberships[t + 1, n]
                expect(abs(numpy.exp(value) - p) < 1e-8, 'scored probability {} instead of {} (architecture {})',
                       numpy.exp(value), p, arch)
        ctx.count('scored')
    if 'arch' in case and netlib.ARCHS[arch][0] == 'step' and inside.all() and len(case['sequences']) <= 64:
        from theanolm.network import RecurrentState
        step_net = netlib.network(arch, case['vocab'], False, case['exclude'], case['seed'])
        function = netlib.step_function(step_net)
        state = RecurrentState(step_net.recurrent_state_size, len(case['sequences']))
        for t in range(ids.shape[0]):
            result = function(ids[t:t + 1], class_ids[t:t + 1], *state.get())
            error = numpy.abs(result[0][0] - want[t]).max()
            expect(error < 1e-8, 'step {} differs from the definition by {} (architecture {})', t, error, arch)
            state.set(result[1:])
        ctx.count('stepped')
