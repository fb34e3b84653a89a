"""P21: the parameter change of every small mini-batch."""

import itertools

import numpy

from mc import netlib, optlib
from mc.core import expect

PROPERTY = 'P21'
TITLE = 'A training update reflects exactly the unmasked, included target words'
MUST_COVER = ('padding', 'extra_padding', 'excluded', 'only_excluded', 'permuted', 'truncated', 'weighted', 'mixed_files', 'limited',
              'unlimited', 'regularised', 'large', 'classes', 'recurrent', 'bidirectional', 'tiny_limit')
ASSUMPTIONS = ['cross-entropy cost (noise-contrastive costs: P25); plain gradient descent, so that the parameter change is the '
               'gradient (other rules: P22)',
               'a mini-batch from several files is scaled by the average weight of its words',
               'architectures without dropout']
BOUNDS = {
    'quick': '8 architectures x <unk> included/excluded x every mini-batch of 1-2 sequences over 8 sequences (1-3 words, with and '
             'without sentence end, with <unk>) and all batches of 3 over 4 of them, every order x 0-2 rows of extra padding x 3 '
             'paddings; L1/L2 regularisation; norm limits 0.0005, 0.05, 0.5, 1000; weights 1, 0.5, 2, 0 of 3 files and all assignments of '
             'files to 2 sequences; a batch of 300 words',
    'thorough': 'as quick with all batches of 3 over the 8 sequences and padding combinations',
}
TOLERANCE = 2e-7


def units(tier, seed):
    result = []
    for arch in optlib.ARCHS:
        for exclude in (False, True):
            for size, parts in ((1, 1), (2, 3), (3, 3 if tier == 'quick' else 16)):
                for part in range(parts):
                    result.append({'kind': 'batches', 'arch': arch, 'exclude': exclude, 'size': size, 'part': part,
                                   'parts': parts, 'deep': tier == 'thorough'})
        result.append({'kind': 'options', 'arch': arch})
    return result


VOCAB = {'plain': 'small', 'gru': 'classes', 'lstm': 'small', 'glu': 'small', 'hsoftmax': 'words', 'blstm': 'small', 'bgru': 'classes',
         'highway': 'small'}


def sequences(arch):
    """ID sequences; the first ID is only an input."""
    vocab = netlib.vocabulary(VOCAB[arch])
    s, e, u = (vocab.word_to_id[w] for w in ('<s>', '</s>', '<unk>'))
    a, b = vocab.word_to_id['a'], vocab.word_to_id['b']
    return [(s, a, e), (s, u), (s, b, u, e), (b, e), (s, u, a, b, e), (u, u, u), (s, e), (a, b, b)]


def explore(unit, ctx):
    arch = unit['arch']
    if unit['kind'] == 'batches':
        count = len(sequences(arch)) if unit['size'] < 3 or unit['deep'] else 4
        every = list(itertools.product(range(count), repeat=unit['size']))[unit['part']::unit['parts']]
        for chosen in every:
            extra = ((0, 0), (1, 1), (2, 2)) if unit['size'] < 3 or unit['deep'] else ((sum(chosen) % 3, sum(chosen) % 2),)
            for rows, pad in extra:
                ctx.run({'kind': 'batch', 'arch': arch, 'exclude': unit['exclude'], 'chosen': list(chosen), 'extra': rows,
                         'pad': pad})
        return
    for chosen in ([0], [2, 4], [3, 6, 0], [5, 1]):
        for l1, l2 in ((0.01, None), (None, 0.02), (0.03, 0.01)):
            ctx.run({'kind': 'batch', 'arch': arch, 'exclude': chosen == [5, 1], 'chosen': chosen, 'extra': 1, 'pad': 0, 'l1': l1,
                     'l2': l2})
        for limit in (0.0005, 0.05, 0.5):
            ctx.run({'kind': 'batch', 'arch': arch, 'exclude': False, 'chosen': chosen, 'extra': 0, 'pad': 0, 'limit': limit})
    weights = [1.0, 0.5, 2.0]
    for exclude in (False, True):
        for chosen in ([0, 2], [4, 0], [3, 6]):
            for files in itertools.product(range(3), repeat=2):
                if exclude and len(set(files)) > 1:
                    continue
                ctx.run({'kind': 'batch', 'arch': arch, 'exclude': exclude, 'chosen': chosen, 'extra': 1, 'pad': 0,
                         'weights': weights, 'files': list(files)})
    for exclude, chosen, file in itertools.product((False, True), (3, 6, 7, 2), range(3)):
        ctx.run({'kind': 'batch', 'arch': arch, 'exclude': exclude, 'chosen': [chosen], 'extra': chosen % 2, 'pad': 1,
                 'weights': weights, 'files': [file]})
    ctx.run({'kind': 'batch', 'arch': arch, 'exclude': False, 'chosen': [0, 4], 'extra': 0, 'pad': 0, 'weights': [0.0, 1.0, 1.0],
             'files': [0, 0]})
    ctx.run({'kind': 'batch', 'arch': arch, 'exclude': False, 'chosen': [0, 2, 4, 3] * 20, 'extra': 0, 'pad': 0})
    ctx.run({'kind': 'batch', 'arch': arch, 'exclude': True, 'chosen': [0, 2, 4, 3] * 20, 'extra': 0, 'pad': 0})


_GRADIENTS = {}


def part(arch, sequence, exclude):
    """Gradient of the summed cost of one sequence, and its number of words."""
    key = (arch, sequence, exclude)
    if key not in _GRADIENTS:
        vocab = netlib.vocabulary(VOCAB[arch])
        ids, mask = netlib.matrix([sequence])
        params = {k: numpy.array(v) for k, v in optlib.start_values(arch, VOCAB[arch]).items()}
        count = optlib.cost(arch, vocab, params, ids, mask, exclude)[2]
        _GRADIENTS[key] = (optlib.gradient(lambda p: optlib.cost(arch, vocab, p, ids, mask, exclude)[1], params), count)
    return _GRADIENTS[key]


def run_case(case, ctx):
    arch, exclude = case['arch'], case['exclude']
    vocab_name = VOCAB[arch]
    vocab = netlib.vocabulary(vocab_name)
    chosen = [sequences(arch)[i] for i in case['chosen']]
    options = {}
    if 'limit' in case:
        options['max_gradient_norm'] = case['limit']
    if 'weights' in case:
        options['weights'] = case['weights']
    net, optimizer = optlib.build(arch, vocab_name, options, exclude, case.get('l1'), case.get('l2'))
    before = optlib.values(net)
    pad = [vocab.word_to_id[w] for w in ('</s>', '<unk>', 'a')][case['pad']]
    ids, mask = netlib.matrix(chosen, pad, case['extra'])
    files = numpy.zeros_like(ids)
    if 'files' in case:
        files[:] = case['files']
    optlib.update(net, optimizer, ids, mask, files)
    got = {k: v - before[k] for k, v in optlib.values(net).items()}

    parts = [part(arch, s, exclude) for s in chosen]
    words = sum(count for _, count in parts)
    grad = {k: sum(g[k] for g, _ in parts) / max(words, 1) for k in before}
    if case.get('l1') is not None:
        grad = {k: g + case['l1'] * numpy.sign(before[k]) for k, g in grad.items()}
    if case.get('l2') is not None:
        grad = {k: g + 2 * case['l2'] * before[k] for k, g in grad.items()}
    limit = case.get('limit', optlib.DEFAULTS['max_gradient_norm'])
    rate = optlib.DEFAULTS['learning_rate']
    if 'weights' in case:
        sizes = [len(s) - 1 for s in chosen]
        rate *= sum(case['weights'][f] * n for f, n in zip(case['files'], sizes)) / sum(sizes)
    step = optlib.limited({k: -g for k, g in grad.items()}, limit, optlib.DEFAULTS['epsilon'])
    want = {k: rate * d for k, d in step.items()}
    what = '{} {} extra={} pad={} exclude_unk={} {}'.format(arch, [list(s) for s in chosen][:6], case['extra'], case['pad'], exclude,
                                                          {k: v for k, v in case.items() if k in ('l1', 'l2', 'limit', 'weights',
                                                                                                  'files')})
    worst, where = optlib.difference(got, want)
    expect(worst < TOLERANCE, 'parameter {} changes by up to {} more or less than {}: {}', where, worst,
           float(numpy.abs(want[where]).max()), what)
    expect(optlib.norm(got) <= rate * limit * (1 + 1e-9), 'the change has norm {}, the limit is {} * {}: {}', optlib.norm(got),
           rate, limit, what)
    ctx.step()
    ctx.state(what)
    ctx.outcome(arch, round(optlib.norm(got), 9))
    ctx.count('padding', len({len(s) for s in chosen}) > 1)
    ctx.count('extra_padding', case['extra'] > 0)
    ctx.count('excluded', exclude and words < sum(len(s) - 1 for s in chosen))
    ctx.count('only_excluded', words == 0)
    ctx.count('permuted', case['chosen'] != sorted(case['chosen']))
    ctx.count('truncated', any(s[-1] != vocab.word_to_id['</s>'] for s in chosen))
    ctx.count('weighted', rate != optlib.DEFAULTS['learning_rate'])
    ctx.count('mixed_files', len(set(case.get('files', []))) > 1)
    ctx.count('limited' if optlib.norm({k: -g for k, g in grad.items()}) > limit else 'unlimited')
    ctx.count('regularised', case.get('l1') is not None or case.get('l2') is not None)
    ctx.count('large', len(chosen) > 20)
    ctx.count('classes', vocab_name == 'classes')
    ctx.count('recurrent', arch in ('gru', 'lstm'))
    ctx.count('bidirectional', arch in ('blstm', 'bgru'))
    ctx.count('tiny_limit', limit < 0.001)
