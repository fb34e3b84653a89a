"""P31: dropout, over all sets of dropped units of small networks."""

import itertools

import numpy

from mc import netlib, nnref, optlib, supply
from mc.core import expect

PROPERTY = 'P31'
TITLE = 'Dropout drops every unit independently, only during training'
MUST_COVER = ('masks', 'rate', 'update', 'inference', 'two_layers', 'recurrent', 'padding', 'several_sequences', 'several_steps',
              'default_rate', 'no_dropout', 'clipped_rate', 'several_inputs', 'stepped')
ASSUMPTIONS = ['random numbers: MRG_RandomStreams.uniform (on which its other draws are built) is a stand-in that returns the '
               'values that the exploration chooses; float64',
               'nothing is assumed about which random number decides about which unit, or whether small or large numbers drop: the '
               'complete sets of outcomes are compared',
               'rates above 0.9999 act as 0.9999']
BOUNDS = {
    'quick': '8 architectures x 6 rates x mini-batch shapes with up to 8 droppable units: all 2^8 sets of dropped units; training '
             'updates for up to 6 units; each unit over a grid of 60 random numbers, all together over 500',
    'thorough': 'up to 11 units (updates 8), 12 rates, grids of 400 and 5000',
}
LOW, HIGH = 2.0 ** -20, 1 - 2.0 ** -20
CLOSE = 1e-9
NETS = {
    'plain': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=dropout name=d input=p{r}
layer type=softmax name=out input=d
""",
    'three': """
input type=class name=ci
layer type=projection name=p input=ci size=3
layer type=dropout name=d input=p{r}
layer type=softmax name=out input=d
""",
    'wide': """
input type=word name=wi
input type=class name=ci
layer type=projection name=p input=wi size=1
layer type=projection name=q input=ci size=1
layer type=dropout name=d input=q input=p{r}
layer type=fc name=f input=d size=3
layer type=softmax name=out input=f
""",
    'twice': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=dropout name=d input=p{r}
layer type=fc name=f input=d size=2
layer type=dropout name=e input=f{r}
layer type=softmax name=out input=e
""",
    'stacked': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=dropout name=d input=p{r}
layer type=dropout name=e input=d
layer type=softmax name=out input=e
""",
    'skip': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=dropout name=d input=p{r}
layer type=add name=s input=d input=p
layer type=softmax name=out input=s input=d
""",
    'lstm': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=dropout name=d input=p{r}
layer type=lstm name=h input=d size=2
layer type=softmax name=out input=h
""",
    'gru': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=gru name=h input=p size=2
layer type=dropout name=d input=h{r}
layer type=hsoftmax name=out input=d
""",
}
SHAPES = [[2], [3], [4], [2, 2], [3, 2], [3, 3], [2, 2, 2], [5]]
MORE_SHAPES = [[6], [2, 4], [2, 2, 2, 2]]


def text_of(net, rate):
    return NETS[net].format(r='' if rate is None else ' dropout_rate={}'.format(rate))


def droppable(net, lengths):
    per_place = sum({'plain': 2, 'three': 3}.get(net, 2) for line in NETS[net].splitlines() if 'type=dropout' in line)
    return per_place * (max(lengths) - 1) * len(lengths)


def units(tier, seed):
    deep = tier == 'thorough'
    rates = [None, 0.0, 0.2, 0.5, 0.9, 1.0] + ([0.05, 0.25, 0.4, 0.75, 0.99, 0.9999] if deep else [])
    result = []
    for net in NETS:
        for rate in rates:
            result.append({'net': net, 'rate': rate, 'limit': 11 if deep else 8, 'update_limit': 8 if deep else 6,
                           'shapes': SHAPES + (MORE_SHAPES if deep else []), 'one': 400 if deep else 60, 'all': 5000 if deep else 500})
    return result


def explore(unit, ctx):
    base = {'net': unit['net'], 'rate': unit['rate']}
    for shape in unit['shapes']:
        size = droppable(unit['net'], shape)
        if size <= unit['limit']:
            ctx.run(dict(base, kind='masks', lengths=shape))
        if size <= unit['update_limit'] and scale_of(base) == 0.8:
            ctx.run(dict(base, kind='update', lengths=shape))
        ctx.run(dict(base, kind='inference', lengths=shape))
    for shape in ([2], [2, 2]):
        ctx.run(dict(base, kind='rate', lengths=shape, one=unit['one'], all=unit['all']))


def prepare(case):
    text = text_of(case['net'], case['rate'])
    vocab = netlib.vocabulary('small')
    sequences = [[(3 * i + 2 * t + 1) % vocab.num_shortlist_words() for t in range(n)] for i, n in enumerate(case['lengths'])]
    ids, mask = netlib.matrix(sequences, pad=vocab.word_to_id['<unk>'])
    return text, vocab, ids, mask


def scale_of(case):
    # what remains is multiplied by up to 10000
    return 1e-3 if case['rate'] is not None and case['rate'] > 0.95 else 0.8


def training_function(case, text):
    def make():
        import theano
        net = netlib.network(text, 'small', scale=scale_of(case))
        return theano.function([net.input_word_ids, net.input_class_ids, net.mask], net.output_probs(),
                               givens=[(net.is_training, numpy.int8(1))], on_unused_input='ignore')
    return netlib.cached(('p31', text), make)


def masks_of(text, T, N, sizes, bits):
    """Distributes the bits to the dropout layers."""
    result, start = {}, 0
    for name, size in sizes:
        count = T * N * size
        result[name] = numpy.asarray(bits[start:start + count], dtype=float).reshape(T, N, size)
        start += count
    return result


def dropout_sizes(net):
    names = [name for kind, type_, name, _, _ in nnref.parse(text_of(net, 0.5)) if type_ == 'dropout']
    return [(name, 3 if net == 'three' else 2) for name in names]


def rates_of(text):
    return {name: float(options.get('dropout_rate', 0.5)) for kind, type_, name, _, options in nnref.parse(text) if type_ == 'dropout'}


def all_masks(case, text, T, N):
    """All masks that have a positive probability."""
    sizes = dropout_sizes(case['net'])
    rates = rates_of(text)
    choices = []
    for name, size in sizes:
        choices.extend([(0, 1) if rates[name] > 0 else (1,)] * (T * N * size))
    return [masks_of(text, T, N, sizes, bits) for bits in itertools.product(*choices)]


def compare(got, want, what):
    """The distributions of the vectors are the same."""
    got, want = numpy.asarray(got), numpy.asarray(want)
    scale = max(1.0, numpy.abs(want).max())

    def distances(x):
        return numpy.stack([numpy.abs(y - want).max(axis=1) for y in x]) / scale
    d = distances(got)
    nearest = d.min(axis=1)
    index = int(nearest.argmax())
    expect(nearest[index] < what[1], 'the random numbers {} give a result that no set of dropped units gives (differs by {}): {}', index,
           nearest[index], what[0])
    have = (d < what[1]).sum(axis=0) / len(got)
    should = (distances(want) < what[1]).sum(axis=0) / len(want)
    index = int(numpy.abs(have - should).argmax())
    expect(abs(have[index] - should[index]) < 1e-9, 'a set of dropped units occurs in {} instead of {} of the outcomes: {}',
           have[index], should[index], what[0])


def run_case(case, ctx):
    supply.install()
    {'masks': run_masks, 'update': run_update, 'rate': run_rate, 'inference': run_inference}[case['kind']](case, ctx)
    ctx.count(case['kind'])
    ctx.count('two_layers', case['net'] in ('twice', 'stacked'))
    ctx.count('recurrent', case['net'] in ('lstm', 'gru'))
    ctx.count('several_inputs', case['net'] == 'wide')
    ctx.count('padding', len(set(case['lengths'])) > 1)
    ctx.count('several_sequences', len(case['lengths']) > 1)
    ctx.count('several_steps', max(case['lengths']) > 2)
    ctx.count('default_rate', case['rate'] is None)
    ctx.count('no_dropout', case['rate'] == 0)
    ctx.count('clipped_rate', case['rate'] == 1)


def number_of_draws(call):
    values = supply.source = supply.Stream([LOW])
    call()
    return values.drawn


def name_of(case):
    return '{} network, rate {}, sequences of {} words'.format(case['net'], case['rate'], case['lengths'])


def run_masks(case, ctx):
    text, vocab, ids, mask = prepare(case)
    function = training_function(case, text)
    net = netlib.network(text, 'small', scale=scale_of(case))
    params = {p: v.get_value() for p, v in net.get_variables().items()}
    ids, mask = ids[:-1], mask[1:]
    classes = vocab.word_id_to_class_id[ids]
    call = lambda: numpy.log(function(ids, classes, mask))[mask == 1].ravel()
    draws = number_of_draws(call)
    what = name_of(case)
    masks = all_masks(case, text, *ids.shape)
    if draws > 14:
        ctx.count('too_many_draws')
        return
    got = []
    for values in itertools.product((LOW, HIGH), repeat=draws):
        supply.source = supply.Stream(values) if values else None
        got.append(call())
        ctx.step()
        ctx.state(what, values)
    want = [numpy.log(nnref.evaluate(text, params, ids, classes, mask, vocab.num_classes(), masks=m))[mask == 1].ravel() for m in masks]
    compare(got, want, (what, CLOSE))
    ctx.outcome(what, len(masks))


def run_update(case, ctx):
    text, vocab, ids, mask = prepare(case)
    optlib.ARCHS.setdefault(text, text)
    net, optimizer = optlib.build(text, 'small', {})
    before = optlib.values(net)
    paths = sorted(before)

    def call():
        netlib.set_params(net, before)
        optlib.update(net, optimizer, ids, mask)
        after = optlib.values(net)
        return numpy.concatenate([(after[p] - before[p]).ravel() for p in paths])
    draws = number_of_draws(call)
    what = name_of(case)
    if draws > 12:
        ctx.count('too_many_draws')
        return
    got = []
    for values in itertools.product((LOW, HIGH), repeat=draws):
        supply.source = supply.Stream(values) if values else None
        got.append(call())
        ctx.step()
        ctx.state(what, values)
    classes = vocab.word_id_to_class_id[ids]
    want = []
    t, n = numpy.nonzero(mask[1:])
    for m in all_masks(case, text, ids.shape[0] - 1, ids.shape[1]):
        def cost(params):
            probs = nnref.evaluate(text, params, ids[:-1], classes[:-1], mask[1:], vocab.num_classes(), masks=m)
            return -numpy.log(probs[t, n, classes[1:][t, n]]).sum() / len(t)
        gradient = optlib.gradient4(cost, {p: numpy.array(v) for p, v in before.items()})
        step = optlib.limited({p: -g for p, g in gradient.items()}, optlib.DEFAULTS['max_gradient_norm'], optlib.DEFAULTS['epsilon'])
        want.append(numpy.concatenate([optlib.DEFAULTS['learning_rate'] * step[p].ravel() for p in paths]))
    compare(got, want, (what, 1e-6))
    ctx.outcome(what, len(want))


def run_rate(case, ctx):
    """The number of the random numbers with which a unit is dropped."""
    text, vocab, ids, mask = prepare(case)
    function = training_function(case, text)
    net = netlib.network(text, 'small', scale=scale_of(case))
    ids, mask = ids[:-1], mask[1:]
    classes = vocab.word_id_to_class_id[ids]
    what = name_of(case)

    def call(values):
        supply.source = supply.Stream(values)
        ctx.step()
        return numpy.log(function(ids, classes, mask)).ravel()
    draws = number_of_draws(lambda: function(ids, classes, mask))
    if draws == 0:
        expect(case['rate'] == 0 and case['net'] != 'stacked', 'no random numbers are used: {}', what)
        return
    low = call([LOW] * draws)
    changes = []
    for place in range(draws):
        values = [LOW] * draws
        kept = []
        for u in supply.grid(case['one']):
            values[place] = u
            kept.append(bool(numpy.abs(call(values) - low).max() < CLOSE))
        # the outcome changes once, at the rate or at its complement
        change = sum(kept) / case['one']
        expect(kept == sorted(kept, reverse=True), 'the effect of random number {} is not monotonic: {}', place, what)
        changes.append(change)
    rates = rates_of(text)
    allowed = []
    for name, size in dropout_sizes(case['net']):
        rate = min(0.9999, rates[name])
        allowed.extend([rate] * (size * ids.size))
    # whether small numbers keep or drop is free
    for small_keeps in (True, False):
        wanted = sorted(1 - r if small_keeps else r if r > 0 else 1.0 for r in allowed)
        if len(wanted) == draws and all(abs(a - b) <= 1.01 / case['one'] for a, b in zip(sorted(changes), wanted)):
            break
    else:
        # units that are dropped by another layer do not change the result
        if case['net'] != 'stacked' or draws != len(allowed):
            expect(False, 'the units are kept with the probabilities {}, the dropout rates are {}: {}', changes, allowed, what)
    # finer, with the same number for every unit
    if case['net'] not in ('stacked',) and case['rate'] != 0:
        same = sum(bool(numpy.abs(call([u] * draws) - low).max() < CLOSE) for u in supply.grid(case['all'])) / case['all']
        rate = min(0.9999, 0.5 if case['rate'] is None else case['rate'])
        expect(min(abs(same - rate), abs(same - (1 - rate))) <= 1.01 / case['all'], '{} of the random numbers have the same effect, the '
               'dropout rate is {}: {}', same, rate, what)
    ctx.state(what, 'rate')
    ctx.outcome(what, changes)


def run_inference(case, ctx):
    """Scores do not depend on random numbers."""
    text, vocab, ids, mask = prepare(case)
    net = netlib.network(text, 'small', scale=scale_of(case))
    params = {p: v.get_value() for p, v in net.get_variables().items()}
    classes, memberships = vocab.get_class_memberships(ids)
    what = name_of(case)
    want = nnref.evaluate(text, params, ids[:-1], classes[:-1], mask[1:], vocab.num_classes())
    scorer = netlib.scorer(net, False)
    for value in (LOW, 0.3, 0.7, HIGH):
        supply.source = supply.Stream([value])
        for n, logprobs in enumerate(netlib.score_batch(scorer, vocab, ids, mask)):
            for t, got in enumerate(logprobs):
                right = numpy.log(want[t, n, classes[t + 1, n]] * memberships[t + 1, n])
                expect(abs(got - right) < 1e-8, 'log probability {} instead of {} when the random numbers are {}: {}', got, right, value,
                       what)
        got = netlib.output_function(net)(ids[:-1], classes[:-1], mask[1:])
        expect(numpy.abs(got - want)[mask[1:] == 1].max() < CLOSE, 'probabilities depend on the random numbers: {}', what)
        ctx.step()
        ctx.state(what, value, 'inference')
        if len(set(case['lengths'])) == 1:
            from theanolm.network import RecurrentState
            step_net = netlib.network(text, 'small', False, scale=scale_of(case))
            function = netlib.step_function(step_net)
            state = RecurrentState(step_net.recurrent_state_size, ids.shape[1])
            for t in range(ids.shape[0] - 1):
                result = function(ids[t:t + 1], classes[t:t + 1], *state.get())
                expect(numpy.abs(result[0][0] - want[t]).max() < CLOSE, 'step {}: probabilities depend on the random numbers: {}', t, what)
                state.set(result[1:])
            ctx.count('stepped')
    ctx.outcome(what, 'inference')
