"""P22: update rules of all optimizers, and restoring their state, over all short histories of mini-batches."""

import itertools

import h5py
import numpy

from mc import netlib, optlib
from mc.core import expect

PROPERTY = 'P22'
TITLE = 'Every optimizer follows its update rule and restores its state'
MUST_COVER = ('sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam', 'fresh', 'rate_changed', 'limited',
              'unlimited', 'restored', 'rolled_back', 'saved_over', 'long')
ASSUMPTIONS = ['the update rules are those documented in the optimizer classes; the norm of the adapted gradient is limited before '
               'learning rate and momentum are applied',
               'gradients are reference values, computed from a numpy evaluation of the network by a five point stencil',
               'float64']
BOUNDS = {
    'quick': '7 optimizers x 3 option sets x every sequence of 3 events of {batch A, batch B, batch C, batch A after halving the '
             'rate}; after every prefix the state is saved, restored into another used instance, rolled back after one more '
             'update, and saved over an existing state; one history of 40 updates per optimizer',
    'thorough': 'sequences of 5 events, two architectures, histories of 200 updates',
}

METHODS = ('sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam')
OPTIONS = {
    'default': {'learning_rate': 0.1},
    'decay': {'learning_rate': 0.03, 'gradient_decay_rate': 0.6, 'sqr_gradient_decay_rate': 0.7, 'momentum': 0.5, 'epsilon': 1e-2},
    'limit': {'learning_rate': 0.5, 'gradient_decay_rate': 0.8, 'sqr_gradient_decay_rate': 0.9, 'momentum': 0.7, 'epsilon': 1e-3,
              'max_gradient_norm': 0.05},
}
EVENTS = 'ABCa'
VOCAB = 'small'


def units(tier, seed):
    result = []
    deep = tier == 'thorough'
    for method, options, arch in itertools.product(METHODS, OPTIONS, ('plain', 'gru') if deep else ('plain',)):
        for first in EVENTS if deep else ('',):
            result.append({'method': method, 'options': options, 'arch': arch, 'first': first, 'depth': 5 if deep else 3})
    return result


def batches(arch):
    vocab = netlib.vocabulary(VOCAB)
    s, e, u = (vocab.word_to_id[w] for w in ('<s>', '</s>', '<unk>'))
    a, b = vocab.word_to_id['a'], vocab.word_to_id['b']
    return {'A': [(s, a, e)], 'B': [(s, b, a, e), (b, u)], 'C': [(a, a, a)]}


def explore(unit, ctx):
    base = {'method': unit['method'], 'options': unit['options'], 'arch': unit['arch']}
    rest = unit['depth'] - len(unit['first'])
    for path in itertools.product(EVENTS, repeat=rest):
        ctx.run(dict(base, path=unit['first'] + ''.join(path), restore=True))
    if unit['first'] in ('', 'A'):
        length = 40 if unit['depth'] == 3 else 200
        ctx.run(dict(base, path=('ABCAACBB' * length)[:length], restore=False))


_REFERENCE = {}


def advance(method, options, state, params, grad, rate):
    """One step of the published rule; returns the new (state, params)."""
    eps, decay, decay2, mu = (options[k] for k in ('epsilon', 'gradient_decay_rate', 'sqr_gradient_decay_rate', 'momentum'))
    new = {'t': state.get('t', 0) + 1}
    zeros = {k: numpy.zeros_like(p) for k, p in params.items()}
    ones = {k: numpy.ones_like(p) for k, p in params.items()}
    old = lambda name, default=zeros: state.get(name, default)
    if method in ('sgd', 'nesterov'):
        deltas = {k: -g for k, g in grad.items()}
    elif method == 'adagrad':
        new['ss'] = {k: old('ss')[k] + g ** 2 for k, g in grad.items()}
        deltas = {k: -g / numpy.sqrt(new['ss'][k] + eps) for k, g in grad.items()}
    elif method == 'adadelta':
        new['ms'] = {k: decay * old('ms')[k] + (1 - decay) * g ** 2 for k, g in grad.items()}
        deltas = {k: -g * numpy.sqrt(old('md')[k] + eps) / numpy.sqrt(new['ms'][k] + eps) for k, g in grad.items()}
    elif method in ('rmsprop-sgd', 'rmsprop-nesterov'):
        new['ms'] = {k: decay * old('ms', ones)[k] + (1 - decay) * g ** 2 for k, g in grad.items()}
        deltas = {k: -g / numpy.sqrt(new['ms'][k] + eps) for k, g in grad.items()}
    else:
        new['m'] = {k: decay * old('m')[k] + (1 - decay) * g for k, g in grad.items()}
        new['ms'] = {k: decay2 * old('ms')[k] + (1 - decay2) * g ** 2 for k, g in grad.items()}
        deltas = {k: -new['m'][k] / (numpy.sqrt(new['ms'][k]) + eps) for k in grad}
        rate = rate * numpy.sqrt(1 - decay2 ** new['t']) / (1 - decay ** new['t'])
    size = optlib.norm(deltas)
    deltas = optlib.limited(deltas, options['max_gradient_norm'], eps)
    if method == 'adadelta':
        new['md'] = {k: decay * old('md')[k] + (1 - decay) * d ** 2 for k, d in deltas.items()}
    if method in ('nesterov', 'rmsprop-nesterov'):
        new['v'] = {k: mu * old('v')[k] + rate * d for k, d in deltas.items()}
        params = {k: p + mu * new['v'][k] + rate * deltas[k] for k, p in params.items()}
    else:
        params = {k: p + rate * deltas[k] for k, p in params.items()}
    return new, params, size > options['max_gradient_norm']


def reference(method, name, arch, path):
    """(optimizer state, parameters, learning rate, limited) after the events of the path."""
    key = (method, name, arch, path)
    if key not in _REFERENCE:
        options = dict(optlib.DEFAULTS, **OPTIONS[name])
        if not path:
            start = {k: numpy.array(v) for k, v in optlib.start_values(arch, VOCAB).items()}
            return {}, start, options['learning_rate'], False
        state, params, rate, _ = reference(method, name, arch, path[:-1])
        if path[-1] == 'a':
            rate = rate / 2
        ids, mask = netlib.matrix(batches(arch)[path[-1].upper()])
        vocab = netlib.vocabulary(VOCAB)
        scratch = {k: numpy.array(v) for k, v in params.items()}
        grad = optlib.gradient4(lambda p: optlib.cost(arch, vocab, p, ids, mask)[0], scratch)
        state, params, limited = advance(method, options, state, params, grad, rate)
        if len(path) > 1000:
            return state, params, rate, limited
        _REFERENCE[key] = (state, params, rate, limited)
    return _REFERENCE[key]


def instance(case, copy):
    options = dict(OPTIONS[case['options']], method=case['method'])
    fresh = []
    key = ('p22', case['method'], case['options'], case['arch'], copy)
    net, optimizer = optlib.build(case['arch'], VOCAB, options, copy=copy)
    start = netlib.cached(key, lambda: fresh.append(1) or memory())
    if fresh:
        save(net, optimizer, start)
    else:
        load(net, optimizer, start)
    return net, optimizer, bool(fresh)


_FILES = [0]


def memory():
    _FILES[0] += 1
    return h5py.File('p22-{}'.format(_FILES[0]), 'w', driver='core', backing_store=False)


def save(net, optimizer, state):
    net.get_state(state)
    optimizer.get_state(state)


def load(net, optimizer, state):
    net.set_state(state)
    optimizer.set_state(state)


def event(net, optimizer, arch, name):
    if name == 'a':
        optimizer.learning_rate = optimizer.learning_rate / 2
    ids, mask = netlib.matrix(batches(arch)[name.upper()])
    optlib.update(net, optimizer, ids, mask)


def compare(net, case, path, what, ctx):
    want = reference(case['method'], case['options'], case['arch'], path)[1]
    worst, where = optlib.difference(optlib.values(net), want)
    expect(worst < 1e-7, '{} {} {}: parameter {} is wrong by {} after the updates {} {}', case['method'], case['options'],
           case['arch'], where, worst, path[:60], what)


def run_case(case, ctx):
    arch, path = case['arch'], case['path']
    net, optimizer, fresh = instance(case, 0)
    # a first run starts from newly constructed objects, the others from their saved state
    ctx.count('fresh', fresh)
    for i, name in enumerate(path):
        event(net, optimizer, arch, name)
        ctx.step()
        compare(net, case, path[:i + 1], '', ctx)
        info = reference(case['method'], case['options'], arch, path[:i + 1])
        expect(abs(float(optimizer.learning_rate) - info[2]) < 1e-12, 'learning rate is {} instead of {} after {}',
               optimizer.learning_rate, info[2], path[:i + 1])
        ctx.count('limited' if info[3] else 'unlimited')
        if not case['restore'] or i + 1 == len(path):
            continue
        # save after this update, restore into another instance that has done something else
        other, other_optimizer, _ = instance(case, 1)
        for junk in 'CaB'[:1 + i % 3]:
            event(other, other_optimizer, arch, junk)
        state = memory()
        if i % 2:
            # the file already has the state of another moment
            save(other, other_optimizer, state)
            ctx.count('saved_over')
        save(net, optimizer, state)
        load(other, other_optimizer, state)
        ctx.count('restored')
        for j in range(i + 1, len(path)):
            event(other, other_optimizer, arch, path[j])
            ctx.step()
            compare(other, case, path[:j + 1], '(restored after {})'.format(path[:i + 1]), ctx)
        # roll back the original instance after one more update
        event(net, optimizer, arch, 'C' if path[i + 1] != 'C' else 'A')
        load(net, optimizer, state)
        state.close()
        compare(net, case, path[:i + 1], '(rolled back)', ctx)
        ctx.count('rolled_back')
    ctx.state(case['method'], case['options'], arch, path)
    ctx.outcome(case['method'], case['options'], round(float(sum(v.sum() for v in optlib.values(net).values())), 7))
    ctx.count(case['method'])
    ctx.count('rate_changed', 'a' in path)
    ctx.count('long', len(path) >= 40)
