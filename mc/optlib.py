"""Optimizers on small real networks, and reference gradients that are computed
from the numpy evaluation of the network by central differences."""

import numpy

from mc import netlib, nnref

ARCHS = {
    'plain': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=softmax name=out input=p
""",
    'gru': """
input type=class name=ci
layer type=projection name=p input=ci size=2
layer type=gru name=h input=p size=2
layer type=softmax name=out input=h
""",
    'lstm': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=lstm name=h input=p size=2
layer type=softmax name=out input=h
""",
    'glu': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=glu name=g input=p filter_size=2 size=3
layer type=softmax name=out input=g
""",
    'hsoftmax': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=fc name=f input=p size=2
layer type=hsoftmax name=out input=f
""",
    'blstm': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=blstm name=h input=p size=3
layer type=softmax name=out input=h
""",
    'bgru': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=bgru name=h input=p size=3
layer type=softmax name=out input=h input=p
""",
    'highway': """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=highway name=h input=p
layer type=add name=a input=h input=p size=2
layer type=softmax name=out input=a
""",
}

DEFAULTS = {'method': 'sgd', 'epsilon': 1e-6, 'gradient_decay_rate': 0.9, 'sqr_gradient_decay_rate': 0.999,
            'learning_rate': 0.25, 'weights': numpy.ones(3), 'momentum': 0.9, 'max_gradient_norm': 1000.0,
            'num_noise_samples': 2, 'noise_sharing': None}


def network(arch, vocab='small', seed=1):
    return netlib.network(ARCHS[arch], vocab, True, seed=seed)


def build(arch, vocab, options, exclude_unk=False, l1=None, l2=None, seed=1, copy=0):
    """(network, optimizer); `copy` distinguishes independent instances."""
    def make():
        from theanolm.network import Network
        from theanolm.training import create_optimizer, CrossEntropyCost
        vocabulary = netlib.vocabulary(vocab)
        net = Network(netlib.architecture(ARCHS[arch]), vocabulary, class_prior_probs=None)
        exclude = vocabulary.word_to_id['<unk>'] if exclude_unk else None
        full = dict(DEFAULTS, **options)
        full['weights'] = numpy.asarray(full['weights'], dtype='float64')
        return net, create_optimizer(full, net, CrossEntropyCost(net, exclude, l1, l2, full['epsilon']))
    net, optimizer = netlib.cached(('opt', arch, vocab, repr(sorted((k, str(v)) for k, v in options.items())), exclude_unk, l1, l2,
                                    copy), make)
    netlib.set_params(net, start_values(arch, vocab, seed))
    return net, optimizer


def start_values(arch, vocab, seed=1):
    return netlib.param_values(network(arch, vocab), seed)


def values(net):
    return {path: numpy.array(v.get_value()) for path, v in net.get_variables().items()}


def update(net, optimizer, ids, mask, file_ids=None):
    if file_ids is None:
        file_ids = numpy.zeros_like(ids)
    optimizer.update_minibatch(ids, net.vocabulary.word_id_to_class_id[ids], file_ids, mask)


def cost(arch, vocabulary, params, ids, mask, exclude_unk=False, l1=None, l2=None):
    """Average negative log probability of the counted targets, regularisation included."""
    classes = vocabulary.word_id_to_class_id[ids]
    target_mask = mask[1:].astype(bool)
    probs = nnref.evaluate(ARCHS[arch], params, ids[:-1], classes[:-1], mask[1:], vocabulary.num_classes())
    counted = target_mask.copy()
    if exclude_unk:
        counted &= ids[1:] != vocabulary.word_to_id['<unk>']
    t, n = numpy.nonzero(counted)
    total = -numpy.log(probs[t, n, classes[1:][t, n]]).sum()
    result = total / len(t) if len(t) else 0.0
    if l1 is not None:
        result += l1 * sum(numpy.abs(p).sum() for p in params.values())
    if l2 is not None:
        result += l2 * sum((p * p).sum() for p in params.values())
    return result, total, len(t)


def gradient(function, params, step=1e-5):
    """Central differences of a scalar function of the parameters."""
    result = {}
    for path, value in params.items():
        grad = numpy.zeros_like(value)
        flat, out = value.reshape(-1), grad.reshape(-1)
        for i in range(flat.size):
            keep = flat[i]
            flat[i] = keep + step
            high = function(params)
            flat[i] = keep - step
            low = function(params)
            flat[i] = keep
            out[i] = (high - low) / (2 * step)
        result[path] = grad
    return result


def gradient4(function, params, step=2e-3):
    """Like gradient(), with a five point stencil (error about 1e-12)."""
    result = {}
    for path, value in params.items():
        grad = numpy.zeros_like(value)
        flat, out = value.reshape(-1), grad.reshape(-1)
        for i in range(flat.size):
            keep = flat[i]
            total = 0.0
            for offset, weight in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
                flat[i] = keep + offset * step
                total += weight * function(params)
            flat[i] = keep
            out[i] = total / (12 * step)
        result[path] = grad
    return result


def norm(deltas):
    return float(numpy.sqrt(sum((d * d).sum() for d in deltas.values())))


def limited(deltas, limit, epsilon):
    size = norm(deltas)
    return {k: d * min(size, limit) / (epsilon + size) for k, d in deltas.items()}


def difference(x, y):
    """Largest difference and where."""
    worst = max(x, key=lambda k: numpy.nan_to_num(numpy.abs(x[k] - y[k]), nan=numpy.inf).max())
    return float(numpy.nan_to_num(numpy.abs(x[worst] - y[worst]), nan=numpy.inf).max()), worst
