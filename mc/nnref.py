"""Reference evaluation of network architectures in numpy.

Written from the published definitions of the layers; parameters are addressed
by the names they have in model files ("layers/<name>/...").
"""

import numpy


def sigmoid(x):
    return 1.0 / (1.0 + numpy.exp(-x))


def softmax(x):
    e = numpy.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


ACTIVATIONS = {
    'tanh': numpy.tanh,
    'relu': lambda x: numpy.where(x > 0, x, 0.0),
    'leakyrelu': lambda x: numpy.where(x > 0, x, 0.3 * x),
}


def parse(text):
    """[(kind, type, name, inputs, options)] of an architecture description."""
    result = []
    for line in text.splitlines():
        fields = line.split()
        if not fields or fields[0].startswith('#'):
            continue
        options, inputs = {}, []
        for field in fields[1:]:
            key, value = field.split('=', 1)
            if key == 'input':
                inputs.append(value)
            else:
                options[key] = value
        result.append((fields[0], options['type'], options['name'], inputs, options))
    return result


def two_later(preact, mask):
    """What the backward layer sees at each word: the word after the predicted one, nothing beyond the end."""
    result = numpy.zeros_like(preact)
    result[:-2] = preact[2:] * (mask[2:, :, None] == 1)
    return result


def lstm(x, W, b, U, mask, activation, reverse=False):
    """x: (time, sequences, features). Gates in the order input, forget, output,
    candidate."""
    T, N, _ = x.shape
    size = U.shape[0]
    preact = x @ W + b
    if reverse:
        preact = two_later(preact, mask)
    C, h = numpy.zeros((N, size)), numpy.zeros((N, size))
    out = numpy.zeros((T, N, size))
    for t in (reversed(range(T)) if reverse else range(T)):
        a = preact[t] + h @ U
        i, f, o = (sigmoid(a[:, k * size:(k + 1) * size]) for k in range(3))
        candidate = numpy.tanh(a[:, 3 * size:])
        C_new = f * C + i * candidate
        h_new = o * activation(C_new)
        keep = mask[t][:, None] == 1
        C, h = numpy.where(keep, C_new, C), numpy.where(keep, h_new, h)
        out[t] = h
    return out


def gru(x, W, b, U, mask, reverse=False):
    """Gates in the order reset, update, candidate."""
    T, N, _ = x.shape
    size = U.shape[0]
    preact = x @ W + b
    if reverse:
        preact = two_later(preact, mask)
    h = numpy.zeros((N, size))
    out = numpy.zeros((T, N, size))
    for t in (reversed(range(T)) if reverse else range(T)):
        s = h @ U
        r = sigmoid(preact[t][:, :size] + s[:, :size])
        u = sigmoid(preact[t][:, size:2 * size] + s[:, size:2 * size])
        candidate = numpy.tanh(preact[t][:, 2 * size:] + r * s[:, 2 * size:])
        h_new = (1.0 - u) * h + u * candidate
        h = numpy.where(mask[t][:, None] == 1, h_new, h)
        out[t] = h
    return out


def glu(x, W, b):
    """W: (filter, input, 2 * output), the last filter position sees the current word."""
    T, N, _ = x.shape
    width = W.shape[0]
    size = W.shape[2] // 2
    padded = numpy.concatenate([numpy.zeros((width - 1, N, x.shape[2])), x])
    out = numpy.zeros((T, N, 2 * size)) + b
    for t in range(T):
        for k in range(width):
            out[t] += padded[t + k] @ W[k]
    return out[:, :, :size] * sigmoid(out[:, :, size:])


def evaluate(text, params, word_ids, class_ids, mask, num_classes, exclude_class=None, masks=None,
             want='probs'):
    """Class probabilities (time, sequences, classes) of the network described
    by ``text`` with parameters ``params`` (path -> array).  ``masks``: which
    inputs of each dropout layer are kept (nothing is dropped by default)."""
    out = {}
    T, N = word_ids.shape
    for kind, type_, name, inputs, options in parse(text):
        if kind == 'input':
            out[name] = {'word': word_ids, 'class': class_ids}[type_]
            continue
        P = lambda path, n=name: params['layers/' + n + '/' + path]
        activation = ACTIVATIONS[options.get('activation', 'tanh')]
        if type_ == 'projection':
            out[name] = P('W')[out[inputs[0]]]
            continue
        x = numpy.concatenate([out[i] for i in inputs], axis=2)
        if type_ in ('fc', 'tanh'):
            y = activation(x @ P('input/W') + P('input/b'))
        elif type_ == 'lstm':
            y = lstm(x, P('layer_input/W'), P('layer_input/b'), P('step_input/W'), mask, activation)
        elif type_ == 'gru':
            y = gru(x, P('layer_input/W'), P('layer_input/b'), P('step_input/W'), mask)
        elif type_ in ('blstm', 'bgru'):
            parts = []
            for part in ('forward', 'backward'):
                Q = lambda path, n=name + '/' + part: params['layers/' + n + '/' + path]
                args = (x, Q('layer_input/W'), Q('layer_input/b'), Q('step_input/W'), mask)
                if type_ == 'blstm':
                    parts.append(lstm(*args, activation, reverse=part == 'backward'))
                else:
                    parts.append(gru(*args, reverse=part == 'backward'))
            y = numpy.concatenate(parts, axis=2)
        elif type_ in ('highway', 'highwaytanh'):
            a = x @ P('input/W') + P('input/b')
            size = a.shape[2] // 2
            t = sigmoid(a[:, :, size:])
            y = activation(a[:, :, :size]) * t + x * (1.0 - t)
        elif type_ == 'glu':
            y = glu(x, P('input/W'), P('input/b'))
        elif type_ == 'add':
            size = int(options['size']) if 'size' in options else out[inputs[0]].shape[2]
            y = 0.0
            for index, i in enumerate(inputs):
                y = y + (out[i] if out[i].shape[2] == size else out[i] @ P('input{}/W'.format(index)))
        elif type_ == 'dropout':
            y = x
            if masks is not None:
                y = x * masks[name] / (1.0 - min(0.9999, float(options.get('dropout_rate', 0.5))))
        elif type_ == 'softmax':
            a = x @ P('input/W') + P('input/b')
            if exclude_class is not None:
                a = numpy.array(a)
                a[:, :, exclude_class] = -numpy.inf
            out['preact'] = a
            y = softmax(a)
        elif type_ == 'hsoftmax':
            first = softmax(x @ P('input/W') + P('input/b'))
            W, b = P('level1/W'), P('level1/b')
            second = softmax(numpy.einsum('tni,kio->tnko', x, W) + b)
            full = (first[:, :, :, None] * second).reshape(T, N, -1)
            out['unused'] = full[:, :, num_classes:].sum(axis=2)
            y = full[:, :, :num_classes]
        else:
            raise ValueError(type_)
        out[name] = y
        last = name
    if want == 'all':
        return out[last], out
    return out[last]
