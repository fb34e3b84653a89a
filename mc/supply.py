"""Owns the random numbers that are drawn inside Theano graphs.

install() replaces MRG_RandomStreams.uniform, on which every other draw of the
generator (binomial, choice, multinomial...) is built, by an operation that
asks ``source``, a function from the number of values to the values.
"""

import numpy

source = None
_counter = [0]


def install():
    import theano
    from theano import tensor
    from theano.sandbox import rng_mrg

    if getattr(rng_mrg.MRG_RandomStreams.uniform, 'supplied', False):
        return

    class Supply(theano.Op):
        __props__ = ('number', 'ndim', 'dtype')

        def __init__(self, ndim, dtype):
            _counter[0] += 1
            # two draws are never merged into one
            self.number = _counter[0]
            self.ndim = ndim
            self.dtype = dtype

        def make_node(self, size):
            out = tensor.TensorType(self.dtype, [False] * self.ndim)()
            return theano.Apply(self, [size], [out])

        def perform(self, node, inputs, outputs):
            shape = tuple(int(n) for n in inputs[0])
            count = int(numpy.prod(shape))
            values = numpy.asarray(source(count), dtype=self.dtype)
            assert values.shape == (count,) and (count == 0 or (values.min() >= 0 and values.max() < 1))
            outputs[0][0] = values.reshape(shape)

        def do_constant_folding(self, node):
            return False

        def connection_pattern(self, node):
            return [[False]]

        def grad(self, inputs, gradients):
            return [theano.gradient.DisconnectedType()()]

    def uniform(self, size, low=0.0, high=1.0, ndim=None, dtype=None, nstreams=None, **kwargs):
        if dtype is None:
            dtype = theano.scalar.upcast(theano.config.floatX, tensor.as_tensor_variable(low).dtype,
                                         tensor.as_tensor_variable(high).dtype)
        if isinstance(size, (tuple, list)):
            ndim = len(size)
            size = tensor.stack([tensor.cast(tensor.as_tensor_variable(s), 'int64') for s in size]) if size else \
                tensor.zeros((0,), 'int64')
        else:
            size = tensor.cast(size, 'int64')
            ndim = ndim or tensor.get_vector_length(size)
        low, high = tensor.cast(low, dtype), tensor.cast(high, dtype)
        result = Supply(ndim, dtype)(size) * (high - low) + low
        # a dimension that is known to be one broadcasts
        return result

    uniform.supplied = True
    rng_mrg.MRG_RandomStreams.uniform = uniform


class Values(object):
    """A source that repeats the given values."""

    def __init__(self, values):
        self.values = numpy.asarray(values, dtype=float)
        self.drawn = 0

    def __call__(self, count):
        self.drawn += count
        return numpy.resize(self.values, count)


def grid(size):
    """Midpoints of equal parts of the unit interval."""
    return (numpy.arange(size) + 0.5) / size


class Stream(object):
    """A source that delivers the given values one after another, over and over again."""

    def __init__(self, values):
        self.values = numpy.asarray(values, dtype=float)
        self.drawn = 0

    def __call__(self, count):
        places = (self.drawn + numpy.arange(count)) % len(self.values)
        self.drawn += count
        return self.values[places]
