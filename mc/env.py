"""Process environment for running the real code deterministically.

Theano runs without a C compiler (every graph is interpreted), so that a check
needs no compilation cache and recompiling after a change costs nothing.
"""

import os
import sys
import logging
import warnings

REPO = os.environ.get('MC_REPO', '/repo')


def prepare(scratch, optimizer='fast_compile', precision='float64'):
    flags = ('cxx=,linker=py,device=cpu,floatX={},optimizer={},optimizer_excluding=AbstractConvCheck,'
             'base_compiledir={},compiledir={}'
             .format(precision, optimizer, os.path.join(scratch, 'theano'),
                     os.path.join(scratch, 'theano')))
    os.environ['THEANO_FLAGS'] = flags
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ['TMPDIR'] = scratch
    import tempfile
    tempfile.tempdir = scratch
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import theano          # noqa: F401  (import once, before forking workers)
    _interpreted_convolution()
    import theanolm
    where = os.path.dirname(os.path.dirname(os.path.abspath(theanolm.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError('theanolm imported from {} instead of {}'.format(where, REPO))


def _interpreted_convolution():
    """Theano interprets convolutions with private functions of an old scipy
    that are not installed; evaluate its definition in numpy instead."""
    import numpy
    from theano.tensor.nnet import abstract_conv

    def conv(self, img, kern, mode='valid', dilation=1, num_groups=1, unshared=False, direction='forward'):
        assert mode in ('valid', 'full') and num_groups == 1 and not unshared
        assert set(numpy.atleast_1d(dilation).tolist()) == {1} and img.ndim == 4
        rows, cols = kern.shape[2:]
        if mode == 'full':
            img = numpy.pad(img, ((0, 0), (0, 0), (rows - 1, rows - 1), (cols - 1, cols - 1)))
        shape = (img.shape[2] - rows + 1, img.shape[3] - cols + 1)
        out = numpy.zeros((img.shape[0], kern.shape[0]) + shape, dtype=img.dtype)
        for i in range(rows):
            for j in range(cols):
                part = img[:, :, i:i + shape[0], j:j + shape[1]]
                out += numpy.einsum('bcrs,nc->bnrs', part, kern[:, :, rows - 1 - i, cols - 1 - j])
        return out
    abstract_conv.BaseAbstractConv.conv = conv
