"""Small real networks, shared by the checks that explore the neural network code.

Everything goes through the public interface: architecture descriptions, the
Network object and its symbolic variables, and the parameters by the names they
have in model files.
"""

import io
import itertools

import numpy

# name -> (unidirectional and recurrent-capable, description)
# 'step': can be evaluated one word at a time; 'causal': unidirectional
ARCHS = {
    'plain': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=softmax name=out input=p
"""),
    'class-fc': ('step', """
# class input, every activation
input type=class name=ci
layer type=projection name=p input=ci size=3
layer type=fc name=f1 input=p size=4 activation=relu
layer type=fc name=f2 input=f1 size=3 activation=leakyrelu
layer type=tanh name=f3 input=f2 size=4
layer type=softmax name=out input=f3
"""),
    'two-inputs': ('step', """
input type=word name=wi
input type=class name=ci
layer type=projection name=pw input=wi size=3
layer type=projection name=pc input=ci size=2
layer type=fc name=f input=pc input=pw size=4
layer type=softmax name=out input=f input=pw
"""),
    'lstm': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=lstm name=h input=p size=4
layer type=softmax name=out input=h
"""),
    'lstm-relu': ('step', """
input type=class name=ci
layer type=projection name=p input=ci size=3
layer type=lstm name=h input=p activation=relu
layer type=softmax name=out input=h
"""),
    'gru': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=gru name=h input=p size=4
layer type=softmax name=out input=h
"""),
    'deep': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=4
layer type=dropout name=d0 input=p dropout_rate=0.4
layer type=lstm name=h1 input=d0 size=3
layer type=gru name=h2 input=h1 input=p size=4
layer type=dropout name=d1 input=h2
layer type=lstm name=h3 input=d1 size=2
layer type=softmax name=out input=h3 input=h1
"""),
    'stack': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=lstm name=h1 input=p size=3
layer type=gru name=h2 input=h1 size=3
layer type=lstm name=h3 input=h2 size=3
layer type=softmax name=out input=h3
"""),
    'highway': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=highway name=w1 input=p
layer type=gru name=h input=w1 size=3
layer type=highwaytanh name=w2 input=h activation=relu
layer type=softmax name=out input=w2
"""),
    'add': ('step', """
input type=word name=wi
input type=class name=ci
layer type=projection name=p input=wi size=4
layer type=projection name=q input=ci size=3
layer type=lstm name=h input=p size=4
layer type=add name=s input=p input=h input=q
layer type=add name=t input=q input=s size=2
layer type=softmax name=out input=t
"""),
    'hsoftmax9': ('step', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=gru name=h input=p size=4
layer type=hsoftmax name=out input=h input=p
"""),
    'glu': ('causal', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=glu name=g1 input=p filter_size=3 size=4
layer type=glu name=g2 input=g1 filter_size=2 size=3
layer type=softmax name=out input=g2
"""),
    'glu5': ('causal', """
input type=class name=ci
layer type=projection name=p input=ci size=2
layer type=glu name=g1 input=p
layer type=add name=s input=g1 input=p
layer type=softmax name=out input=s
"""),
    'blstm': ('bi', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=blstm name=b input=p size=5
layer type=softmax name=out input=b
"""),
    'bgru': ('bi', """
input type=word name=wi
layer type=projection name=p input=wi size=3
layer type=bgru name=b input=p size=4
layer type=fc name=f input=b size=3
layer type=softmax name=out input=f
"""),
}
STEP = [n for n, (k, _) in ARCHS.items() if k == 'step']
CAUSAL = [n for n, (k, _) in ARCHS.items() if k in ('step', 'causal')]

_cache = {}


def cached(key, make):
    if key not in _cache:
        if len(_cache) > 100:
            _cache.clear()
        _cache[key] = make()
    return _cache[key]


def vocabulary(kind='words'):
    """words: one class per word. classes: classes of several words, some of
    them without occurrences.  All contain two out-of-shortlist words and nine
    or five classes."""
    def make():
        from theanolm import Vocabulary
        counts = {'a': 5, 'b': 2, 'c': 1, 'd': 3, 'e': 4, 'f': 1, 'o': 3, 'p': 1, '<s>': 6, '</s>': 6}
        if kind == 'words':
            # nine classes: a b c d e f <s> </s> <unk>
            vocab = Vocabulary.from_file(io.StringIO('a\nb\nc\n<unk>\nd\ne\nf\n'), 'words', oos_words=['o', 'p'])
            vocab.compute_probs(counts, update_class_probs=False)
        elif kind == 'small':
            # six classes
            vocab = Vocabulary.from_file(io.StringIO('b\na\nc\n'), 'words', oos_words=['o', 'p'])
            vocab.compute_probs(counts, update_class_probs=False)
        elif kind == 'classes':
            # classes {a z b}, {c d}, and the special tokens; z never occurs
            vocab = Vocabulary.from_file(io.StringIO('a 1\nz 1\nc 5\nb 1\nd 5\n'), 'classes',
                                         oos_words=['p', 'o'])
            vocab.compute_probs(counts, update_class_probs=True)
        elif kind == 'tiny':
            # like classes, with very rare words
            vocab = Vocabulary.from_file(io.StringIO('a 1\nz 1\nc 5\nb 1\nd 5\n'), 'classes', oos_words=['p', 'o'])
            vocab.compute_probs(dict(counts, a=2000000, b=3, c=1, d=999999, o=1, p=9999999), update_class_probs=True)
        elif kind == 'rare':
            vocab = Vocabulary.from_file(io.StringIO('a 1\nz 1\nc 5\nb 1\nd 5\n'), 'classes', oos_words=['p', 'o'])
            vocab.compute_probs(dict(counts, a=9990, b=7, z=3, c=1, d=1999, o=1, p=99), update_class_probs=True)
        elif kind == 'unkclass':
            # the unknown word token shares a class with another word
            vocab = Vocabulary.from_file(io.StringIO('a 1\n<unk> 1\nc 5\nb 2\nd 5\n'), 'classes', oos_words=['p', 'o'])
            vocab.compute_probs(dict(counts, **{'<unk>': 3}), update_class_probs=True)
        elif kind == 'subwords':
            # <w> separates words, or + marks where subwords can be concatenated
            vocab = Vocabulary.from_file(io.StringIO('<w>\na\nb\nc+\n+d\n+e+\n'), 'words', oos_words=['p+', 'o', '+q'])
            vocab.compute_probs({'<w>': 4, 'a': 5, 'b': 2, 'c+': 2, '+d': 1, '+e+': 1, 'p+': 3, 'o': 3, '+q': 2, '<s>': 2,
                                 '</s>': 2}, update_class_probs=False)
        elif kind == 'no-oos':
            vocab = Vocabulary.from_file(io.StringIO('a\nb\n'), 'words')
        else:
            raise ValueError(kind)
        return vocab
    return cached(('vocab', kind), make)


def description(name):
    return ARCHS[name][1]


def architecture(name):
    from theanolm.network import Architecture
    text = ARCHS[name][1] if name in ARCHS else name
    return Architecture.from_description(io.StringIO(text))


def param_values(network, seed=1, scale=0.8):
    """Deterministic parameter values without any symmetry."""
    result = {}
    for index, (path, variable) in enumerate(sorted(network.get_variables().items())):
        shape = variable.get_value().shape
        generator = numpy.random.RandomState([seed, index])
        result[path] = (scale * generator.uniform(-1, 1, shape)).astype(variable.dtype)
    return result


def set_params(network, values):
    for path, variable in network.get_variables().items():
        variable.set_value(values[path])


def network(arch, vocab='words', minibatch=True, exclude_unk=False, seed=1, scale=0.8, prior=None):
    def make():
        from theanolm.network import Network
        net = Network(architecture(arch), vocabulary(vocab), class_prior_probs=prior,
                      mode=Network.Mode(minibatch=minibatch), exclude_unk=exclude_unk)
        set_params(net, param_values(net, seed, scale))
        return net
    return cached(('net', arch, vocab, minibatch, exclude_unk, seed, scale, prior is not None), make)


def output_function(net):
    """theano function: word IDs, class IDs, mask -> class probabilities."""
    def make():
        import theano
        return theano.function(
            [net.input_word_ids, net.input_class_ids, net.mask], net.output_probs(),
            givens=[(net.is_training, numpy.int8(0))], on_unused_input='ignore')
    return cached(('outf', id(net), net), make)


def step_function(net):
    """theano function: word IDs, class IDs, states -> class probabilities, states."""
    def make():
        import theano
        return theano.function(
            [net.input_word_ids, net.input_class_ids] + list(net.recurrent_state_input),
            [net.output_probs()] + list(net.recurrent_state_output),
            givens=[(net.is_training, numpy.int8(0))], on_unused_input='ignore')
    return cached(('stepf', id(net), net), make)


def scorer(net, use_shortlist=True, exclude_unk=False):
    def make():
        from theanolm.scoring import TextScorer
        return TextScorer(net, use_shortlist, exclude_unk)
    return cached(('scorer', id(net), net, use_shortlist, exclude_unk), make)


def matrix(sequences, pad=0, extra=0):
    """Mini-batch matrices (word IDs, mask) of the given ID sequences."""
    length = max(len(s) for s in sequences) + extra
    ids = numpy.full((length, len(sequences)), pad, dtype='int64')
    mask = numpy.zeros((length, len(sequences)), dtype='int8')
    for index, sequence in enumerate(sequences):
        ids[:len(sequence), index] = sequence
        mask[:len(sequence), index] = 1
    return ids, mask


def to_shortlist(vocab, ids):
    ids = numpy.array(ids)
    ids[ids >= vocab.num_shortlist_words()] = vocab.word_to_id['<unk>']
    return ids


def score_batch(text_scorer, vocab, ids, mask):
    class_ids, probs = vocab.get_class_memberships(ids)
    return text_scorer.score_batch(ids, class_ids, probs, mask)


def histories(symbols, depth):
    return list(itertools.product(symbols, repeat=depth))
