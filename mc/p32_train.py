"""P32: the train command against a simulation of the whole training."""

import collections
import gzip
import itertools
import math
import os
import re

import numpy

from mc import cli, netlib, nnref, optlib, supply, trainlib
from mc.core import expect
from mc.p22_optimizers import advance

PROPERTY = 'P32'
TITLE = 'The train command trains the model that its options describe'
METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']
MUST_COVER = tuple(METHODS) + (
    'default_method', 'limited', 'regularised', 'excluded', 'weights', 'partial_weights', 'several_files', 'several_updates', 'sampling',
    'cut', 'word_list', 'class_list', 'srilm', 'num_classes', 'nce', 'blackout', 'unigram', 'uniform', 'log-uniform', 'sharing',
    'validated', 'annealed', 'stopped_annealing', 'stopped_no_improvement', 'stopped_epochs', 'resumed', 'oos_validation', 'oos_training',
    'hsoftmax', 'recurrent', 'compressed', 'standard')
ASSUMPTIONS = ['one training process; initial parameters are taken from a run of the command with the same random seed and learning rate zero',
               'mini-batches that do not depend on the order of the sentences: all sentences of a file are equal, or all data is in '
               'one mini-batch', 'noise samples: all classes (unigram distribution), or the same random number for every draw',
               'gradients of the reference by five point differences; tolerance 1e-6 in double precision']
BOUNDS = {
    'quick': '7 optimization methods x 4 hyperparameter sets, one-at-a-time variation of every other option (regularisation, gradient '
             'normalisation, <unk> exclusion, weights, sampling, batch size, sequence length, vocabulary formats, architectures (also those selected by name), compressed files, costs and '
             'noise options, stopping criteria, patience, validation frequency, number of epochs), 1-8 epochs of 1-16 updates',
    'thorough': 'all pairs of values of different options',
}
TOLERANCE = 1e-6
ARCHS = {
    'plain': optlib.ARCHS['plain'],
    'gru': optlib.ARCHS['gru'],
    'lstm': """
input type=word name=wi
input type=class name=ci
layer type=projection name=p input=wi size=2
layer type=projection name=q input=ci size=1
layer type=lstm name=h input=p input=q size=2
layer type=softmax name=out input=h
""",
    'hsoftmax': optlib.ARCHS['hsoftmax'],
}
LISTS = {
    'words': ('words', 'b\na\n<unk>\nz\n'),
    'classes': ('classes', 'a 1\nb 2\nc 1\nz 2\n'),
    'full': ('words', 'd\nb\nc\na\n'),
    'full-classes': ('classes', 'a 1\nb 2\nc 1\nd 4\n'),
    'srilm': ('srilm-classes', 'C 0.3 a\nD 1.0 b\nC 0.7 c\n'),
}
# lines and how many times they are repeated in the file
TEXTS = {
    'one': [[('a b c a', 1)]],
    'some': [[('a b c', 1), ('b b d a', 1), ('c', 1)]],
    'same5': [[('b a c d', 5)]],
    'same8': [[('b a c d', 8)]],
    'same16': [[('a c b', 16)]],
    'two': [[('a b c', 1), ('d', 1)], [('b b', 1), ('a c d b a', 1)]],
    'three': [[('a b c', 1)], [('c c a', 2)], [('b', 1), ('d b', 1)]],
    'long': [[('a b c d a b c', 1), ('b c a', 1)]],
}
VALID = {'train': ['b a c d'], 'plain': ['a b', 'c a'], 'unknown': ['a q b', 'd c'], 'same': ['b a c d', 'b a'],
         'long': ['a b c d a b c', 'd c', 'c c a d b']}
BASE = {'arch': 'plain', 'text': 'some', 'list': None, 'valid': None, 'options': {'max-epochs': 2}, 'flags': [], 'resume': None}
# one case changes some of this
METHOD_OPTIONS = [{}, {'learning-rate': 0.7, 'momentum': 0.4, 'gradient-decay-rate': 0.6, 'sqr-gradient-decay-rate': 0.8},
                  {'learning-rate': 0.02, 'numerical-stability-term': 0.001, 'gradient-normalization': 0.05},
                  {'gradient-decay-rate': 0.95, 'sqr-gradient-decay-rate': 0.5}]
CHANGES = [
    {'arch': 'gru'}, {'arch': 'lstm'}, {'arch': 'hsoftmax'},
    {'text': 'one'}, {'text': 'two'}, {'text': 'three'}, {'text': 'same5', 'options': {'batch-size': 2}},
    {'text': 'same5', 'options': {'batch-size': 5}}, {'text': 'same5', 'options': {'batch-size': 1, 'max-epochs': 3}},
    {'text': 'same16', 'options': {}}, {'text': 'same16', 'options': {'batch-size': 3, 'max-epochs': 1}},
    {'text': 'long', 'options': {'sequence-length': 4}}, {'text': 'long', 'options': {'sequence-length': 3, 'batch-size': 30}},
    {'text': 'three', 'options': {'weights': [0.5, 2.0, 0.0]}}, {'text': 'three', 'options': {'weights': [0.5]}},
    {'text': 'two', 'options': {'weights': [3.0, 0.25]}},
    {'text': 'same8', 'options': {'sampling': [0.5], 'batch-size': 1}}, {'text': 'same5', 'options': {'sampling': [0.4], 'batch-size': 1}},
    {'list': 'words'}, {'list': 'words', 'flags': ['exclude-unk']}, {'list': 'classes'}, {'list': 'classes', 'flags': ['exclude-unk']},
    {'list': 'srilm'}, {'options': {'num-classes': 2}}, {'options': {'num-classes': 1}}, {'options': {'num-classes': 3}},
    {'options': {'l1-regularization': 0.01}}, {'options': {'l2-regularization': 0.02}},
    {'options': {'l1-regularization': 0.003, 'l2-regularization': 0.1}}, {'options': {'gradient-normalization': 0.1}},
    {'options': {'learning-rate': 1.5, 'optimization-method': 'sgd'}}, {'options': {'random-seed': 7}},
    {'options': {'max-epochs': 1}}, {'options': {'max-epochs': 5}}, {'options': {'random-seed': 0}},
    {'text': 'two', 'gz': True},
]
NOISE = []
for _cost in ('nce', 'blackout'):
    for _dist in ('unigram', 'uniform', 'log-uniform'):
        for _list in ('words', 'classes'):
            NOISE.append({'list': {'words': 'full', 'classes': 'full-classes'}[_list], 'options': {'cost': _cost, 'noise-distribution': _dist}})
    NOISE += [{'list': 'full', 'options': {'cost': _cost, 'noise-distribution': 'unigram', 'noise-dampening': 1.0}},
              {'list': 'full', 'options': {'cost': _cost, 'noise-distribution': 'unigram', 'noise-dampening': 0.0}},
              {'list': 'full', 'options': {'cost': _cost, 'noise-distribution': 'unigram', 'noise-dampening': 0.03}},
              {'list': 'full', 'options': {'cost': _cost, 'noise-distribution': 'unigram', 'noise-dampening': 0.8}},
              {'list': 'full', 'options': {'cost': _cost, 'noise-distribution': 'uniform', 'num-noise-samples': 2}},
              {'list': 'full', 'options': {'cost': _cost}},
              {'list': 'words', 'options': {'cost': _cost, 'noise-distribution': 'unigram'}, 'flags': ['exclude-unk']},
              {'list': 'full', 'options': {'cost': _cost, 'l2-regularization': 0.05}},
              {'list': 'full', 'options': {'cost': _cost, 'l1-regularization': 0.05, 'noise-sharing': 'seq'}},
              {'list': 'full', 'options': {'cost': _cost, 'noise-distribution': 'log-uniform', 'noise-sharing': 'batch'}}]
COURSES = []
for _criterion, _count in (('epoch-count', 0), ('annealing-count', 0), ('annealing-count', 1), ('annealing-count', 3), ('no-improvement', 0)):
    for _patience in (0, 1, 4, -1):
        for _frequency in (1, 2):
            for _rate in (0.1, 1.0):
                COURSES.append({'text': 'same16', 'valid': 'plain',
                                'options': {'batch-size': 1, 'learning-rate': _rate, 'stopping-criterion': _criterion, 'patience': _patience,
                                            'max-annealing-count': _count, 'validation-frequency': _frequency,
                                            'max-epochs': 6 if _patience + _count > 0 else 4, 'optimization-method': 'sgd'}})
COURSES = [c for i, c in enumerate(COURSES) if c['options']['patience'] >= 0 or c['options']['stopping-criterion'] != 'no-improvement']
# the model improves after the learning rate has been reduced
for _patience, _frequency, _count in itertools.product((0, 1), (1, 2), (0, 1, 2)):
    COURSES.append({'text': 'same16', 'valid': 'train',
                    'options': {'batch-size': 1, 'learning-rate': 0.3, 'patience': _patience, 'max-annealing-count': _count,
                                'validation-frequency': _frequency, 'max-epochs': 4, 'optimization-method': 'nesterov'}})
EXTRA_COURSES = [
    {'text': 'same16', 'valid': 'unknown', 'list': 'words', 'options': {'batch-size': 2, 'validation-frequency': 1, 'max-epochs': 2}},
    {'text': 'same16', 'valid': 'unknown', 'list': 'words', 'flags': ['exclude-unk'],
     'options': {'batch-size': 2, 'validation-frequency': 1, 'max-epochs': 2}},
    {'text': 'same16', 'valid': 'unknown', 'list': 'classes', 'options': {'batch-size': 2, 'validation-frequency': 1, 'max-epochs': 2}},
    {'text': 'same16', 'valid': 'plain', 'arch': 'gru', 'options': {'batch-size': 2, 'validation-frequency': 1, 'max-epochs': 2}},
    {'text': 'same8', 'valid': 'same', 'options': {'batch-size': 1, 'validation-frequency': 1, 'learning-rate': 1.0, 'patience': 0,
                                                   'max-annealing-count': 2, 'min-epochs': 4, 'max-epochs': 6,
                                                   'optimization-method': 'sgd'}},
    {'text': 'same8', 'valid': 'plain', 'options': {'batch-size': 1, 'validation-frequency': 1, 'learning-rate': 1.0, 'patience': 0,
                                                    'min-epochs': 3, 'max-epochs': 6, 'optimization-method': 'nesterov',
                                                    'stopping-criterion': 'no-improvement'}},
    {'text': 'same8', 'valid': 'plain', 'options': {'batch-size': 1}},
    {'text': 'same8', 'valid': 'long', 'options': {'batch-size': 1, 'sequence-length': 6, 'validation-frequency': 1, 'max-epochs': 2}},
    {'text': 'same8', 'valid': 'plain', 'gz': True, 'options': {'batch-size': 1, 'validation-frequency': 1, 'max-epochs': 2}},
    # the default stopping rule with a rate that goes too far
    {'text': 'same16', 'valid': 'train', 'options': {'batch-size': 1, 'validation-frequency': 1, 'learning-rate': 0.3, 'patience': 0,
                                                     'max-epochs': 6, 'optimization-method': 'nesterov'}},
    {'text': 'same16', 'valid': 'train', 'options': {'batch-size': 1, 'validation-frequency': 2, 'learning-rate': 0.3,
                                                     'max-epochs': 20, 'optimization-method': 'nesterov'}},
    # too few updates for the default validation frequency
    {'text': 'some', 'valid': 'plain', 'options': {'max-epochs': 2}},
]
RESUMED = [{'text': 'some', 'options': {'max-epochs': 2, 'optimization-method': m}, 'resume': {'max-epochs': 4}} for m in METHODS] + [
    {'text': 'some', 'list': 'classes', 'options': {'max-epochs': 1}, 'resume': {'max-epochs': 2}},
    {'text': 'some', 'options': {'max-epochs': 1, 'num-classes': 2}, 'resume': {'max-epochs': 2}},
    {'text': 'some', 'options': {'max-epochs': 1}, 'resume': {'max-epochs': 3, 'learning-rate': 0.01, 'optimization-method': 'sgd',
                                                             'l2-regularization': 0.1}},
]


def merged(*changes):
    result = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in BASE.items()}
    for change in changes:
        for key, value in change.items():
            if key == 'options':
                result[key].update(value)
            elif key == 'flags':
                result[key] = sorted(set(result[key] + value))
            else:
                result[key] = value
    return result


def cases(tier):
    seen = set()
    base = [merged({'options': dict(o, **{'optimization-method': m})}) for m in METHODS for o in METHOD_OPTIONS]
    base += [merged()] + [merged(c) for c in CHANGES]
    base += [merged(c) for c in NOISE] + [merged(c) for c in COURSES + EXTRA_COURSES] + [merged(c) for c in RESUMED]
    if tier == 'thorough':
        methods = [{'options': dict(o, **{'optimization-method': m})} for m in METHODS for o in METHOD_OPTIONS]
        for a, b in itertools.combinations(CHANGES + methods, 2):
            keys = [set(k for k in c if k != 'options') | set('--' + o for o in c.get('options', {}) if o != 'max-epochs') for c in (a, b)]
            if keys[0] & keys[1] or ('list' in keys[0] | keys[1] and '--num-classes' in keys[0] | keys[1]):
                continue
            base.append(merged(a, b))
        for a, b in itertools.product(NOISE, CHANGES):
            if 'list' in b or set(a['options']) & set(b.get('options', {})) or b.get('arch') == 'hsoftmax' or \
                    'num-classes' in b.get('options', {}) or 'gradient-normalization' in b.get('options', {}):
                continue
            base.append(merged(b, a))
        for a, b in itertools.product(COURSES, METHODS):
            base.append(merged(a, {'options': {'optimization-method': b, 'learning-rate': 0.5 if b != 'sgd' else 3.0}}))
    for case in base:
        key = repr(sorted(case.items()))
        if key not in seen:
            seen.add(key)
            yield case


def units(tier, seed):
    every = list(cases(tier))
    # expensive ones first
    every.sort(key=lambda c: -c['options'].get('max-epochs', 1) * (2 if c['valid'] else 1))
    size = 1 if tier == 'quick' else 8
    standard = ['lstm1500', None, 'lstm300']
    return [{'cases': [{'standard': name}]} for name in standard] + [{'cases': every[i:i + size]} for i in range(0, len(every), size)]


def explore(unit, ctx):
    for case in unit['cases']:
        ctx.run(case)


# -- running the command ----------------------------------------------------------
def expand(file):
    return [line for line, count in file for _ in range(count)]


def write(name, lines, gz):
    text = ''.join(line + '\n' for line in lines)
    if not gz:
        return cli.write(name, text)
    path = cli.scratch(name + '.gz')
    with gzip.open(path, 'wt', encoding='utf-8') as handle:
        handle.write(text)
    return path


def command(case, model, override=None, plain=False):
    """Arguments of the train command."""
    argv = [model, '--training-set']
    for index, file in enumerate(TEXTS[case['text']]):
        argv.append(write('p32-{}.txt'.format(index), expand(file), case.get('gz')))
    argv += ['--architecture', cli.write('p32.arch', ARCHS[case['arch']]), '--log-file', os.devnull]
    if case['list'] is not None:
        argv += ['--vocabulary', cli.write('p32.vocab', LISTS[case['list']][1]), '--vocabulary-format', LISTS[case['list']][0]]
    options = dict(case['options'], **(override or {}))
    if case['valid'] is not None and not plain:
        argv += ['--validation-file', write('p32-valid.txt', VALID[case['valid']], case.get('gz'))]
    if 'cost' in options:
        options.setdefault('optimization-method', 'sgd')
        options.setdefault('numerical-stability-term', 1e-12)
        if options.get('noise-distribution') == 'unigram':
            options['num-noise-samples'] = case['classes']
    options.setdefault('num-noise-samples', 2)
    options.setdefault('random-seed', 3)
    for name, value in sorted(options.items()):
        argv += ['--' + name] + (list(value) if isinstance(value, (list, tuple)) else [value])
    return argv + ['--' + f for f in case['flags']]


def read(model):
    import h5py
    from theanolm import Vocabulary
    params = {}
    with h5py.File(model, 'r') as state:
        vocab = Vocabulary.from_state(state)
        found = {}
        if 'layers' in state:
            def visit(name, obj):
                if isinstance(obj, h5py.Dataset):
                    params['layers/' + name] = numpy.array(obj[()], dtype=float)
            state['layers'].visititems(visit)
            found = {'epoch': int(state['trainer'].attrs['epoch_number']), 'update': int(state['trainer'].attrs['update_number']),
                     'rate': float(state['optimizer'].attrs['learning_rate']),
                     'costs': [float(x) for x in state['trainer/cost_history'][()]]}
    return vocab, params, found


def remove(model):
    if os.path.exists(model):
        os.unlink(model)


def train(argv, draw=0.4):
    supply.source = supply.Stream([draw])
    remove_later = supply.source
    output = cli.run('train', argv)
    return output, remove_later.drawn


_START = {}


def start(case):
    """Initial vocabulary and parameters."""
    kept = {k: v for k, v in case['options'].items() if k in ('batch-size', 'sequence-length', 'sampling', 'random-seed', 'num-classes',
                                                               'weights')}
    key = repr((case['arch'], case['text'], case['list'], sorted(kept.items())))
    if key not in _START:
        model = cli.scratch('p32-start.h5')
        remove(model)
        plain = dict(case, options=kept, flags=[])
        train(command(plain, model, {'optimization-method': 'sgd', 'learning-rate': 0.0, 'max-epochs': 1,
                                     'stopping-criterion': 'epoch-count', 'num-noise-samples': 1}, plain=True))
        _START[key] = read(model)[:2]
        remove(model)
    return _START[key]


# -- reference ----------------------------------------------------------------------
def check_vocabulary(case, vocab, what):
    counts = collections.Counter()
    lines = [line for file in TEXTS[case['text']] for line in expand(file)]
    for line in lines:
        counts.update(['<s>'] + line.split() + ['</s>'])
    special = ['<s>', '</s>', '<unk>']
    in_text = [w for w in 'abcd' if counts[w]]
    if case['list'] is None:
        shortlist, groups = in_text, None
    else:
        rows = [line.split() for line in LISTS[case['list']][1].splitlines()]
        if LISTS[case['list']][0] == 'words':
            shortlist = [r[0] for r in rows if r[0] != '<unk>']
            groups = [[w] for w in shortlist]
        else:
            word, name = (0, 1) if LISTS[case['list']][0] == 'classes' else (2, 0)
            shortlist = [r[word] for r in rows]
            names = sorted(set(r[name] for r in rows))
            groups = [[r[word] for r in rows if r[name] == n] for n in names]
    known = [vocab.id_to_word[i] for i in range(vocab.num_shortlist_words())]
    expect(sorted(known) == sorted(shortlist + special), 'the vocabulary of the model is {} instead of {}: {}', known, shortlist, what)
    every = [vocab.id_to_word[i] for i in range(vocab.num_words())]
    expect(sorted(every) == sorted(set(shortlist + special + in_text)), 'the model knows the words {}: {}', every, what)
    of = {w: int(vocab.word_id_to_class_id[vocab.word_to_id[w]]) for w in known}
    members = collections.defaultdict(list)
    for w in known:
        members[of[w]].append(w)
    for w in special:
        expect(members[of[w]] == [w], '{} shares a class with {}: {}', w, members[of[w]], what)
    if case['list'] is None:
        number = case['options'].get('num-classes', len(shortlist))
        expect(vocab.num_classes() == min(number, len(shortlist)) + 3, '{} classes instead of {} and the special tokens: {}',
               vocab.num_classes(), number, what)
    else:
        expect(sorted(sorted(m) for m in members.values()) == sorted([sorted(g) for g in groups] + [[w] for w in special]),
               'the classes of the model are {} instead of {}: {}', sorted(members.values()), groups, what)
    for w in known:
        id_ = vocab.word_to_id[w]
        if case['list'] == 'srilm' and w in shortlist:
            want = {'a': 0.3, 'b': 1.0, 'c': 0.7}[w]
        else:
            total = sum(counts[m] for m in members[of[w]])
            want = counts[w] / total if total else 1.0 / len(members[of[w]])
        got = vocab.get_word_prob(id_)
        expect(abs(got - want) < 1e-9, 'the membership probability of {} is {} instead of {}: {}', w, got, want, what)
    mass = numpy.zeros(vocab.num_classes())
    for w, n in counts.items():
        if w in of:
            mass[of[w]] += n
    return mass, counts


def sequences(case, vocab):
    """[(file, ID sequence)] of an epoch with all data in one mini-batch, or of one line."""
    limit = case['options'].get('sequence-length', 100)
    unk = vocab.word_to_id['<unk>']
    result = []
    for index, file in enumerate(TEXTS[case['text']]):
        for line in expand(file):
            words = ['<s>'] + line.split() + ['</s>']
            ids = [vocab.word_to_id[w] for w in words]
            ids = [i if i < vocab.num_shortlist_words() else unk for i in ids]
            for position in range(0, len(ids), limit):
                piece = ids[position:position + limit]
                if len(piece) > 1:
                    result.append((index, piece))
    return result


class Simulation(trainlib.Reference):
    params = opt = None

    def snapshot(self):
        return dict(super().snapshot(), params=self.params, opt=self.opt)

    def restore(self):
        super().restore()
        self.params, self.opt = self.saved['params'], self.saved['opt']


def noise_cost(case, text, vocab, params, ids, classes, mask, counted, q, noise):
    _, everything = nnref.evaluate(text, params, ids[:-1], classes[:-1], mask[1:], vocab.num_classes(), want='all')
    preact = everything['preact']
    target = classes[1:]
    t, n = numpy.nonzero(counted)
    p_target, q_target = numpy.exp(preact[t, n, target[t, n]]), q[target[t, n]]
    p_noise, q_noise = numpy.exp(preact[t, n][:, noise]), q[noise]
    if case['options']['cost'] == 'nce':
        values = numpy.log(p_target / (p_target + q_target)) + numpy.log(q_noise / (p_noise + q_noise)).sum(axis=1)
    else:
        a, b = p_target / q_target, p_noise / q_noise
        total = a + b.sum(axis=1)
        values = numpy.log(a / total) + numpy.log(1 - b / total[:, None]).sum(axis=1)
    return -values.mean()


def simulate(case, vocab, params, mass, counts, noise=None, previous=None, override=None):
    options = dict(case['options'], **(override or {}))
    method = options.get('optimization-method', 'sgd' if 'cost' in options else 'adagrad')
    hyper = {'epsilon': options.get('numerical-stability-term', 1e-12 if 'cost' in options else 1e-6),
             'gradient_decay_rate': options.get('gradient-decay-rate', 0.9),
             'sqr_gradient_decay_rate': options.get('sqr-gradient-decay-rate', 0.999), 'momentum': options.get('momentum', 0.9),
             'max_gradient_norm': options.get('gradient-normalization', 5.0)}
    text = ARCHS[case['arch']]
    unk = vocab.word_to_id['<unk>']
    exclude = 'exclude-unk' in case['flags']
    rows = sequences(case, vocab)
    lines = [expand(file) for file in TEXTS[case['text']]]
    size = options.get('batch-size', 16)
    total = sum(len(x) for x in lines)
    if 'sampling' in options:
        total = int(round(options['sampling'][0] * total))
    if len(set(repr(r) for r in rows)) == 1:
        # all sentences are equal
        batches = -(-total // size)
        rows = rows[:1]
    else:
        batches = 1
        assert len(rows) <= size and 'sampling' not in options
    ids, mask = netlib.matrix([r for _, r in rows], pad=unk)
    classes = vocab.word_id_to_class_id[ids]
    counted = (mask[1:] == 1) & ((ids[1:] != unk) | (not exclude))
    weights = list(options.get('weights', []))
    weights += [1.0] * (len(lines) - len(weights))
    files = numpy.array([f for f, _ in rows])
    words = (mask[1:] == 1).sum(axis=0)
    weight = float((numpy.asarray(weights)[files] * words).sum() / words.sum())
    if 'cost' in options:
        q = {'uniform': numpy.ones(len(mass)), 'log-uniform': numpy.log((numpy.arange(len(mass)) + 2.0) / (numpy.arange(len(mass)) + 1.0)),
             'unigram': (mass / mass.sum()) ** options.get('noise-dampening', 0.5)}[options.get('noise-distribution', 'uniform')]
        q = q / q.sum()

    def cost(p):
        if 'cost' in options:
            value = noise_cost(case, text, vocab, p, ids, classes, mask, counted, q, noise)
        else:
            probs = nnref.evaluate(text, p, ids[:-1], classes[:-1], mask[1:], vocab.num_classes())
            t, n = numpy.nonzero(counted)
            value = -numpy.log(probs[t, n, classes[1:][t, n]]).mean()
        if 'l1-regularization' in options:
            value += options['l1-regularization'] * sum(numpy.abs(v).sum() for v in p.values())
        if 'l2-regularization' in options:
            value += options['l2-regularization'] * sum((v * v).sum() for v in p.values())
        return value

    def smooth_cost(p):
        value = cost(p)
        if 'l1-regularization' in options:
            value -= options['l1-regularization'] * sum(numpy.abs(v).sum() for v in p.values())
        return value

    def gradient(p):
        grad = optlib.gradient4(smooth_cost, {k: numpy.array(v) for k, v in p.items()})
        if 'l1-regularization' in options:
            grad = {k: g + options['l1-regularization'] * numpy.sign(p[k]) for k, g in grad.items()}
        return grad

    validation = []
    if case['valid'] is not None:
        for line in VALID[case['valid']]:
            line_ids = [vocab.word_to_id.get(w, unk) for w in ['<s>'] + line.split() + ['</s>']]
            limit = options.get('sequence-length', 100)
            cut = [line_ids[i:i + limit] for i in range(0, len(line_ids), limit)]
            validation += [piece for piece in cut if len(piece) > 1]
    oos_total = sum(n for w, n in counts.items() if vocab.word_to_id[w] >= vocab.num_shortlist_words())

    def perplexity(p):
        total, number = 0.0, 0
        for row in validation:
            row = numpy.array(row)
            short = numpy.where(row < vocab.num_shortlist_words(), row, unk)
            matrix = short[:, None]
            probs = nnref.evaluate(text, p, matrix[:-1], vocab.word_id_to_class_id[matrix[:-1]], numpy.ones_like(matrix[1:]),
                                   vocab.num_classes())
            for t in range(1, len(row)):
                if row[t] == unk or (exclude and short[t] == unk):
                    continue
                prob = probs[t - 1, 0, vocab.word_id_to_class_id[short[t]]]
                if short[t] == unk:
                    prob *= counts[vocab.id_to_word[row[t]]] / oos_total
                else:
                    prob *= vocab.get_word_prob(int(row[t]))
                total += math.log(prob)
                number += 1
        return math.exp(-total / number)

    sim = Simulation({'lines': batches, 'frequency': options.get('validation-frequency', 5), 'samples': 7,
                      'patience': options.get('patience', 4), 'criterion': options.get('stopping-criterion', 'annealing-count'),
                      'max_epochs': options.get('max-epochs', 100), 'min_epochs': options.get('min-epochs', 1),
                      'max_annealing': options.get('max-annealing-count', 0), 'validation': case['valid'] is not None}, previous)
    if previous is None:
        sim.rate = options.get('learning-rate', 0.1)
        sim.params, sim.opt = params, {}
    sim.since = 0
    sim.limited = False
    sim.close = False
    events = sim.events()
    answer = None
    updates = 0
    while True:
        try:
            event = events.send(answer)
        except StopIteration:
            break
        if event[0] == 'update':
            sim.opt, sim.params, limited = advance(method, hyper, sim.opt, sim.params, gradient(sim.params), sim.rate * weight)
            sim.limited |= limited
            updates += 1
            if updates > 400:
                return None
            answer = sim.update
        else:
            answer = perplexity(sim.params)
            if sim.best is not None and abs(answer - 0.999 * sim.best) < 1e-6 * sim.best:
                sim.close = True
    sim.updates = updates
    sim.perplexity = perplexity
    sim.counted = counted
    return sim


def run_case(case, ctx):
    supply.install()
    if 'standard' in case:
        return run_standard(case, ctx)
    what = 'theanolm train ({} {} {} {} {} {}{})'.format(
        case['arch'], case['text'], case['list'] or '', case['valid'] or '', case['options'], case['flags'],
        ' then {}'.format(case['resume']) if case['resume'] else '')
    vocab, params = start(case)
    mass, counts = check_vocabulary(case, vocab, what)
    case = dict(case, classes=vocab.num_classes())
    check_start(case, vocab, params, mass, what)
    model = cli.scratch('p32-model.h5')
    remove(model)
    options = case['options']
    noises = [None]
    if 'cost' in options:
        if options.get('noise-distribution') == 'unigram' and options.get('noise-dampening') != 0:
            noises = [numpy.nonzero(mass > 0)[0]]
            if len(noises[0]) < len(mass):
                # a class that has no probability cannot be sampled
                case['classes'] = len(noises[0])
        else:
            if options.get('noise-distribution') == 'unigram':
                number = vocab.num_classes()
            else:
                number = options.get('num-noise-samples', 2)
            noises = [numpy.full(number, c) for c in range(vocab.num_classes())]
    first = simulate(case, vocab, params, mass, counts, noises[0])
    if first is None:
        # returns to the same model for ever
        ctx.count('endless')
        return
    output, drawn = train(command(case, model, {}))
    found_vocab, found_params, found = read(model)
    check_vocabulary(case, found_vocab, what)
    expect([found_vocab.id_to_word[i] for i in range(found_vocab.num_words())] == [vocab.id_to_word[i] for i in range(vocab.num_words())],
           'the vocabulary depends on the options of the optimizer: {}', what)
    worst = []
    for noise in noises:
        sim = first if noise is noises[0] else simulate(case, vocab, params, mass, counts, noise)
        difference = compare(sim, found, found_params, options, what, raising=len(noises) == 1)
        worst.append(difference)
        if difference < TOLERANCE:
            break
    reported = re.findall(r'perplexity:\s*(\S+)', output)
    if case['valid'] is not None and sim.saved and not sim.close:
        right = sim.perplexity(sim.saved['params'])
        expect(len(reported) == 1 and abs(float(reported[0]) - right) < 1e-5 * right,
               'reports the perplexity {}, the saved model has {}: {}', reported, right, what)
    else:
        expect(not reported, 'reports the perplexity {} without a validated model: {}', reported, what)
    expect(min(worst) < TOLERANCE, 'no noise explains the parameters (they differ by {}): {}', min(worst), what)
    ctx.step(sim.updates)
    ctx.state(what)
    ctx.outcome(what, sim.updates, sim.stop_reason, len(sim.costs))
    if case['resume'] and sim.saved:
        later = dict(options, **case['resume'])
        if 'optimization-method' in case['resume']:
            expect_rejected_or_fresh(case, model, later, what, ctx)
        else:
            train(command(case, model, case['resume']))
            _, found_params, found = read(model)
            again = simulate(case, vocab, None, mass, counts, None, previous=sim.saved, override=case['resume'])
            compare(again, found, found_params, later, what + ' continued')
            ctx.step(again.updates)
        ctx.count('resumed')
    remove(model)
    if options.get('noise-sharing'):
        # fewer random numbers than without sharing
        single = dict(case, options={k: v for k, v in options.items() if k != 'noise-sharing'})
        _, without = train(command(single, model))
        remove(model)
        alone = options['noise-sharing'] == 'seq' and (options.get('batch-size') == 1 or case['text'] == 'one')
        expect(drawn < without or alone and drawn == without, '{} noise samples are drawn although they are shared, {} without sharing: {}', drawn, without, what)
        ctx.count('sharing')
    cover(case, sim, ctx)


def run_standard(case, ctx):
    """The networks that can be selected by name."""
    name = case['standard']
    what = 'theanolm train --architecture {}'.format(name)
    model = cli.scratch('p32-standard.h5')
    remove(model)
    argv = [model, '--training-set', write('p32-standard.txt', ['a b'], False), '--log-file', os.devnull, '--max-epochs', 1,
            '--num-noise-samples', 1, '--random-seed', 1]
    train(argv + (['--architecture', name] if name else []))
    vocab, params, found = read(model)
    remove(model)
    classes = vocab.num_classes()
    size, projection = {'lstm1500': (1500, 500)}.get(name, (300, 100))
    lstm = [p for p in params if params[p].shape == (size, 4 * size)]
    expect(lstm, 'the recurrent layer does not have {} units, parameters {}: {}', size,
           {p: v.shape for p, v in params.items()}, what)
    expect(any(v.shape == (classes, projection) for v in params.values()), 'the projection does not have {} units: {}', projection, what)
    expect(any(v.shape == (size, classes) for v in params.values()), 'no output layer reads {} units: {}', size, what)
    expect(found['epoch'] == 2 and all(numpy.isfinite(v).all() for v in params.values()), '{} is saved: {}', found, what)
    ctx.step()
    ctx.state(what)
    ctx.outcome(what, sorted(v.shape for v in params.values()))
    ctx.count('standard')


def expect_rejected_or_fresh(case, model, later, what, ctx):
    """Continues with another optimizer: the parameters are those of the file."""
    _, before, _ = read(model)
    try:
        train(command(case, model, dict(case['resume'], **{'learning-rate': 0.0})))
    except Exception as error:          # an error message is fine
        expect(not isinstance(error, (AttributeError, NameError)), 'continuing with another optimizer fails with {!r}: {}', error, what)


def compare(sim, found, found_params, options, what, raising=True):
    if sim.close:
        return 0.0
    if sim.saved is None:
        expect(not found, 'a model was saved although none was accepted: {}', what)
        return 0.0
    expect(found, 'no model was saved: {}', what)
    for key in ('epoch', 'update'):
        expect(found[key] == sim.saved[key], '{} of the saved model is {} instead of {}: {}', key, found[key], sim.saved[key], what)
    expect(abs(found['rate'] - sim.saved['rate']) <= 1e-9 * abs(sim.saved['rate']), 'learning rate {} instead of {}: {}', found['rate'],
           sim.saved['rate'], what)
    if raising:
        expect(len(found['costs']) == len(sim.saved['costs']), '{} validations until the model was saved instead of {}: {}',
               len(found['costs']), len(sim.saved['costs']), what)
        expect(numpy.allclose(found['costs'], sim.saved['costs'], rtol=TOLERANCE, atol=0), 'validation costs {} instead of {}: {}',
               found['costs'], sim.saved['costs'], what)
    want = sim.saved['params']
    expect(set(want) <= set(found_params), 'parameters {} instead of {}: {}', sorted(found_params), sorted(want), what)
    # the file also contains the state of the optimizer
    found_params = {k: found_params[k] for k in want}
    worst, where = optlib.difference(found_params, want)
    if raising:
        expect(worst < TOLERANCE * max(1, numpy.abs(want[where]).max()), 'parameter {} is {} instead of {} after {} updates: {}', where,
               found_params[where].tolist(), want[where].tolist(), sim.updates, what)
        return 0.0
    return worst


def check_start(case, vocab, params, mass, what):
    """The output layer starts from the frequencies of the classes."""
    for path, value in params.items():
        expect(numpy.isfinite(value).all(), 'initial parameter {} is {}: {}', path, value, what)
        if path.endswith('/W'):
            expect(value.size == 1 or value.std() > 0, 'initial weights {} are all equal: {}', path, what)
    if case['arch'] != 'hsoftmax':
        got = params['layers/out/input/b']
        want = numpy.log(mass / mass.sum() + 1e-10)
        expect(numpy.allclose(got, want, rtol=0, atol=1e-6), 'the output bias starts from {} instead of {}: {}', got.tolist(),
               want.tolist(), what)


def cover(case, sim, ctx):
    options = case['options']
    ctx.count(options.get('optimization-method', 'default_method'))
    ctx.count('limited', sim.limited)
    ctx.count('regularised', 'l1-regularization' in options or 'l2-regularization' in options)
    ctx.count('excluded', 'exclude-unk' in case['flags'] and not sim.counted.all())
    ctx.count('weights', 'weights' in options)
    ctx.count('partial_weights', 0 < len(options.get('weights', [])) < len(TEXTS[case['text']]))
    ctx.count('several_files', len(TEXTS[case['text']]) > 1)
    ctx.count('several_updates', sim.updates > options.get('max-epochs', 100) and case['valid'] is None)
    ctx.count('sampling', 'sampling' in options)
    ctx.count('cut', options.get('sequence-length', 100) < 5)
    ctx.count({'words': 'word_list', 'classes': 'class_list', 'srilm-classes': 'srilm'}[LISTS[case['list']][0]]
              if case['list'] else 'no_list')
    ctx.count('num_classes', 'num-classes' in options)
    ctx.count(options.get('cost', 'cross-entropy'))
    ctx.count(options.get('noise-distribution', 'uniform'), 'cost' in options)
    ctx.count('validated', bool(sim.costs))
    ctx.count('annealed', sim.rollbacks > 0)
    ctx.count('close', sim.close)
    ctx.count({'annealing': 'stopped_annealing', 'no improvement': 'stopped_no_improvement', 'epochs': 'stopped_epochs',
               None: 'stopped'}[sim.stop_reason])
    ctx.count('oos_validation', case['valid'] == 'unknown' and case['list'] is not None)
    ctx.count('oos_training', case['list'] is not None)
    ctx.count('hsoftmax', case['arch'] == 'hsoftmax')
    ctx.count('compressed', case.get('gz', False))
    ctx.count('recurrent', case['arch'] in ('gru', 'lstm'))
