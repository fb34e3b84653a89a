"""P06: saving and reading models, all short histories of save/load operations."""

import copy
import itertools
import os

import numpy

from mc import netlib
from mc.core import Violation, expect

PROPERTY = 'P06'
TITLE = 'A saved model reloads as the same model'
MUST_COVER = ('roundtrip', 'overwrite', 'many_inputs', 'many_layers', 'missing_rejected', 'other_rejected',
              'unicode', 'oos', 'no_unigrams', 'loaded_into_other', 'new_probs', 'vocabulary_over')
ASSUMPTIONS = ['a state is only overwritten by a model of the same architecture and vocabulary size (documented)']
BOUNDS = {
    'quick': '15 architectures + 3 with 11-13 inputs or layers, two of 5 vocabularies each, predictions of all histories of <=2 words; '
             'every sequence of <=4 operations (change parameters, save to one of two files, load into another '
             'network, rebuild from file) on 3 architectures; removal of every single item of a model file; all ordered '
             'pairs of 20 similar larger and of 11 similar small architectures; a vocabulary saved over another one of the same sizes',
    'thorough': 'as quick with all 5 vocabularies, <=6 operations and histories of <=3 words',
}

MANY_INPUTS = '\n'.join(
    ['input type={} name=i{}'.format('word' if k % 3 else 'class', k) for k in range(12)] +
    ['layer type=projection name=p{0} input=i{0} size={1}'.format(k, 1 + k % 3) for k in range(12)] +
    ['layer type=fc name=f {} size=4'.format(' '.join('input=p{}'.format((5 * k) % 12) for k in range(12))),
     'layer type=softmax name=out input=f'])
MANY_LAYERS = '\n'.join(
    ['input type=word name=wi', 'layer type=projection name=l0 input=wi size=3'] +
    ['layer type=fc name=l{} input=l{} size={} activation={}'.format(
        k, k - 1, 2 + k % 3, ('relu', 'tanh', 'leakyrelu')[k % 3]) for k in range(1, 12)] +
    ['layer type=softmax name=out input=l11 input=l3'])
EXTRA = {'many-inputs': MANY_INPUTS, 'many-layers': MANY_LAYERS,
         'repeated': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=add name=s input=p input=p size=3
layer type=softmax name=out input=s input=p input=s
"""}

BASE = """
input type=word name=wi
input type=class name=ci
layer type=projection name=p input=wi size=3
layer type=projection name=q input=ci size=3
layer type=fc name=f input=p input=q size=4 activation=relu
layer type=dropout name=d input=f dropout_rate=0.25
layer type=softmax name=out input=d
"""
VARIANTS = [
    BASE,
    BASE.replace('input=p input=q size=4', 'input=q input=p size=4'),
    BASE.replace('input=p input=q size=4', 'input=p size=4'),
    BASE.replace('input=p input=q size=4', 'input=p input=q input=p size=4'),
    BASE.replace(' activation=relu', ''),
    BASE.replace('activation=relu', 'activation=leakyrelu'),
    BASE.replace('activation=relu', 'activation=tanh'),
    BASE.replace('size=4', 'size=5'),
    BASE.replace('size=4 ', ''),
    BASE.replace('type=fc', 'type=tanh'),
    BASE.replace(' dropout_rate=0.25', ''),
    BASE.replace('dropout_rate=0.25', 'dropout_rate=0.5'),
    BASE.replace('layer type=dropout name=d input=f dropout_rate=0.25\n', '').replace('input=d', 'input=f'),
    BASE.replace('name=out input=d', 'name=out input=f'),
    BASE.replace('name=out input=d', 'name=out input=d input=p'),
    BASE.replace('type=word name=wi', 'type=class name=wi'),
    BASE.replace('name=ci', 'name=xi').replace('input=ci', 'input=xi'),
    BASE.replace('input type=class name=ci\n', '').replace('input=ci', 'input=wi'),
    BASE.replace('type=softmax', 'type=hsoftmax'),
    BASE.replace('name=out', 'name=o2'),
]
SMALL = 'input type=word name=wi\nlayer type=projection name=p input=wi size=3\nlayer type=softmax name=out input=p\n'
SMALL_VARIANTS = [
    SMALL,
    SMALL.replace('type=word', 'type=class'),
    SMALL.replace('name=wi', 'name=xi').replace('input=wi', 'input=xi'),
    SMALL.replace('size=3', 'size=4'),
    SMALL.replace('name=p', 'name=q').replace('input=p', 'input=q'),
    SMALL.replace('name=out', 'name=o2'),
    SMALL.replace('softmax', 'hsoftmax'),
    SMALL.replace('input=p', 'input=p input=p'),
    SMALL.replace('layer type=softmax', 'layer type=fc name=f input=p size=3\nlayer type=softmax').replace('out input=p', 'out input=f'),
    SMALL.replace('layer type=softmax', 'layer type=fc name=f input=p size=3 activation=relu\nlayer type=softmax').replace(
        'out input=p', 'out input=f'),
    SMALL.replace('layer type=softmax', 'layer type=add name=f input=p size=3\nlayer type=softmax').replace('out input=p', 'out input=f'),
]
FAMILIES = {'base': VARIANTS, 'small': SMALL_VARIANTS}
# shortlists of three words, one or two out-of-shortlist words, different classes
VOCABULARIES = [('a 1\nb 1\nc 2\n', ['o']), ('a 2\nb 1\nc 1\n', ['o']), ('c 1\nb 2\na 2\n', ['p']),
                ('<unk> 1\nb 1\na 2\n</s> 2\nc 2\n<s> 3\n', ['o'])]
OPS = ('change', 'saveA', 'saveB', 'loadA', 'loadB', 'fileA', 'fileB')


def vocab_for(kind):
    if kind == 'unicode':
        def make():
            import io
            from theanolm import Vocabulary
            vocab = Vocabulary.from_file(io.StringIO('a 1\n\u00e4\u00f6\u4e2d 1\nb 2\n<unk> 2\n'), 'classes',
                                         oos_words=['o\u0161', 'p'])
            vocab.compute_probs({'a': 1, '\u00e4\u00f6\u4e2d': 3, 'b': 1, 'o\u0161': 2, '</s>': 4})
            return vocab
        return netlib.cached(('vocab', kind), make)
    return netlib.vocabulary(kind)


def build(arch, vocab, seed, own=False):
    from theanolm.network import Network
    text = EXTRA.get(arch, arch)
    vocabulary = copy.deepcopy(vocab_for(vocab)) if own else vocab_for(vocab)
    net = Network(netlib.architecture(text), vocabulary)
    netlib.set_params(net, netlib.param_values(net, seed))
    return net


def units(tier, seed):
    result = []
    vocabs = ('words', 'small', 'classes', 'no-oos', 'unicode')
    for index, arch in enumerate(list(netlib.ARCHS) + list(EXTRA)):
        for number, vocab in enumerate(vocabs):
            if tier == 'quick' and number != index % 5 and number != (index // 5 + 2 + index) % 5:
                continue
            result.append({'kind': 'roundtrip', 'arch': arch, 'vocab': vocab, 'depth': 2 if tier == 'quick' else 3})
    for arch in ('two-inputs', 'deep', 'blstm'):
        for first in OPS[:3]:
            result.append({'kind': 'ops', 'arch': arch, 'first': first, 'n': 4 if tier == 'quick' else 6})
    for arch in ('add', 'gru', 'glu', 'bgru', 'hsoftmax9'):
        result.append({'kind': 'missing', 'arch': arch})
    for i in range(8):
        result.append({'kind': 'other', 'family': 'base', 'part': i, 'parts': 8})
    for i in range(3):
        result.append({'kind': 'other', 'family': 'small', 'part': i, 'parts': 3})
    result.append({'kind': 'vocabulary'})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'ops':
        for n in range(1, unit['n'] + 1):
            for rest in itertools.product(OPS, repeat=n - 1):
                ops = (unit['first'],) + rest
                saved = set()
                useful = True
                for op in ops:
                    if op.startswith('save'):
                        saved.add(op[-1])
                    elif op != 'change' and op[-1] not in saved:
                        useful = False
                if useful and (n == 1 or ops[-1][:4] in ('load', 'file')) and \
                        not any(a == b for a, b in zip(ops, ops[1:])):
                    ctx.run({'kind': 'ops', 'arch': unit['arch'], 'ops': list(ops)})
    elif unit['kind'] == 'missing':
        for index in range(200):
            if not ctx.run({'kind': 'missing', 'arch': unit['arch'], 'index': index}):
                break
            if _LAST.get('done'):
                break
    elif unit['kind'] == 'other':
        count = len(FAMILIES[unit['family']])
        for j in range(unit['part'], count, unit['parts']):
            for i in range(count):
                ctx.run({'kind': 'other', 'family': unit['family'], 'i': i, 'j': j})
    elif unit['kind'] == 'vocabulary':
        for i, j in itertools.product(range(len(VOCABULARIES)), repeat=2):
            ctx.run({'kind': 'vocabulary', 'i': i, 'j': j})
    else:
        ctx.run(unit)


_LAST = {}
_COUNT = itertools.count()


def path_for(name='m'):
    return os.path.join(os.environ['MC_SCRATCH'], '{}-{}-{}.h5'.format(name, os.getpid(), next(_COUNT)))


def save(net, path):
    """What the train command does when it saves a model."""
    import h5py
    with h5py.File(path, 'a') as state:
        net.vocabulary.get_state(state)
        net.get_state(state)


def values(net):
    return {p: numpy.array(v.get_value()) for p, v in net.get_variables().items()}


def same_values(first, second, what):
    expect(sorted(first) == sorted(second), '{}: parameters {} instead of {}', what, sorted(second), sorted(first))
    for path in first:
        expect(first[path].shape == second[path].shape and first[path].dtype == second[path].dtype and
               numpy.array_equal(first[path], second[path]), '{}: parameter {} differs', what, path)


def plain(options):
    """Architecture options as plain Python values."""
    result = {}
    for key, value in options.items():
        if isinstance(value, (list, tuple, numpy.ndarray)):
            value = [str(getattr(v, 'name', v)) for v in value]
        else:
            value = str(value)
        if key in ('input_layers',) or value == []:
            continue
        result[key] = value
    return result


def same_architecture(first, second):
    expect(first.output_layer == second.output_layer, 'output layer {} instead of {}', second.output_layer,
           first.output_layer)
    for what in ('inputs', 'layers'):
        a, b = [plain(x) for x in getattr(first, what)], [plain(x) for x in getattr(second, what)]
        for x, y in zip(a, b):
            if what == 'inputs':
                x.pop('size', None), y.pop('size', None)
            expect(x == y, 'element {} of {} became {}', x, what, y)
        expect(len(a) == len(b), '{} {} instead of {}', len(b), what, len(a))


def same_vocabulary(first, second):
    expect(list(first.id_to_word) == list(second.id_to_word), 'words {} became {}', list(first.id_to_word),
           list(second.id_to_word))
    expect(all(isinstance(w, str) for w in second.id_to_word), 'words are not strings')
    expect(first.word_to_id == second.word_to_id, 'word IDs differ')
    expect(numpy.array_equal(first.word_id_to_class_id, second.word_id_to_class_id), 'classes differ')
    for method in ('num_words', 'num_shortlist_words', 'num_classes', 'has_unigram_probs'):
        expect(getattr(first, method)() == getattr(second, method)(), '{}() differs', method)
    expect(first.num_normal_classes == second.num_normal_classes, 'num_normal_classes differs')
    for word_id in range(first.num_shortlist_words()):
        expect(abs(first.get_word_prob(word_id) - second.get_word_prob(word_id)) < 1e-12,
               'membership probability of {} differs', first.id_to_word[word_id])
    if first.has_unigram_probs():
        expect(numpy.allclose(first.get_oos_probs(), second.get_oos_probs(), rtol=1e-12, atol=0),
               'out-of-shortlist probabilities differ')
        expect(numpy.allclose(first.get_class_probs(), second.get_class_probs(), rtol=1e-12, atol=0),
               'class probabilities differ')


def run_case(case, ctx):
    import h5py
    from theanolm.network import Network
    from theanolm.backend import IncompatibleStateError
    if case['kind'] == 'roundtrip':
        path = path_for()
        net = build(case['arch'], case['vocab'], 1, True)
        vocab = net.vocabulary
        ctx.count('no_unigrams', not vocab.has_unigram_probs())
        for round_ in (1, 2, 3):
            if round_ > 1:
                netlib.set_params(net, netlib.param_values(net, round_))
            if round_ == 3:
                # other probabilities replace those in the file
                vocab.compute_probs({w: 1 + (3 * i) % 7 for i, w in enumerate(vocab.id_to_word)})
                ctx.count('new_probs')
            save(net, path)
            ctx.step(2)
            back = Network.from_file(path)
            same_vocabulary(vocab, back.vocabulary)
            same_architecture(net.architecture, back.architecture)
            same_values(values(net), values(back), 'reloaded')
            if round_ == 2:
                ids, mask = netlib.matrix(netlib.histories(range(vocab.num_shortlist_words()), case['depth']))
                class_ids, _ = vocab.get_class_memberships(ids)
                a = netlib.output_function(net)(ids, class_ids, mask)
                b = netlib.output_function(back)(ids, class_ids, mask)
                expect(numpy.array_equal(a, b), 'predictions of the reloaded model differ')
                text_ids, text_mask = netlib.matrix([[0, i] for i in range(vocab.num_words())])
                for shortlist in (True, False):
                    x = netlib.score_batch(netlib.scorer(net, shortlist), vocab, text_ids, text_mask)
                    y = netlib.score_batch(netlib.scorer(back, shortlist), back.vocabulary, text_ids, text_mask)
                    expect(numpy.allclose(numpy.array(x, dtype=float), numpy.array(y, dtype=float), rtol=1e-10,
                                          atol=0, equal_nan=True), 'scores of the reloaded model differ')
            # reading a model and writing it to another file gives the same model again
            if round_ == 1:
                second = path_for()
                save(back, second)
                third = Network.from_file(second)
                same_vocabulary(vocab, third.vocabulary)
                same_architecture(net.architecture, third.architecture)
                same_values(values(net), values(third), 'second generation')
                os.unlink(second)
            ctx.state('roundtrip', case['arch'], case['vocab'], round_)
        os.unlink(path)
        ctx.outcome('roundtrip', case['arch'], case['vocab'])
        ctx.count('roundtrip')
        ctx.count('overwrite')
        ctx.count('many_inputs', case['arch'] == 'many-inputs')
        ctx.count('many_layers', case['arch'] == 'many-layers')
        ctx.count('unicode', case['vocab'] == 'unicode')
        ctx.count('oos', vocab.num_words() > vocab.num_shortlist_words())
        return
    if case['kind'] == 'ops':
        nets = netlib.cached(('p06', case['arch']),
                             lambda: (build(case['arch'], 'classes', 1), build(case['arch'], 'classes', 99)))
        net, other = nets
        netlib.set_params(net, netlib.param_values(net, 1))
        netlib.set_params(other, netlib.param_values(other, 99))
        current, files, counter = netlib.param_values(net, 1), {}, 1
        paths = {'A': path_for('a'), 'B': path_for('b')}
        for op in case['ops']:
            ctx.step()
            if op == 'change':
                counter += 1
                current = netlib.param_values(net, counter)
                netlib.set_params(net, current)
            elif op.startswith('save'):
                save(net, paths[op[-1]])
                files[op[-1]] = current
            elif op.startswith('load'):
                with h5py.File(paths[op[-1]], 'r') as state:
                    other.set_state(state)
                same_values(files[op[-1]], values(other), 'loaded ' + op[-1])
                ctx.count('loaded_into_other')
                # the other network continues the history
                nets = (nets[1], nets[0])
                net, other = nets
                current = files[op[-1]]
            else:
                back = Network.from_file(paths[op[-1]])
                same_values(files[op[-1]], values(back), 'rebuilt from ' + op[-1])
            same_values(current, values(net), 'after ' + op)
            ctx.state('ops', case['arch'], counter, tuple(sorted((k, float(sum(v.sum() for v in f.values())))
                                                                 for k, f in files.items())), op)
        for path in paths.values():
            if os.path.exists(path):
                os.unlink(path)
        ctx.outcome('ops', case['arch'], tuple(case['ops']))
        return
    if case['kind'] == 'missing':
        path = path_for()
        net = build(case['arch'], 'classes', 1)
        save(net, path)
        items = []
        with h5py.File(path, 'r+') as state:
            def visit(name, item):
                optional = name.endswith('unigram_probs') or name.endswith('/devices') or \
                    name in ('architecture/layers', 'layers') and False
                if isinstance(item, h5py.Dataset) and not optional:
                    items.append(('item', name))
                elif name in ('vocabulary', 'architecture', 'layers', 'architecture/inputs', 'architecture/layers'):
                    items.append(('item', name))
            state.visititems(visit)
            items.append(('attr', 'architecture', 'output_layer'))
            items.sort()
            _LAST['done'] = case['index'] >= len(items)
            if _LAST['done']:
                os.unlink(path)
                return
            item = items[case['index']]
            if item[0] == 'item':
                del state[item[1]]
            else:
                del state[item[1]].attrs[item[2]]
        ctx.step(2)
        for how in ('from_file', 'set_state'):
            if how == 'set_state' and item[1].startswith('vocabulary'):
                continue
            try:
                if how == 'from_file':
                    Network.from_file(path)
                else:
                    fresh = netlib.cached(('p06m', case['arch']), lambda: build(case['arch'], 'classes', 3))
                    with h5py.File(path, 'r') as state:
                        fresh.set_state(state)
            except Exception:
                continue
            raise Violation('a model file without {} is accepted by {}'.format(item[1:], how))
        os.unlink(path)
        ctx.count('missing_rejected')
        ctx.state('missing', case['arch'], item)
        return
    if case['kind'] == 'vocabulary':
        # a vocabulary is saved over another one of the same numbers of words and classes
        import io
        from theanolm import Vocabulary
        path, last = path_for('v'), None
        for index in (case['i'], case['j'], case['i']):
            text, oos = VOCABULARIES[index]
            vocab = Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=oos)
            vocab.compute_probs({w: 1 + (5 * k + index) % 7 for k, w in enumerate(vocab.id_to_word)})
            sizes = (vocab.num_words(), vocab.num_shortlist_words(), vocab.num_classes())
            if last is not None and sizes != last:
                break
            with h5py.File(path, 'a') as state:
                vocab.get_state(state)
            with h5py.File(path, 'r') as state:
                same_vocabulary(vocab, Vocabulary.from_state(state))
            ctx.count('vocabulary_over', last is not None)
            last = sizes
            ctx.step(2)
        os.unlink(path)
        ctx.state('vocabulary', case['i'], case['j'])
        return
    # a state of architecture i is offered to a network of architecture j
    variants = FAMILIES[case['family']]
    first = netlib.cached(('p06v', case['family'], case['i']), lambda: build(variants[case['i']], 'small', 1))
    second = netlib.cached(('p06w', case['family'], case['j']), lambda: build(variants[case['j']], 'small', 2))
    netlib.set_params(second, netlib.param_values(second, 2))
    path = path_for()
    save(first, path)
    ctx.step(2)
    try:
        with h5py.File(path, 'r') as state:
            second.set_state(state)
    except Exception:
        expect(case['i'] != case['j'], 'a state of the same architecture is rejected')
        ctx.count('other_rejected')
    else:
        expect(case['i'] == case['j'], 'a network accepts the state of another architecture: {}', [
            (a, b) for a, b in zip(variants[case['i']].split('\n'), variants[case['j']].split('\n')) if a != b])
        same_values(values(first), values(second), 'restored')
    os.unlink(path)
    ctx.state('other', case['family'], case['i'], case['j'])
    ctx.outcome('other', case['i'] == case['j'])
