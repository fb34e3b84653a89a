"""P30: architecture descriptions, all topologies of small networks and all single corruptions of a description."""

import itertools
import math

import numpy

from mc import cli, netlib, nnref
from mc.core import expect

PROPERTY = 'P30'
TITLE = 'Architecture descriptions build the described network'
MUST_COVER = ('built', 'rejected', 'two_inputs', 'skip_connection', 'concatenation', 'default_size', 'default_activation', 'relu',
              'leakyrelu', 'comment', 'blank', 'indented', 'field_order', 'devices', 'output_size_ignored', 'unused_layer', 'state',
              'package', 'missing_field', 'missing_reference', 'unknown_type', 'unknown_element', 'malformed', 'size_mismatch',
              'unknown_activation', 'hsoftmax', 'twice_used', 'repeated_input', 'odd_names')
ASSUMPTIONS = ['descriptions are read from regular files', 'layer definitions and parameter names as in P29 (mc/nnref.py)',
               'a description is rejected by an exception other than a programming error (NameError, AttributeError, '
               'UnboundLocalError, AssertionError); fields with names that no layer uses are ignored; names are unique']
BOUNDS = {
    'quick': 'every chain of 0-2 hidden layers of 8 types, each reading any one earlier layer, and every pair of earlier layers for one '
             'layer, with sizes given or omitted, both output layers (a fifth of the combinations of two); 5 textual variants of '
             'each; every single corruption (removal, unknown value, bad reference) of 4 descriptions',
    'thorough': 'all of those combinations, and 3 hidden layers of 4 types',
}
TYPES = ('fc', 'tanh', 'lstm', 'gru', 'highway', 'glu', 'add', 'dropout')


def layer(type_, name, inputs, size=None, activation=None, extra=()):
    return {'element': 'layer', 'type': type_, 'name': name, 'inputs': list(inputs), 'size': size, 'activation': activation,
            'extra': [list(e) for e in extra]}


def base(inputs):
    result = [{'element': 'input', 'type': t, 'name': 'in_' + t} for t in inputs]
    for i, t in enumerate(inputs):
        result.append(layer('projection', 'p_' + t, ['in_' + t], 2 + i))
    return result


def allowed(type_, inputs, size, sizes):
    total = sum(sizes[i] for i in inputs)
    if type_ == 'glu' and len(inputs) > 1:
        return False
    if type_ in ('highway', 'dropout') and size not in (None, total):
        return False
    return True


def output_size(type_, inputs, size, sizes):
    if size is not None:
        return size
    return sizes[inputs[0]] if type_ == 'add' else sum(sizes[i] for i in inputs)


def networks(deep):
    """Lists of elements, without the output layer."""
    count = 0
    for inputs in (('word',), ('class',), ('word', 'class')):
        first = base(inputs)
        sizes = {'p_' + t: 2 + i for i, t in enumerate(inputs)}
        yield first
        names = list(sizes)
        sources = [(n,) for n in names] + [(a, b) for a in names for b in names]
        for type_, source, size in itertools.product(TYPES, sources, (None, 3)):
            if not allowed(type_, source, size, sizes):
                continue
            count += 1
            activation = (None, 'relu', 'leakyrelu', 'tanh')[count % 4] if type_ in ('fc', 'lstm', 'highway') else None
            one = layer(type_, 'h1', source, size, activation)
            yield first + [one]
            one_sizes = dict(sizes, h1=output_size(type_, source, size, sizes))
            if len(source) > 1 and not deep:
                continue
            earlier = names + ['h1']
            for type2, source2, size2 in itertools.product(TYPES, [(n,) for n in earlier] + [('h1', names[0]), (names[-1], 'h1')],
                                                           (None, 4)):
                if not allowed(type2, source2, size2, one_sizes):
                    continue
                count += 1
                if not deep and count % 5:
                    continue
                activation = (None, 'relu', 'leakyrelu', 'tanh')[count % 4] if type2 in ('fc', 'lstm', 'highway') else None
                two = layer(type2, 'h2', source2, size2, activation)
                yield first + [one, two]
                if deep and type_ in ('fc', 'gru') and size is None:
                    two_sizes = dict(one_sizes, h2=output_size(type2, source2, size2, one_sizes))
                    for type3, source3 in itertools.product(('fc', 'add', 'lstm', 'highway'),
                                                            (('h1',), ('h2',), ('h2', 'h1'), (names[0], 'h2'))):
                        if allowed(type3, source3, None, two_sizes):
                            yield first + [one, two, layer(type3, 'h3', source3)]


def renamed(elements):
    """The same network; names are arbitrary words."""
    names = {'h1': 'h=1', 'p_word': 'p_word=input=2', 'in_class': 'in#class', 'in_word': 'type=class'}
    return [dict(e, name=names.get(e['name'], e['name']), **({'inputs': [names.get(n, n) for n in e['inputs']]} if 'inputs' in e else {}))
            for e in elements]


def complete(deep):
    every = []
    for i, elements in enumerate(networks(deep)):
        last = elements[-1]['name']
        inputs = [last]
        if i % 5 == 3:
            inputs = [elements[-2]['name'], last] if elements[-2]['element'] == 'layer' else [last, last]
        if i % 7 == 6 and elements[-2]['element'] == 'layer':
            inputs = [elements[-2]['name']]
        elements = elements + [layer('hsoftmax' if i % 4 == 1 else 'softmax', 'out', inputs, 77 if i % 6 == 5 else None)]
        every.append(renamed(elements) if i % 3 == 2 else elements)
    return every


def units(tier, seed):
    deep = tier == 'thorough'
    every = complete(deep)
    parts = 256 if deep else 64
    result = [{'kind': 'build', 'networks': every[part::parts], 'first': part, 'parts': parts} for part in range(parts)]
    result += [{'kind': 'reject', 'index': i} for i in range(len(REJECT_BASES))]
    result.append({'kind': 'package'})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'build':
        for i, elements in enumerate(unit['networks']):
            ctx.run({'kind': 'build', 'elements': elements, 'style': (unit['first'] + i) % 5})
    elif unit['kind'] == 'package':
        for name in ('lstm300', 'lstm1500'):
            ctx.run({'kind': 'package', 'name': name})
    else:
        for text, kind in corruptions(REJECT_BASES[unit['index']]):
            ctx.run({'kind': 'reject', 'text': text, 'what': kind})


def write(elements, style):
    """The description in one of five textual styles."""
    lines = []
    if style in (1, 4):
        lines += ['# network', '']
    for i, e in enumerate(elements):
        fields = ['type=' + e['type'], 'name=' + e['name']]
        if e['element'] == 'layer':
            rest = ['input=' + n for n in e['inputs']]
            if e['size'] is not None:
                rest.append('size={}'.format(e['size']))
            if e['activation'] is not None:
                rest.append('activation=' + e['activation'])
            if style == 3:
                # order of the fields does not matter, except among the inputs
                fields = rest + fields[::-1]
            elif style == 4:
                fields = fields[:1] + rest[-1:] + fields[1:] + rest[:-1] if len(rest) > len(e['inputs']) else fields + rest
            else:
                fields = fields + rest
        elif style == 3:
            fields.reverse()
        separator = {2: '\t'}.get(style, ' ')
        line = separator.join([e['element']] + fields)
        if style == 2:
            line = '  ' + line + '  '
        lines.append(line)
        if style == 1:
            lines += ['', '   ', '#layer type=fc name=no input=nothing', '  # ' + line, '\t#layer'][i % 5:]
    return '\n'.join(lines) + ('' if style == 3 else '\n')


def expected_shapes(elements, vocab):
    sizes = {}
    shapes = {}
    for e in elements:
        if e['element'] == 'input':
            sizes[e['name']] = vocab.num_shortlist_words() if e['type'] == 'word' else vocab.num_classes()
            continue
        n, t = e['name'], e['type']
        total = sum(sizes[i] for i in e['inputs'])
        size = output_size(t, e['inputs'], e['size'], sizes)
        if e is elements[-1]:
            size = vocab.num_classes()
        p = 'layers/' + n + '/'
        if t == 'projection':
            shapes[p + 'W'] = total, size
        elif t in ('fc', 'tanh', 'softmax'):
            shapes[p + 'input/W'], shapes[p + 'input/b'] = (total, size), (size,)
        elif t in ('lstm', 'gru'):
            k = {'lstm': 4, 'gru': 3}[t]
            shapes[p + 'layer_input/W'], shapes[p + 'layer_input/b'] = (total, k * size), (k * size,)
            shapes[p + 'step_input/W'] = size, k * size
        elif t == 'highway':
            shapes[p + 'input/W'], shapes[p + 'input/b'] = (total, 2 * size), (2 * size,)
        elif t == 'glu':
            shapes[p + 'input/W'], shapes[p + 'input/b'] = (5, total, 2 * size), (2 * size,)
        elif t == 'add':
            for i, source in enumerate(e['inputs']):
                if sizes[source] != size:
                    shapes[p + 'input{}/W'.format(i)] = sizes[source], size
        elif t == 'hsoftmax':
            first = int(math.ceil(math.sqrt(size)))
            second = int(math.ceil(size / first))
            shapes[p + 'input/W'], shapes[p + 'input/b'] = (total, first), (first,)
            shapes[p + 'level1/W'], shapes[p + 'level1/b'] = (first, total, second), (first, second)
        sizes[n] = size
    return shapes


def run_case(case, ctx):
    {'build': run_build, 'reject': run_reject, 'package': run_package}[case['kind']](case, ctx)


def read(text):
    from theanolm.network import Architecture
    path = cli.write('arch', text)
    with open(path, 'rt', encoding='utf-8') as handle:
        return Architecture.from_description(handle)


def check_fields(architecture, elements, what):
    inputs = [e for e in elements if e['element'] == 'input']
    layers = [e for e in elements if e['element'] == 'layer']
    expect([(d['type'], d['name']) for d in architecture.inputs] == [(e['type'], e['name']) for e in inputs],
           'inputs {}: {}', architecture.inputs, what)
    expect(len(architecture.layers) == len(layers), '{} layers: {}', len(architecture.layers), what)
    for d, e in zip(architecture.layers, layers):
        got = d['type'], d['name'], list(d['inputs']), d.get('size'), d.get('activation')
        want = e['type'], e['name'], e['inputs'], e['size'], e['activation']
        expect(tuple(got) == tuple(want), 'layer {} instead of {}: {}', got, want, what)
    expect(architecture.output_layer == layers[-1]['name'], 'output layer {}: {}', architecture.output_layer, what)


def run_build(case, ctx):
    import h5py
    import theano
    from theanolm.network import Architecture, Network
    elements = case['elements']
    text = write(elements, case['style'])
    what = text.replace('\n', ' / ')
    vocab = netlib.vocabulary('words')
    architecture = read(text)
    check_fields(architecture, elements, what)
    prior = numpy.arange(1.0, 1.0 + vocab.num_classes())
    prior /= prior.sum()
    net = Network(architecture, vocab, class_prior_probs=prior if case['style'] == 0 else None)
    ctx.step()
    shapes = expected_shapes(elements, vocab)
    got = {p: tuple(v.get_value().shape) for p, v in net.get_variables().items()}
    expect(got == shapes, 'parameters {} instead of {}: {}', sorted(got.items()), sorted(shapes.items()), what)
    for path, variable in net.get_variables().items():
        expect(numpy.isfinite(variable.get_value()).all(), 'initial value of {} is not finite: {}', path, what)
    if case['style'] == 0 and elements[-1]['type'] == 'softmax':
        bias = net.get_variables()['layers/out/input/b'].get_value()
        expect(numpy.allclose(bias, numpy.log(prior), atol=1e-6), 'initial output bias {}: {}', bias, what)
    # the connections: output of the described network with arbitrary parameters
    values = netlib.param_values(net)
    netlib.set_params(net, values)
    unused = [w for w, v in net.get_variables().items()]
    function = theano.function([net.input_word_ids, net.input_class_ids, net.mask], net.output_probs(),
                               givens=[(net.is_training, numpy.int8(0))], on_unused_input='ignore')
    ids, mask = netlib.matrix([[0, 5, 2], [8, 1]])
    want = nnref.evaluate(write(elements, 0), values, ids, vocab.word_id_to_class_id[ids], mask, vocab.num_classes())
    out = function(ids, vocab.word_id_to_class_id[ids], mask)
    ctx.step()
    expect(out.shape == want.shape, 'output shape {}: {}', out.shape, what)
    error = numpy.abs(out - want)[mask == 1].max()
    expect(error < 1e-8, 'output differs from the described network by {}: {}', error, what)
    # the description survives in the model file
    if case['style'] in (1, 3):
        path = cli.scratch('arch.h5')
        with h5py.File(path, 'w') as state:
            architecture.get_state(state)
        with h5py.File(path, 'r') as state:
            again = Architecture.from_state(state)
            check_fields_again = [dict(d, inputs=list(d['inputs'])) for d in again.layers]
        expect([(d['type'], d['name']) for d in again.inputs] == [(d['type'], d['name']) for d in architecture.inputs],
               'inputs {} are stored: {}', again.inputs, what)
        for d, e in zip(check_fields_again, [e for e in elements if e['element'] == 'layer']):
            expect((d['type'], d['name'], d['inputs']) == (e['type'], e['name'], e['inputs']) and d.get('activation') == e['activation'],
                   'layer {} is stored: {}', d, what)
            expect(e['size'] is None or int(d['size']) == e['size'], 'layer {} is stored: {}', d, what)
        expect(again.output_layer == 'out', 'output layer {} is stored: {}', again.output_layer, what)
        ctx.count('state')
    del unused
    layers = [e for e in elements if e['element'] == 'layer']
    used = [i for e in layers for i in e['inputs']]
    ctx.state(what)
    ctx.outcome(numpy.round(out, 9).tolist())
    ctx.count('built')
    ctx.count('two_inputs', sum(e['element'] == 'input' for e in elements) == 2)
    ctx.count('concatenation', any(len(e['inputs']) > 1 and e['type'] != 'add' for e in layers))
    ctx.count('repeated_input', any(len(set(e['inputs'])) < len(e['inputs']) for e in layers))
    ctx.count('twice_used', any(used.count(i) > 1 for i in used))
    ctx.count('skip_connection', any('p_word' in e['inputs'] for e in layers if e['name'] == 'h2'))
    ctx.count('unused_layer', any(e['name'] not in used for e in layers[:-1]))
    ctx.count('default_size', any(e['size'] is None for e in layers[:-1]))
    ctx.count('default_activation', any(e['type'] == 'fc' and e['activation'] is None for e in layers))
    for name in ('relu', 'leakyrelu'):
        ctx.count(name, any(e['activation'] == name for e in layers))
    ctx.count('output_size_ignored', layers[-1]['size'] is not None)
    ctx.count('hsoftmax', layers[-1]['type'] == 'hsoftmax')
    ctx.count('comment', case['style'] in (1, 4))
    ctx.count('blank', case['style'] == 1)
    ctx.count('indented', case['style'] == 2)
    ctx.count('odd_names', any('=' in e['name'] for e in elements))
    ctx.count('field_order', case['style'] in (3, 4))


def run_package(case, ctx):
    from theanolm.network import Architecture
    architecture = Architecture.from_package(case['name'])
    ctx.step()
    expect(len(architecture.inputs) == 1 and len(architecture.layers) >= 3, 'package {}', case['name'])
    names = [d['name'] for d in architecture.inputs] + [d['name'] for d in architecture.layers]
    for i, d in enumerate(architecture.layers):
        expect(all(n in names[:i + 1] for n in d['inputs']), 'package {} layer {}', case['name'], d)
    expect(architecture.output_layer == names[-1], 'package {}', case['name'])
    # devices are listed in order
    text = write(base(['word']) + [layer('softmax', 'out', ['p_word'])], 0).rstrip('\n') + ' device=cuda1 device=cuda0\n'
    got = read(text)
    expect([d['devices'] for d in got.layers] == [[], ['cuda1', 'cuda0']], 'devices {}', [d['devices'] for d in got.layers])
    ctx.outcome(case['name'], names)
    ctx.state(case['name'])
    ctx.count('package')
    ctx.count('devices')


REJECT_BASES = [
    ['input type=word name=i', 'layer type=projection name=p input=i size=3', 'layer type=softmax name=o input=p'],
    ['input type=word name=i', 'input type=class name=j', 'layer type=projection name=p input=i size=3',
     'layer type=projection name=q input=j size=2', 'layer type=lstm name=h input=p input=q size=4',
     'layer type=dropout name=d input=h dropout_rate=0.3', 'layer type=hsoftmax name=o input=d'],
    ['input name=i type=class', 'layer name=p type=projection input=i size=3', 'layer name=h type=fc size=2 input=p activation=relu',
     'layer name=g type=highway input=h activation=tanh', 'layer name=o type=softmax input=g'],
    ['# comment', 'input type=word name=i', '', 'layer type=projection name=p input=i size=3',
     'layer type=gru name=h input=p size=2', 'layer type=add name=a input=h input=p', 'layer type=bgru name=b input=a size=4',
     'layer type=glu name=g input=b', 'layer type=softmax name=o input=g'],
]


def corruptions(lines):
    """Descriptions with one defect each, and the kind of the defect."""
    def changed(index, line):
        return '\n'.join(lines[:index] + ([line] if line is not None else []) + lines[index + 1:]) + '\n'

    elements = [(i, line.split()) for i, line in enumerate(lines) if line and not line.startswith('#')]
    for i, fields in elements:
        yield changed(i, ' '.join(['leyer'] + fields[1:])), 'unknown_element'
        yield changed(i, ' '.join(fields[1:])), 'unknown_element'
        for k in range(1, len(fields)):
            key, value = fields[k].split('=')
            without = fields[:k] + fields[k + 1:]
            if key in ('type', 'name') or key == 'input' and sum(f.startswith('input=') for f in fields) == 1:
                yield changed(i, ' '.join(without)), 'missing_field'
            yield changed(i, ' '.join(fields[:k] + [key] + fields[k + 1:])), 'malformed'
            yield changed(i, ' '.join(fields[:k + 1] + ['nonsense'] + fields[k + 1:])), 'malformed'
            if key == 'type':
                yield changed(i, ' '.join(fields[:k] + ['type=' + value + 'x'] + fields[k + 1:])), 'unknown_type'
                yield changed(i, ' '.join(fields[:k] + ['type='] + fields[k + 1:])), 'unknown_type'
            if key == 'input':
                own = [f for f in fields if f.startswith('name=')][0].split('=')[1]
                for wrong in ('nothing', own, value.upper(), value + ',' + value):
                    yield changed(i, ' '.join(fields[:k] + ['input=' + wrong] + fields[k + 1:])), 'missing_reference'
                for j, other in elements:
                    if j > i:
                        later = [f for f in other if f.startswith('name=')][0].split('=')[1]
                        yield changed(i, ' '.join(fields[:k] + ['input=' + later] + fields[k + 1:])), 'missing_reference'
            if key == 'size':
                for wrong in ('x', '', '3.5'):
                    yield changed(i, ' '.join(fields[:k] + ['size=' + wrong] + fields[k + 1:])), 'malformed'
            if key == 'activation':
                for wrong in ('sigmoid', '', 'Tanh'):
                    yield changed(i, ' '.join(fields[:k] + ['activation=' + wrong] + fields[k + 1:])), 'unknown_activation'
        if any(f in ('type=highway', 'type=dropout') for f in fields):
            yield changed(i, ' '.join(fields + ['size=9'])), 'size_mismatch'
        if i < len(lines) - 1:
            # without this element, a later one refers to nothing
            yield changed(i, None), 'missing_reference'
    yield '\n'.join(line for line in lines if not line.startswith('input')) + '\n', 'missing_reference'
    yield '\n'.join(line for line in lines if not line.startswith('layer')) + '\n', 'missing_field'
    yield '\n'.join('#' + line for line in lines) + '\n', 'missing_field'
    yield '', 'missing_field'


def run_reject(case, ctx):
    from theanolm.network import Network
    what = '{}: {}'.format(case['what'], case['text'].replace('\n', ' / '))
    ctx.step()
    try:
        Network(read(case['text']), netlib.vocabulary('words'))
    except (NameError, AttributeError, AssertionError) as e:
        expect(False, '{} is raised for {}', repr(e), what)
    except Exception as e:
        ctx.outcome(case['what'], type(e).__name__)
    else:
        expect(False, 'a description is accepted that has {}', what)
    ctx.state(what)
    ctx.count('rejected')
    ctx.count(case['what'])
