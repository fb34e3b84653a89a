"""P34: theanolm commands under every fault and pair of faults in what they are given."""

import contextlib
import gc
import gzip
import importlib.machinery
import importlib.util
import io
import itertools
import os
import sys

import numpy

from mc import cli, env, netlib
from mc.core import expect

PROPERTY = 'P34'
TITLE = 'A command that could not do its work says so'
MUST_COVER = ('succeeded', 'failed', 'score', 'decode', 'sample', 'train', 'wctool', 'pair', 'model_kept', 'no_command', 'version', 'usage')
ASSUMPTIONS = ['the command is run in this process through bin/theanolm; an exception that reaches the top is handed to sys.excepthook, as the '
               'interpreter does', 'interruption from the keyboard and network parameters that are not finite are not faults of the input']
BOUNDS = {
    'quick': 'score (3 kinds of output), decode (5 kinds), sample, train (from nothing and from a model) and wctool (3 kinds): without a fault, with every one '
             'of 15-30 faults (missing, empty, truncated, malformed or mutually inconsistent files and arguments), and every pair of faults '
             'in different arguments',
    'thorough': 'as quick, with the model file cut off at each of 40 places',
}
ARCH = """input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=softmax name=out input=p
"""
TEXT = 'a b\nc a d\nb\n'
SLF = 'VERSION=1.0\nUTTERANCE=u\nN=3 L=3\nI=0\nI=1\nI=2\nJ=0 S=0 E=1 W=a a=-1 l=-2\nJ=1 S=0 E=1 W=c a=-2 l=-1\nJ=2 S=1 E=2 W=!NULL a=0 l=0\n'
KALDI = 'u\n0 1 1 0.5,1.5,\n0 1 2 1.5,0.5,\n1 0,0,\n\n'
SYMBOLS = '<eps> 0\na 1\nc 2\n'
SCORE_OUTPUTS = ('perplexity', 'word-scores', 'utterance-scores')
DECODE_OUTPUTS = ('ref', 'trn', 'full', 'slf', 'kaldi')


# -- files ------------------------------------------------------------------------
def put(name, data):
    path = cli.scratch('p34-' + name)
    with open(path, 'wb') as handle:
        handle.write(data if isinstance(data, bytes) else data.encode('utf-8'))
    return path


def gone(name):
    path = cli.scratch('p34-gone-' + name)
    if os.path.exists(path):
        os.unlink(path)
    return path


def trained():
    """Bytes of a model that was trained for one epoch."""
    def make():
        path = gone('trained.h5')
        status, out = launch(['train', path, '--training-set', put('t.txt', TEXT), '--architecture', put('a.arch', ARCH)] + QUIET)
        expect(status == 0, 'training ends with status {}: {}', status, out)
        with open(path, 'rb') as handle:
            return handle.read()
    return netlib.cached('p34-trained', make)


def without(item):
    """A model file that lacks something."""
    import h5py
    path = put('without.h5', trained())
    with h5py.File(path, 'r+') as state:
        if isinstance(item, tuple):
            del state[item[0]].attrs[item[1]]
        else:
            del state[item]
    with open(path, 'rb') as handle:
        return handle.read()


def text_faults(name, kind):
    """[(name, function that returns a path)] of a text file."""
    suffix = name + '.txt'
    good = {'text': TEXT, 'slf': SLF, 'symbols': SYMBOLS}[kind]
    result = [('missing', lambda: gone(suffix)),
              ('bad utf-8', lambda: put(suffix, good.encode() + b'a \xff\xfe b\n')),
              ('directory', lambda: os.environ['MC_SCRATCH'])]
    if kind != 'symbols':
        result += [('cut gz', lambda: put(suffix + '.gz', gzip.compress((good * 3000).encode())[:60])),
                   ('not gz', lambda: put(suffix + '.gz', good)),
                   ('missing gz', lambda: gone(suffix + '.gz'))]
    return result


def model_faults():
    result = [('missing', lambda: gone('m.h5')), ('empty', lambda: put('m.h5', b'')), ('text', lambda: put('m.h5', TEXT * 100)),
              ('directory', lambda: os.environ['MC_SCRATCH'])]
    for part in (8, 100, 600):
        result.append(('first {} bytes'.format(part), lambda part=part: put('m.h5', trained()[:part])))
    result.append(('half', lambda: put('m.h5', trained()[:len(trained()) // 2])))
    for item in ('vocabulary', 'architecture', 'layers', 'vocabulary/words', 'vocabulary/classes', 'layers/out/input/W', 'layers/p/W',
                 ('architecture', 'output_layer')):
        result.append(('without {}'.format(item), lambda item=item: put('m.h5', without(item))))
    return result


# -- commands: argument -> (good value, faults), and how they make a command line ------
QUIET = ['--log-file', os.devnull, '--random-seed', '1', '--num-noise-samples', '1', '--max-epochs', '1', '--batch-size', '1']


def option_faults(*bad):
    return [('{}'.format(' '.join(b)), lambda b=b: list(b)) for b in bad]


def slots(command, variant):
    """[(name of the argument, good value, faults)]; every value is a path, a list of arguments, or None."""
    if command == 'score':
        return [('model', lambda: put('good.h5', trained()), model_faults()),
                ('text', lambda: put('s.txt', TEXT), text_faults('s', 'text')),
                ('output', lambda: ['--output', SCORE_OUTPUTS[variant]], option_faults(['--output', 'ppl'], ['--output'])),
                ('options', lambda: ['--log-base', '10'], option_faults(['--log-base', 'ten'], ['--log-base', '1'], ['--log-base', '-2'], ['--subwords', 'none'], ['--nonsense', '1'],
                                                                       ['--log-level', 'loud'], ['another.txt'])),
                ('file', lambda: ['--output-file', cli.scratch('p34-out')],
                 [('directory', lambda: ['--output-file', os.environ['MC_SCRATCH']]),
                  ('no directory', lambda: ['--output-file', cli.scratch('p34-no/where')])])]
    if command == 'decode':
        output = DECODE_OUTPUTS[variant % 5]
        kaldi = variant >= 5
        lattices = text_faults('l', 'slf') if not kaldi else [f for f in text_faults('l', 'slf') if 'bad' not in f[0]]
        if kaldi:
            def broken(bad):
                return lambda: put('l.lat', 'u\n' + bad + '\n1 0,0,\n\n')
            lattices += [(bad, broken(bad)) for bad in ('0 1 1 x,1.5,', '0 1 9 0.5,1.5,', '0 1 z 1,1,')]
        else:
            def broken(old, new):
                return lambda: put('l.slf', SLF.replace(old, new))
            for old, new in (('N=3 L=3', 'N=3'), ('N=3 L=3\n', ''), ('S=1 E=2', 'S=1 E=7'), ('a=-1', 'a=x'),
                             ('S=0 E=1 W=a', 'E=1 W=a'), ('J=1 S=0 E=1 W=c a=-2 l=-1\n', ''), ('I=2\n', 'I=5\n'), ('N=3', 'N=x')):
                lattices.append(('{!r} -> {!r}'.format(old, new), broken(old, new)))
        lattices.append(('second missing', lambda: [put('l.slf', KALDI if kaldi else SLF), gone('l2')]))
        result = [('model', lambda: put('good.h5', trained()), model_faults()),
                  ('lattices', lambda: put('good.lat', KALDI if kaldi else SLF), lattices),
                  ('format', lambda: ['--lattice-format', 'kaldi' if kaldi else 'slf'], option_faults(['--lattice-format', 'fst'])),
                  ('output', lambda: ['--output', output], option_faults(['--output', 'nbest'])),
                  ('options', lambda: ['--n-best', '1'], option_faults(['--n-best', 'x'], ['--beam', 'wide'], ['--nonsense'],
                                                                      ['--log-level', 'loud'], ['--num-jobs', 'x'], ['--num-jobs', '0'], ['--job', '1'],
                                                                      ['--job', '-1'], ['--n-best', '-1'], ['--log-base', '0'])),
                  ('list', lambda: [], [('missing list', lambda: ['--lattice-list', gone('list')]),
                                        ('list of missing', lambda: ['--lattice-list', put('list', gone('l3') + '\n')]),
                                        ('bad utf-8 list', lambda: ['--lattice-list', put('list', b'\xff\xfe\n')])])]
        if kaldi or output == 'kaldi':
            faults = [(n, lambda f=f: ['--kaldi-vocabulary', f()]) for n, f in text_faults('w', 'symbols')]
            faults += [('not given', lambda: []), ('no number', lambda: ['--kaldi-vocabulary', put('w', SYMBOLS + 'd\n')]),
                       ('bad number', lambda: ['--kaldi-vocabulary', put('w', SYMBOLS + 'd x\n')])]
            result.append(('symbols', lambda: ['--kaldi-vocabulary', put('good.syms', SYMBOLS)], faults))
        return result
    if command == 'sample':
        return [('model', lambda: put('good.h5', trained()), model_faults()),
                ('options', lambda: ['--num-sentences', '2'], option_faults(['--num-sentences', 'x'], ['--nonsense'], ['--sentence-length', '1.5'],
                                                                           ['--random-seed', 'x'])),
                ('file', lambda: ['--output-file', cli.scratch('p34-out')],
                 [('directory', lambda: ['--output-file', os.environ['MC_SCRATCH']]),
                  ('no directory', lambda: ['--output-file', cli.scratch('p34-no/where')])])]
    if command == 'wctool':
        def given(text, kind='classes'):
            return lambda: ['--vocabulary', put('v', text), '--vocabulary-format', kind]
        return [('text', lambda: [put('t.txt', TEXT)],
                 [(n, lambda f=f: [f()]) for n, f in text_faults('e', 'text')] +
                 [('empty', lambda: [put('e.txt', '')]), ('second missing', lambda: [put('t.txt', TEXT), gone('t2.txt')])]),
                ('vocabulary', given('a 1\nb 1\nc 2\n') if variant == 2 else lambda: [],
                 [('missing', lambda: ['--vocabulary', gone('v')]), ('twice', given('a 1\na 2\n')), ('no class', given('a 1\nb\n')),
                  ('bad class', given('a 1\nb x\n')), ('bad utf-8', given(b'a 1\n\xff 1\n')), ('bad probability', given('C x a\n', 'srilm-classes')),
                  ('unknown format', given('a\n', 'list'))] +
                 ([] if variant == 2 else [('no classes', lambda: ['--num-classes', '0']), ('negative', lambda: ['--num-classes', '-1']),
                                           ('bad number', lambda: ['--num-classes', 'many'])])),
                ('method', lambda: ['--method', ('bigram-numpy', 'bigram-theano', 'bigram-numpy')[variant]],
                 option_faults(['--method', 'trigram'], ['--method'])),
                ('output', lambda: ['--output-format', ('classes', 'srilm-classes')[variant % 2]],
                 option_faults(['--output-format', 'words'], ['--nonsense'], ['--log-level', 'loud'], ['--output-frequency', 'x'])),
                ('file', lambda: ['--output-file', cli.scratch('p34-out')],
                 [('directory', lambda: ['--output-file', os.environ['MC_SCRATCH']]),
                  ('no directory', lambda: ['--output-file', cli.scratch('p34-no/where')])])]
    # train
    if variant == 0:
        model = ('model', lambda: gone('new.h5'), [f for f in model_faults() if f[0] in ('text', 'directory', 'first 100 bytes', 'half')] +
                 [('no directory', lambda: cli.scratch('p34-no/model.h5'))])
    else:
        model = ('model', lambda: put('good.h5', trained()), [f for f in model_faults() if f[0] not in (
            'missing', 'empty', 'without vocabulary', 'without layers', 'without architecture')] +
            [('without {}'.format(i), lambda i=i: put('m.h5', without(i))) for i in ('optimizer',)])
    archs = [('missing', lambda: gone('a.arch')), ('empty', lambda: put('b.arch', '')),
             ('bad utf-8', lambda: put('b.arch', ARCH.encode() + b'# \xff\n'))]
    for old, new in (('size=2', 'size=x'), ('type=softmax', 'type=hardmax'), ('input=p\n', 'input=q\n'), ('layer type=projection', 'type=projection'),
                     ('input=wi', '')) + ((('size=2', 'size=3'), ('name=p ', 'name=q '), ('type=softmax', 'type=hsoftmax')) if variant else ()):
        archs.append(('{} -> {}'.format(old, new), lambda old=old, new=new: put('b.arch', ARCH.replace('input=p\n', 'input=q\n').replace('name=p ', 'name=q ')
                                                                               if old == 'name=p ' else ARCH.replace(old, new, 1))))
    texts = [('missing', lambda: gone('t.txt')), ('empty', lambda: put('e.txt', '')), ('blank', lambda: put('e.txt', '\n  \n')),
             ('bad utf-8', lambda: put('e.txt', TEXT.encode() + b'a \xff\xfe b\n')),
             ('cut gz', lambda: put('e.txt.gz', gzip.compress((TEXT * 3000).encode())[:60])), ('not gz', lambda: put('e.txt.gz', TEXT)),
             ('directory', lambda: os.environ['MC_SCRATCH']), ('second missing', lambda: [put('t.txt', TEXT), gone('t2.txt')])]
    if variant:
        # the vocabulary comes from the model
        vocab = []
    else:
        def given(text, *more):
            return lambda: ['--vocabulary', put('v', text)] + (list(more) or ['--vocabulary-format', 'words'])
        vocab = [('missing', lambda: ['--vocabulary', gone('v'), '--vocabulary-format', 'words']), ('twice', given('a\nb\na\n')),
                 ('two words', given('a\nb c\n')), ('no class', given('a 1\nb\n', '--vocabulary-format', 'classes')),
                 ('bad class', given('a 1\nb x\n', '--vocabulary-format', 'classes')), ('bad utf-8', given(b'a\n\xff\n')),
                 ('bad probability', given('C x a\n', '--vocabulary-format', 'srilm-classes')),
                 ('unknown format', given('a\n', '--vocabulary-format', 'list'))]
    return [model, ('text', lambda: put('t.txt', TEXT), texts), ('arch', lambda: put('a.arch', ARCH), archs),
            ('vocabulary', lambda: [], vocab),
            ('valid', lambda: ['--validation-file', put('valid.txt', 'a\nb c\n')],
             [('missing', lambda: ['--validation-file', gone('v.txt')]), ('empty', lambda: ['--validation-file', put('v.txt', '')]),
              ('not gz', lambda: ['--validation-file', put('v.txt.gz', TEXT)])]),
            ('options', lambda: ['--learning-rate', '0.5'], option_faults(
                ['--weights', '1', '1', '1'], ['--sampling', '1', '1', '1'], ['--num-noise-samples', '50'], ['--optimization-method', 'newton'],
                ['--cost', 'hinge'], ['--learning-rate', 'x'], ['--stopping-criterion', 'never'], ['--nonsense'], ['--log-level', 'loud'],
                ['--noise-distribution', 'normal'], ['--noise-sharing', 'word'], ['--batch-size', '0'], ['--sequence-length', '0'],
                ['--sequence-length', '1']) + ([] if variant else option_faults(['--num-classes', '-1'])))]


def line(command, values):
    if command == 'score':
        return [values['model'], values['text']] + values['output'] + values['options'] + values['file']
    if command == 'decode':
        lattices = values['lattices'] if isinstance(values['lattices'], list) else [values['lattices']]
        # the options before the list of positional arguments
        rest = [values[k] for k in ('format', 'output', 'options', 'list', 'symbols') if k in values]
        return [values['model'], '--lattices'] + lattices + [a for r in rest for a in r]
    if command == 'sample':
        return [values['model']] + values['options'] + values['file']
    if command == 'wctool':
        # the second vocabulary or number of classes counts
        return ['--training-set'] + values['text'] + ['--num-classes', '2', '--log-file', os.devnull] + values['vocabulary'] + values['method'] + \
            values['output'] + values['file']
    texts = values['text'] if isinstance(values['text'], list) else [values['text']]
    return [values['model'], '--training-set'] + texts + ['--architecture', values['arch']] + QUIET + values['vocabulary'] + \
        values['valid'] + values['options']


# -- running ------------------------------------------------------------------------
def program(name='theanolm'):
    def make():
        path = os.path.join(env.REPO, 'bin', name)
        loader = importlib.machinery.SourceFileLoader(name + '_program', path)
        module = importlib.util.module_from_spec(importlib.util.spec_from_loader(name + '_program', loader))
        loader.exec_module(module)
        return module
    return netlib.cached('p34-program-' + name, make)


def launch(argv):
    """Exit status and standard output of the program."""
    module = program('wctool' if argv[:1] == ['wctool'] else 'theanolm')
    raw = cli.Unclosed()
    out = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    saved = sys.argv, sys.excepthook, sys.getrecursionlimit()
    sys.argv = (['theanolm'] if argv[:1] != ['wctool'] else []) + [str(a) for a in argv]
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                try:
                    module.main()
                except SystemExit:
                    raise
                except Exception:
                    status = 1
                    sys.excepthook(*sys.exc_info())
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.argv, sys.excepthook = saved[:2]
        sys.setrecursionlimit(saved[2])
    gc.collect()
    out.flush()
    return status, raw.getvalue().decode('utf-8', 'replace')


def content(path):
    import h5py
    result = {}
    with h5py.File(path, 'r') as state:
        def visit(name, item):
            for key, value in item.attrs.items():
                result[name, key] = numpy.asarray(value).tolist()
            if isinstance(item, h5py.Dataset):
                result[name] = numpy.asarray(item[()]).tolist()
        state.visititems(visit)
    return result


COMMANDS = [('score', v) for v in range(3)] + [('decode', v) for v in range(10)] + [('sample', 0), ('train', 0), ('train', 1)] + [('wctool', v) for v in range(3)]


def units(tier, seed):
    result = []
    for command, variant in COMMANDS:
        parts = 8 if command == 'train' else 2
        result += [{'command': command, 'variant': variant, 'part': p, 'parts': parts} for p in range(parts)]
    result.sort(key=lambda u: u['command'] != 'train')
    return result + [{'command': None}]


def explore(unit, ctx):
    if unit['command'] is None:
        for argv in ([], ['version'], ['versions'], ['score'], ['train'], ['decode'], ['sample'], ['wctool'], ['--version'], ['train', 'x'], ['score', 'x']):
            ctx.run({'argv': argv})
        return
    table = slots(unit['command'], unit['variant'])
    single = [[(i, j)] for i, (_, _, faults) in enumerate(table) for j in range(len(faults))]
    pairs = [a + b for a, b in itertools.combinations(single, 2) if a[0][0] != b[0][0]]
    base = dict((k, unit[k]) for k in ('command', 'variant'))
    if ctx.tier == 'thorough' and not (unit['command'] == 'train' and unit['variant'] == 0) and unit['part'] == 0:
        for cut in range(40):
            ctx.run(dict(base, faults=[], cut=cut))
    for number, faults in enumerate([[]] + single + pairs):
        if number % unit['parts'] == unit['part']:
            ctx.run(dict(base, faults=[list(f) for f in faults]))


def run_case(case, ctx):
    if 'argv' in case:
        return run_usage(case, ctx)
    command, variant = case['command'], case['variant']
    table = slots(command, variant)
    values, names = {}, []
    for i, (name, good, faults) in enumerate(table):
        chosen = [j for k, j in case['faults'] if k == i]
        values[name] = faults[chosen[0]][1]() if chosen else good()
        if chosen:
            names.append('{}: {}'.format(name, faults[chosen[0]][0]))
    kept = None
    if 'cut' in case:
        values['model'] = put('m.h5', trained()[:1 + len(trained()) * case['cut'] // 40])
        names.append('model: part {} of 40'.format(case['cut']))
    model = values.get('model')
    if command == 'train' and variant == 1 and 'cut' not in case and not any(i == 0 for i, _ in case['faults']):
        kept = content(model)
    argv = [command] + line(command, values)
    status, out = launch(argv)
    ctx.step()
    what = '{} {} with {}'.format(command, variant, names or 'nothing wrong')
    if not names:
        expect(status == 0, 'status {} of {}: {}', status, what, out[-300:])
        ctx.count('succeeded')
    else:
        expect(status != 0, 'status 0 of {}: {}', what, out[-300:])
        ctx.count('failed')
        if kept is not None:
            now = content(model)
            expect(now == kept, 'the model file has changed in {}: {}', what, sorted(str(k) for k in set(kept) | set(now)
                                                                                  if kept.get(k) != now.get(k))[:5])
            ctx.count('model_kept')
    ctx.count(command)
    ctx.count('pair', len(names) > 1)
    ctx.state(what)
    ctx.outcome(what, status != 0)


def run_usage(case, ctx):
    import theanolm
    status, out = launch(case['argv'])
    ctx.step()
    if not case['argv']:
        expect(status == 0 and 'usage' in out and all(c in out for c in ('train', 'score', 'decode', 'sample', 'version')),
               'without a command, the status is {} and the output {}', status, out)
        ctx.count('no_command')
    elif case['argv'] == ['version']:
        expect(status == 0 and out.splitlines()[0] == 'TheanoLM ' + theanolm.__version__, 'version: status {} output {}', status, out)
        ctx.count('version')
    else:
        expect(status != 0, 'status 0 for the arguments {}', case['argv'])
        ctx.count('usage')
    ctx.state(tuple(case['argv']))
    ctx.outcome(tuple(case['argv']), status)
