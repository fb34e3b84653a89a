"""P37: every way of supplying files to a command, against plain files given by absolute paths in a UTF-8 locale."""

import contextlib
import gc
import gzip
import io
import itertools
import os
import shutil
import sys

import numpy

from mc import cli, p34_faults, p35_diagnostics, precision
from mc.core import expect

PROPERTY = 'P37'
TITLE = 'Files mean the same however they are supplied'
MUST_COVER = ('train', 'score', 'decode', 'sample', 'wctool', 'gz', 'members', 'stdin', 'implicit', 'stdout', 'ascii', 'relative', 'odd', 'moved', 'continued',
              'list', 'archive', 'single', 'words', 'classes', 'srilm-classes')
ASSUMPTIONS = ['the same random seed; command line arguments and standard streams are passed as in the program, within the process',
               'names of files themselves are encodable in the locale', 'the contents of the log are not specified']
BOUNDS = {
    'quick': 'every combination of ways to supply the inputs (plain, compressed in one or two members, standard input by "-" or by '
             'default: a redirected file for score, a pipe otherwise) x locale (UTF-8, ASCII) x vocabulary format (train), kind of output '
             '(score, decode), destination (plain, compressed, standard output; score, sample, wctool); paths (absolute, relative, with blanks, '
             'non-ASCII letters and misleading suffixes) and the rest in turn; text, words, class names, layer names and utterance names with '
             'letters of one to four bytes; histories: trained, the model file alone moved elsewhere, then trained further, scored with, '
             'decoded with and sampled from, in alternating locales',
    'thorough': 'the full product',
}
UTF8, ASCII = 'utf-8', 'ascii'
LOCALES = UTF8, ASCII
PLACES = ('absolute', 'relative', 'odd')
TEXT = 'ä b \u65e5\u672c d\nb\nd \U0001f600 ä f ö\n\u65e5\u672c \u65e5\u672c\n\nf d \U0001f600\nö b ä\n' * 3
OTHER = 'b ö \u65e5\u672c\nд\u0435 d ä\n'
VALID = 'ä \u65e5\u672c f\nö ö \u0435d b\n'
SCORED = 'ä b ö\n\n\u65e5\u672c \u0445 d <unk>\nb \u017e\nf \U0001f600 d \u65e5\u672c b ä\n'
WORDS = ['ä', 'b', '\u65e5\u672c', 'd', '<unk>', '\U0001f600', 'f']
VOCABULARIES = {
    'words': ''.join(w + '\n' for w in WORDS),
    'classes': 'ä 1\nö 1\n\u65e5\u672c 5\nb 1\nd 5\n',
    'srilm-classes': 'LUOKKA-Ä 0.25 ä\nLUOKKA-Ä 0.5 ö\nLUOKKA-Ä 0.25 b\n\u7c7b 0.75 \u65e5\u672c\n\u7c7b 0.25 \U0001f600\n',
    None: None,
}
ARCHS = {
    'plain': """
# ensimmäinen
input type=class name=syöte
layer type=projection name=\u5c42 input=syöte size=2
layer type=softmax name=ulos input=\u5c42
""",
    'lstm': """
input type=word name=wi
layer type=projection name=p input=wi size=2
layer type=lstm name=ä input=p size=2
layer type=softmax name=out input=ä
""",
}
KALDI = ['<eps>', '\u65e5\u672c', 'd', 'ä', '\u017e', 'ö', 'b']
OUTPUTS = {'score': ('perplexity', 'word-scores', 'utterance-scores'), 'decode': ('ref', 'trn', 'full', 'slf', 'kaldi')}


# -- what is enumerated -----------------------------------------------------------
def jobs(tier):
    """{'command', 'roles': {role: kind}, 'out': kind, 'place', 'locale', ...}"""
    deep = tier == 'thorough'
    turns = {}

    def some(values, name):
        """All values, or the next one."""
        if deep:
            return values
        turns[name] = turns.get(name, -1) + 1
        return [values[turns[name] % len(values)]]
    result = []
    variants = [(None, 'plain'), ('words', 'lstm'), ('classes', 'plain'), ('srilm-classes', 'plain')]
    every = list(itertools.product(('plain', 'gz', 'members'), ('plain', 'gz'), ('plain', 'gz')))
    for index, (vocab, arch) in enumerate(itertools.product(VOCABULARIES, ARCHS) if deep else variants):
        for locale in LOCALES:
            for kinds in every if index == 0 or deep else [every[index], every[-1 - index], every[5]]:
                for place in some(PLACES, 'train'):
                    result.append({'command': 'train', 'vocab': vocab, 'arch': arch, 'roles': dict(zip(('text', 'other', 'valid'), kinds)),
                                   'place': place, 'locale': locale})
    for locale, text, out, output in itertools.product(LOCALES, ('plain', 'gz', 'members', 'stdin'), ('plain', 'gz', 'stdout'), OUTPUTS['score']):
        for place, vocab in itertools.product(some(PLACES, 'score'), some(('words', 'classes', None), 'score vocabulary')):
            result.append({'command': 'score', 'vocab': vocab, 'arch': 'plain', 'output': output, 'roles': {'text': text}, 'out': out, 'place': place,
                           'locale': locale})
    sources = [('slf', {'lattice': k}) for k in ('plain', 'gz', 'members')]
    sources += [('list', {'list': k, 'lattice': ('plain', 'gz')[i % 2]}) for i, k in enumerate(('plain', 'gz', 'members', 'stdin'))]
    sources += [(source, {'lattice': k}) for source in ('single', 'archive') for k in ('plain', 'gz', 'members', 'stdin', 'implicit')]
    for locale, (source, roles), output in itertools.product(LOCALES, sources, OUTPUTS['decode']):
        kinds = [None]
        if source == 'archive' or output == 'kaldi':
            kinds = ('plain', 'gz', 'members') + (() if {'stdin', 'implicit'} & set(roles.values()) else ('stdin',))
        for place, out, kind in itertools.product(some(PLACES, 'decode'), some(('plain', 'gz', 'stdout', 'plain'), 'decode output'),
                                                  some(kinds, 'symbols')):
            result.append({'command': 'decode', 'vocab': some(('words', 'classes'), 'decode vocabulary')[0], 'arch': 'lstm', 'output': output,
                           'source': source, 'roles': dict(roles, **({'symbols': kind} if kind else {})), 'out': out, 'place': place,
                           'locale': locale})
    for locale, out, seed, place in itertools.product(LOCALES, ('plain', 'gz', 'stdout'), (None, 'ä \u0445 \u65e5\u672c'), PLACES):
        for arch in some(list(ARCHS), 'sample'):
            result.append({'command': 'sample', 'vocab': 'classes', 'arch': arch, 'seed': seed, 'roles': {}, 'out': out, 'place': place,
                           'locale': locale})
    for locale, text, given, out in itertools.product(LOCALES, ('plain', 'gz', 'members'), (None, 'plain', 'gz', 'stdin'), ('plain', 'gz', 'stdout')):
        for place, method, output, frequency in itertools.product(some(PLACES, 'wctool'), some(('numpy', 'theano'), 'method'),
                                                                  some(('classes', 'srilm-classes', 'srilm-classes'), 'classes'),
                                                                  some((0, 1, 1, 2, 2), 'frequency')):
            result.append({'command': 'wctool', 'method': method, 'output': output, 'roles': dict({'text': text}, **({'given': given} if given else {})),
                           'out': out, 'place': place, 'locale': locale, 'frequency': frequency})
    return result


def units(tier, seed):
    everything = jobs(tier)
    parts = 64 if tier == 'thorough' else 40
    result = [{'cases': [{'kind': 'same', 'job': j} for j in everything[i::parts]]} for i in range(parts)]
    histories = [{'kind': 'history', 'arch': arch, 'vocab': vocab, 'locales': list(locales)} for arch in ARCHS for vocab in VOCABULARIES
                 for locales in itertools.product(LOCALES, repeat=3) if tier == 'thorough' or locales[0] == locales[2]]
    return result + [{'cases': histories[i::8]} for i in range(8)]


def explore(unit, ctx):
    for case in unit['cases']:
        ctx.run(case)


# -- in either process ------------------------------------------------------------
class Pipe(io.BytesIO):
    """One of the standard streams."""

    def close(self):
        pass

    def seekable(self):
        return False

    def seek(self, *args):
        raise io.UnsupportedOperation('seek')

    def tell(self):
        raise io.UnsupportedOperation('tell')

    def truncate(self, *args):
        raise io.UnsupportedOperation('truncate')


def encoding():
    import locale
    return locale.getpreferredencoding(False)


def launch(command, argv, given, directory):
    """(exit status, standard output) of a program started in the given directory."""
    if command == 'wctool':
        from wordclasses import wctool as module
    else:
        module = p34_faults.program()
        argv = [command] + argv
    # text to be scored is read twice
    source, target = io.BytesIO(given) if command == 'score' else Pipe(given), Pipe()
    out = io.TextIOWrapper(target, encoding=encoding())
    saved = sys.argv, sys.excepthook, sys.getrecursionlimit(), sys.stdin, os.getcwd()
    status = 0
    sys.argv = [command] + argv
    sys.stdin = io.TextIOWrapper(source, encoding=encoding())
    os.chdir(directory)
    errors = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(errors):
            try:
                module.main()
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                status = 1
                errors.write('{}: {}'.format(type(e).__name__, e))
        gc.collect()
        out.flush()
    finally:
        sys.argv, sys.excepthook = saved[:2]
        sys.setrecursionlimit(saved[2])
        sys.stdin = saved[3]
        os.chdir(saved[4])
    return status, target.getvalue(), errors.getvalue()[-300:]


class Files:
    """The files of one command."""

    def __init__(self, place, locale):
        self.root = cli.scratch('p37')
        shutil.rmtree(self.root, ignore_errors=True)
        self.place, self.locale = place, locale
        self.stdin = b''
        below = ('työ hakemisto.gz' if locale == UTF8 else 'work dir.gz') if place == 'odd' else 'sub'
        self.directory = os.path.join(self.root, 'start')
        os.makedirs(os.path.join(self.directory, below))
        self.prefix = os.path.join(self.directory, 'sub') if place == 'absolute' else below if place == 'odd' else ''

    def path(self, name, kind='plain'):
        """As given to the command."""
        if self.place == 'odd':
            name = name.replace('.', ' {}.gz.'.format('ö' if self.locale == UTF8 else 'o'), 1)
        return os.path.join(self.prefix, name + ('.gz' if kind in ('gz', 'members') else ''))

    def real(self, path):
        return os.path.join(self.directory, path)

    def put(self, name, text, kind='plain'):
        data = text.encode('utf-8') if isinstance(text, str) else text
        if kind in ('stdin', 'implicit'):
            self.stdin = data
            return '-'
        path = self.path(name, kind)
        if kind == 'gz':
            data = gzip.compress(data)
        elif kind == 'members':
            half = data.find(b'\n', len(data) // 2) - 2
            data = gzip.compress(data[:half]) + gzip.compress(data[half:])
        with open(self.real(path), 'wb') as handle:
            handle.write(data)
        return path


def slf(number):
    words = [('ä', 'b', '\u65e5\u672c'), ('\u017e', 'ö', 'ä'), ('d', '\u65e5\u672c', '!NULL')][number]
    lines = ['VERSION=1.0', 'UTTERANCE=' + ('lause-\u00e4', '\u6587_2', 'c')[number], 'lmscale=2 wdpenalty=-0.5', 'N=4 L=5']
    lines += ['I={}'.format(i) for i in range(4)]
    for index, (s, e, word, score) in enumerate([(0, 1, words[0], -1.5), (0, 1, words[1], -2.25), (1, 2, words[2], -1.125),
                                                 (0, 2, 'd', -3.5), (2, 3, '!NULL', 0.0)]):
        lines.append('J={} S={} E={} W={} a={} l={}'.format(index, s, e, word, score, score / 4))
    return '\n'.join(lines) + '\n'


def archive():
    result = []
    for number in range(2):
        result.append(('lause-ä', '\u6587_2')[number])
        result += ['0 1 3 1.5,0.5,1_2', '0 1 {} 2.25,0.125,'.format(1 + number), '1 2 5 1,0.25,7', '1 2 4 0.5,0.75,8_9', '2 0.25,0.5,3', '']
    return '\n'.join(result) + '\n'


def produce(job, model=None):
    """(status, model or text, standard output) of a command."""
    files = Files(job['place'], job['locale'])
    roles = job['roles']
    command = job['command']
    out = files.path('tulos-é.out' if job['locale'] == UTF8 else 'result.out', job.get('out', 'plain'))
    if job.get('out') == 'stdout':
        out = '-'
    if command == 'train':
        argv = [files.path('model.h5'), '--training-set', files.put('a.txt', TEXT, roles['text']), files.put('b.txt', OTHER, roles['other']),
                '--validation-file', files.put('v.txt', VALID, roles['valid']), '--weights', '1', '0.5',
                '--architecture', files.put('n.arch', ARCHS[job['arch']])] + training_options(job['vocab'], files)
        if job.get('model'):
            files.put('model.h5', job['model'])
    elif command == 'wctool':
        argv = ['--training-set', files.put('a.txt', TEXT, roles['text']), '--method', 'bigram-' + job['method'], '--output-format', job['output'],
                '--output-frequency', str(job['frequency']), '--output-file', out]
        if 'given' in roles:
            argv += ['--vocabulary', files.put('given.txt', VOCABULARIES['classes'], roles['given']), '--vocabulary-format', 'classes']
        else:
            argv += ['--num-classes', '3']
    else:
        argv = [files.put('model.h5', model)]
        if command == 'score':
            argv += [files.put('s.txt', SCORED, roles['text']), '--output', job['output']]
        elif command == 'decode':
            argv += ['--output', job['output']] + (['--n-best', '4'] if job['output'] == 'full' else [])
            if 'symbols' in roles:
                argv += ['--kaldi-vocabulary', files.put('k.words', ''.join('{} {}\n'.format(w, i) for i, w in enumerate(KALDI)), roles['symbols'])]
            if job['source'] == 'archive':
                path = files.put('l.lat', archive(), roles['lattice'])
                argv += ['--lattice-format', 'kaldi'] + (['--lattices', path] if roles['lattice'] != 'implicit' else [])
            elif job['source'] == 'single':
                path = files.put('l.slf', slf(1), roles['lattice'])
                argv += ['--lattices', path] if roles['lattice'] != 'implicit' else []
            else:
                paths = [files.put('l{}.slf'.format(i), slf(i), roles['lattice']) for i in range(3)]
                if job['source'] == 'list':
                    argv += ['--lattice-list', files.put('l.list', '\n'.join(paths) + '\n\n', roles['list'])]
                else:
                    argv += ['--lattices'] + paths
        else:
            argv += ['--num-sentences', '3', '--sentence-length', '7', '--random-seed', '5'] + (['--seed-sequence', job['seed']] if job['seed'] else [])
        argv += ['--output-file', out]
    if command != 'sample':
        argv += ['--log-file', files.path('log.txt')]
    status, printed, errors = launch(command, argv, files.stdin, files.directory)
    if status != 0:
        return status, errors, argv
    if command == 'train':
        with open(files.real(argv[0]), 'rb') as handle:
            return status, (p35_diagnostics.content(files.real(argv[0])), handle.read()), printed
    if out == '-':
        return status, printed, b''
    opener = gzip.open if job['out'] == 'gz' else open
    with opener(files.real(out), 'rb') as handle:
        return status, handle.read(), printed


def training_options(vocab, files):
    result = ['--random-seed', '3', '--learning-rate', '0.3', '--batch-size', '2', '--max-epochs', '1', '--num-noise-samples', '1',
              '--validation-frequency', '1', '--patience', '0']
    if vocab is not None:
        return result + ['--vocabulary', files.put('v.vocab', VOCABULARIES[vocab]), '--vocabulary-format', vocab]
    return result + ['--num-classes', '4']


def trained(arch, vocab):
    job = {'command': 'train', 'vocab': vocab, 'arch': arch, 'roles': dict.fromkeys(('text', 'other', 'valid'), 'plain'), 'place': 'absolute',
           'locale': UTF8}
    if ('model', arch, vocab) not in _PLAIN:
        status, result, printed = away(job, None)
        expect(status == 0, 'status {}: {} {}', status, result, printed)
        _PLAIN['model', arch, vocab] = result[1]
    return _PLAIN['model', arch, vocab]


# -- comparison ---------------------------------------------------------------------
_PLAIN = {}


def plain(job):
    job = dict(job, place='absolute', locale=UTF8, roles={k: 'plain' for k in job['roles']})
    if 'out' in job:
        job['out'] = 'plain'
    key = repr(sorted((k, str(v)) for k, v in job.items()))
    if key not in _PLAIN:
        if len(_PLAIN) > 200:
            _PLAIN.clear()
        model = None if job['command'] in ('train', 'wctool') else trained(job['arch'], job['vocab'])
        _PLAIN[key] = away(job, model), model
    return _PLAIN[key]


def away(job, model):
    if job['locale'].replace('-', '') != encoding().lower().replace('-', ''):
        return precision.call(job['locale'], __name__, 'produce', job, model)
    return produce(job, model)


def compare(found, wanted, job, what):
    expect(found[0] == 0, 'status {}: {} {}', found[0], found[1:], what)
    if job['command'] == 'train':
        differs = p35_diagnostics.difference(found[1][0], wanted[1][0])
        expect(differs is None, 'different {}: {}', differs, what)
        expect(found[2] == wanted[2], 'prints {!r} instead of {!r}: {}', found[2], wanted[2], what)
        return
    result = found[1]
    if job['command'] == 'wctool' and job['out'] == 'stdout':
        # progress, and the classes of each time they were saved
        lines, size = [x for x in result.split(b'\n')[:-1] if not x.startswith(b'Number of')], wanted[1].count(b'\n')
        result = b''.join(x + b'\n' for x in lines[-size:])
        expect(len(lines) % size == 0, '{} lines of classes, not a multiple of {}: {}', len(lines), size, what)
    expect(result == wanted[1], '{!r} instead of {!r}: {}', result, wanted[1], what)


def run_case(case, ctx):
    if case['kind'] == 'history':
        return run_history(case, ctx)
    job = case['job']
    what = '{command} {place} path, {locale} locale'.format(**job) + ''.join(
        ', {} {}'.format(k, v) for k, v in sorted(job['roles'].items()) + sorted((k, v) for k, v in job.items() if k not in ('roles', 'command')))
    wanted, model = plain(job)
    expect(wanted[0] == 0 and wanted[1], 'status {} of plain files: {} {}', wanted[0], wanted[1:], what)
    compare(away(job, model), wanted, job, what)
    count(job, ctx)
    ctx.state(repr(sorted((k, str(v)) for k, v in job.items())))
    ctx.outcome(str(wanted[1])[:20000])
    ctx.step(2)


def count(job, ctx):
    ctx.count(job['command'])
    for kind in ('gz', 'members', 'stdin', 'implicit'):
        ctx.count(kind, kind in job['roles'].values())
    ctx.count('stdout', job.get('out') == 'stdout')
    ctx.count('ascii', job['locale'] == ASCII)
    for name in ('relative', 'odd'):
        ctx.count(name, job['place'] == name)
    for name in ('list', 'archive', 'single'):
        ctx.count(name, job.get('source') == name)
    if job['command'] == 'train' and job['vocab']:
        ctx.count(job['vocab'])


def steps(arch, vocab):
    """What is done with a trained model."""
    base = {'arch': arch, 'vocab': vocab, 'roles': {}, 'out': 'plain'}
    yield dict(base, command='score', roles={'text': 'plain'}, output='word-scores')
    yield dict(base, command='decode', source='slf', roles={'lattice': 'plain'}, output='full')
    yield dict(base, command='sample', seed=None)


def run_history(case, ctx):
    arch, vocab, locales = case['arch'], case['vocab'], case['locales']
    first = {'command': 'train', 'vocab': vocab, 'arch': arch, 'roles': dict.fromkeys(('text', 'other', 'valid'), 'plain')}
    key = 'history', arch, vocab

    def history(locales, places, run):
        what = 'history {} {} {}'.format(arch, vocab, locales)
        done = run(dict(first, place=places[0], locale=locales[0]), None)
        expect(done[0] == 0, 'status {}: {} {}', done[0], done[1:], what)
        # a copy of the model file alone
        again = run(dict(first, place=places[1], locale=locales[1], model=done[1][1], roles=first['roles']), None)
        expect(again[0] == 0, 'status {}: {} {}', again[0], again[1:], what)
        results = []
        for job in steps(arch, vocab):
            result = run(dict(job, place=places[2], locale=locales[2]), again[1][1])
            expect(result[0] == 0, 'status {}: {} {}', result[0], result[1:], what)
            results.append(result[1])
        return done[1][0], again[1][0], results
    if key not in _PLAIN:
        _PLAIN[key] = history((UTF8,) * 3, ('absolute',) * 3, away)
    wanted = _PLAIN[key]
    found = history(locales, ('absolute', 'relative', 'odd'), away)
    what = 'history {} {} {}'.format(arch, vocab, locales)
    for a, b, name in zip(found, wanted, ('trained', 'continued')):
        differs = p35_diagnostics.difference(a, b)
        expect(differs is None, 'different {} in the {} model: {}', differs, name, what)
    for a, b, job in zip(found[2], wanted[2], steps(arch, vocab)):
        expect(a == b, '{} gives {!r} instead of {!r}: {}', job['command'], a, b, what)
    ctx.count('moved')
    ctx.count('continued')
    ctx.state(what)
    ctx.outcome(str(wanted[2]))
    ctx.step(5)
