"""P16: every small list of lattices, every archive layout, every job split."""

import gzip
import io
import itertools
import os
import sys

from mc import cli, declib, netlib
from mc.core import expect

PROPERTY = 'P16'
TITLE = 'Decoding jobs partition the lattice set'
MUST_COVER = ('list_file', 'command_line', 'both', 'blank', 'empty_job', 'more_jobs_than_lattices', 'stdin', 'gz', 'rejected',
              'archive', 'no_last_blank', 'several_blank', 'two_archives', 'archive_stdin', 'command', 'n_best', 'slf_error')
ASSUMPTIONS = ['word IDs in the Kaldi word list are the numbers 0..N-1', 'lattice archives are text compact lattices']
BOUNDS = {
    'quick': 'every command line of <=3 paths x every list file of <=4 lines over {path, padded path, empty, spaces} with and '
             'without the last newline x 1..5 jobs, and standard input; every archive of <=3 lattices over 4 shapes x blank '
             'lines before, between and after x 6 word lists; every job ID of -2..4 and count of -1..3; theanolm decode with '
             'every job split of 4 lattices x ref/trn/full output x 1..3 best',
    'thorough': 'as quick with 5 lines, 7 jobs and archives of 4 lattices',
}

LINES = ['path', 'padded', 'empty', 'spaces']


def units(tier, seed):
    deep = tier == 'thorough'
    result = [{'kind': 'lists', 'paths': n, 'lines': m, 'jobs': 7 if deep else 5} for n in range(4)
              for m in [-1] + list(range(6 if deep else 5))]
    result += [{'kind': 'archives', 'count': n, 'first': f} for n in range(5 if deep else 4) for f in range(len(SHAPES))
               if n or not f]
    result += [{'kind': 'invalid'}, {'kind': 'stdin'}]
    result += [{'kind': 'command', 'output': o} for o in ('ref', 'trn', 'full')]
    return result


def explore(unit, ctx):
    if unit['kind'] == 'lists':
        if unit['lines'] < 0:
            if unit['paths']:
                ctx.run({'kind': 'list', 'paths': unit['paths'], 'lines': None, 'newline': True, 'jobs': unit['jobs']})
            return
        for lines in itertools.product(LINES, repeat=unit['lines']):
            for newline in (True, False):
                ctx.run({'kind': 'list', 'paths': unit['paths'], 'lines': list(lines), 'newline': newline,
                         'jobs': unit['jobs']})
    elif unit['kind'] == 'archives':
        for rest in itertools.product(range(len(SHAPES)), repeat=max(0, unit['count'] - 1)):
            shapes = [unit['first']] * (unit['count'] > 0) + list(rest)
            for before, between, after in itertools.product(('', '\n', ' \n\n'), ('\n', '\n\n', ' \n', '\n\t\n\n'),
                                                            (None, '', '\n', '\n\n')):
                if len(shapes) < 2 and between != '\n':
                    continue
                for order in range(6) if between == '\n' and after == '\n' else (0,):
                    ctx.run({'kind': 'archive', 'shapes': shapes, 'before': before, 'between': between, 'after': after,
                             'order': order})
    elif unit['kind'] == 'invalid':
        for jobs in range(-1, 4):
            for job in range(-2, 5):
                ctx.run({'kind': 'invalid', 'jobs': jobs, 'job': job})
        for name in ('', 'SLF', 'htk', None):
            ctx.run({'kind': 'format', 'name': name})
        ctx.run({'kind': 'format', 'name': 'kaldi'})
    elif unit['kind'] == 'stdin':
        for jobs in range(1, 4):
            for lines in (None, '', '\n', ' \n\n'):
                for form in ('slf', 'kaldi'):
                    ctx.run({'kind': 'stdin', 'jobs': jobs, 'lines': lines, 'format': form})
        ctx.run({'kind': 'archives', 'names': [2, 0, 1]})
        ctx.run({'kind': 'archives', 'names': [1, 3]})
        ctx.run({'kind': 'archives', 'names': [0, 3, 2, 1, 0]})
    else:
        for jobs in range(1, 6):
            for n_best in (1, 2, 3):
                ctx.run({'kind': 'command', 'output': unit['output'], 'jobs': jobs, 'n_best': n_best})


def slf(name, word, ac=-1.5):
    return ('VERSION=1.0\nUTTERANCE={}\nlmscale=1.0\nwdpenalty=0.0\nN=3 L=3\nI=0\nI=1\nI=2\n'
            'J=0 S=0 E=1 W={} a={} l=-0.5\nJ=1 S=0 E=1 W=a a=-1.75 l=-0.25\nJ=2 S=1 E=2 W=b a=-0.75 l=-1.0\n'
            .format(name, word, ac))


def slf_file(index):
    """Path of a lattice with its own utterance name and word."""
    packed = index % 3 == 2
    path = cli.scratch('p16-{}.slf{}'.format(index, '.gz' if packed else ''))
    if not os.path.exists(path):
        text = slf('utt{}'.format(index), 'w{}'.format(index))
        with (gzip.open(path, 'wt', encoding='utf-8') if packed else open(path, 'w', encoding='utf-8')) as handle:
            handle.write(text)
    return path


def batch(paths, lines, form='slf', vocabulary=None, jobs=1, job=0):
    from theanolm.scoring import LatticeBatch
    return LatticeBatch(list(paths), None if lines is None else io.StringIO(lines), form,
                        None if vocabulary is None else io.StringIO(vocabulary), jobs, job)


def run_case(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_list(case, ctx):
    paths = [slf_file(i) for i in range(case['paths'])]
    text = None
    wanted = list(range(case['paths']))
    if case['lines'] is not None:
        text = []
        for line in case['lines']:
            index = len(wanted)
            if line in ('path', 'padded'):
                wanted.append(index)
                text.append(slf_file(index) if line == 'path' else '  {}\t '.format(slf_file(index)))
            else:
                text.append('' if line == 'empty' else '  \t')
        text = '\n'.join(text) + ('\n' if case['newline'] and text else '')
    if not wanted:
        return
    for jobs in range(1, case['jobs'] + 1):
        got = []
        for job in range(jobs):
            found = []
            for lattice in batch(paths, text, jobs=jobs, job=job):
                word = sorted(l.word for l in lattice.links)[-1]
                expect(lattice.utterance_id == 'utt' + word[1:], 'utterance {} contains {}', lattice.utterance_id, word)
                found.append(int(lattice.utterance_id[3:]))
                ctx.step()
            expect(found == sorted(found), 'job {} of {} reads the lattices in the order {}: {!r} + {!r}', job, jobs, found,
                   case['paths'], case['lines'])
            got += found
            ctx.count('empty_job', not found)
            ctx.outcome(job, jobs, tuple(found))
        expect(sorted(got) == wanted, '{} jobs read lattices {} instead of {}: {!r} + {!r}', jobs, sorted(got), wanted,
               case['paths'], case['lines'])
        ctx.count('more_jobs_than_lattices', jobs > len(wanted))
    ctx.state('list', case['paths'], tuple(case['lines'] or ()), case['newline'])
    ctx.count('list_file', bool(case['lines']))
    ctx.count('command_line', bool(case['paths']))
    ctx.count('both', bool(case['paths'] and case['lines']))
    ctx.count('blank', any(l in ('empty', 'spaces') for l in case['lines'] or ()))
    ctx.count('gz', len(wanted) > 2)


VOCABULARY = ['<eps>', 'a', 'b', 'zebra']
# lines without the utterance; words by index of VOCABULARY; expected links
SHAPES = [
    [(0, 1, 'a', 1.5, 2.5, '1_2'), (1, None, None, 0.5, 0.25, '3')],
    [(0, 1, 'b', 0.5, 1.0, ''), (0, 1, 'zebra', 2.0, 0.75, '4_4'), (1, 2, 'a', 0.25, 0.125, '5'), (2, None, None, None, None, '')],
    [(0, None, None, 0.75, 1.25, '7')],
    [(0, 1, '<eps>', 0.125, 0.5, '8'), (0, 2, 'a', 1.0, 1.0, '9'), (1, 2, 'b', 2.0, 3.0, '1'), (1, None, None, 0.0, 0.5, ''),
     (2, None, None, 0.0, 0.0, '')],
]


def word_ids(order):
    """Word list in some line order; IDs are a permutation as well."""
    perm = list(itertools.permutations((1, 2, 3)))[order]
    ids = dict(zip(VOCABULARY, (0,) + perm))
    lines = ['{} {}'.format(w, i) for w, i in ids.items()]
    if order % 2:
        lines = lines[::-1] + ['']
    return ids, '\n'.join(lines) + '\n'


def archive_block(name, shape, ids):
    lines = [name + (' ' if len(name) % 2 else '')]
    for start, end, word, graph, ac, labels in SHAPES[shape]:
        if end is None:
            lines.append('{}'.format(start) if graph is None else '{} {},{},{}'.format(start, graph, ac, labels))
        else:
            lines.append('{}\t{}\t{}\t{},{},{}'.format(start, end, ids[word], graph, ac, labels))
    return '\n'.join(lines) + '\n'


def check_kaldi(lattice, name, shape, what):
    expect(lattice.utterance_id == name, 'utterance {!r} instead of {!r}: {}', lattice.utterance_id, name, what)
    states = 1 + max(max(l[0], l[1] or 0) for l in SHAPES[shape])
    got = sorted((l.start_node.id, states if l.end_node.final else l.end_node.id, l.word or '', -float(l.lm_logprob),
                  -float(l.ac_logprob), l.transitions) for l in lattice.links)
    want = sorted((s, states if e is None else e, '' if w in (None, '<eps>') else w, g or 0.0, a or 0.0, t)
                  for s, e, w, g, a, t in SHAPES[shape])
    expect(len(got) == len(want) and all(x[:3] == y[:3] and x[5] == y[5] and abs(x[3] - y[3]) < 1e-9 and
                                         abs(x[4] - y[4]) < 1e-9 for x, y in zip(got, want)),
           'lattice {} is read as {} instead of {}: {}', name, got, want, what)
    expect(lattice.initial_node.id == 0, 'lattice {} starts from {}', name, lattice.initial_node.id)


def make_archive(shapes, before, between, after, ids, first=0):
    names = ['u-{}{}'.format(first + i, 'x' * (i % 2)) for i in range(len(shapes))]
    text = before + between.join(archive_block(n, s, ids) for n, s in zip(names, shapes))
    if after is None:
        text = text.rstrip('\n')
    else:
        text += after
    return names, text


def run_archive(case, ctx):
    ids, vocabulary = word_ids(case['order'])
    names, text = make_archive(case['shapes'], case['before'], case['between'], case['after'], ids)
    path = cli.write('p16.lat', text)
    got = list(batch([path], None, 'kaldi', vocabulary))
    expect([l.utterance_id for l in got] == names, 'lattices {} instead of {}: {!r}', [l.utterance_id for l in got], names,
           text)
    for lattice, name, shape in zip(got, names, case['shapes']):
        check_kaldi(lattice, name, shape, repr(text))
        ctx.step()
    ctx.state('archive', text)
    ctx.outcome('archive', tuple(case['shapes']))
    ctx.count('archive')
    ctx.count('no_last_blank', after_blank(case))
    ctx.count('several_blank', len(case['shapes']) > 1 and case['between'].count('\n') > 1)


def after_blank(case):
    return case['after'] in (None, '') and len(case['shapes']) > 0


def run_archives(case, ctx):
    """Several archives, split by file."""
    ids, vocabulary = word_ids(3)
    paths, wanted = [], []
    for number, count in enumerate(case['names']):
        shapes = [(number + i) % len(SHAPES) for i in range(count)]
        names, text = make_archive(shapes, '', '\n', '\n' if number % 2 else '', ids, 10 * number)
        paths.append(cli.write('p16-{}.lat'.format(number), text))
        wanted += list(zip(names, shapes))
    for jobs in range(1, len(paths) + 2):
        got = {}
        for job in range(jobs):
            for lattice in batch(paths, None, 'kaldi', vocabulary, jobs, job):
                expect(lattice.utterance_id not in got, 'utterance {} is delivered twice', lattice.utterance_id)
                got[lattice.utterance_id] = lattice
                ctx.step()
        expect(sorted(got) == sorted(n for n, _ in wanted), 'utterances {} instead of {}', sorted(got), wanted)
        for name, shape in wanted:
            check_kaldi(got[name], name, shape, 'archives of {}'.format(case['names']))
    for path in paths:
        os.unlink(path)
    ctx.count('two_archives')
    ctx.state('archives', tuple(case['names']))


def run_invalid(case, ctx):
    valid = case['jobs'] >= 1 and 0 <= case['job'] < case['jobs']
    try:
        got = [l.utterance_id for l in batch([slf_file(0), slf_file(1)], None, jobs=case['jobs'], job=case['job'])]
    except Exception as error:
        expect(not valid, 'job {} of {} is rejected: {}', case['job'], case['jobs'], error)
        ctx.count('rejected')
    else:
        expect(valid, 'job {} of {} is accepted and reads {}', case['job'], case['jobs'], got)
    ctx.step()
    ctx.state('invalid', case['jobs'], case['job'])


def run_format(case, ctx):
    try:
        list(batch([slf_file(0)], None, case['name']))
    except Exception:
        ctx.count('rejected')
    else:
        expect(False, 'lattice format {!r} without a word list is accepted', case['name'])
    ctx.count('slf_error')
    ctx.step()
    ctx.state('format', case['name'])


class Stdin(object):
    def __init__(self, data):
        self.buffer = io.BytesIO(data)


def run_stdin(case, ctx):
    ids, vocabulary = word_ids(1)
    names, text = make_archive([0, 1], '', '\n', '\n', ids)
    if case['format'] == 'slf':
        names, text, vocabulary = ['utt7'], slf('utt7', 'ab'), None
    saved = sys.stdin
    got = []
    try:
        for job in range(case['jobs']):
            sys.stdin = Stdin(text.encode('utf-8'))
            got += [l.utterance_id for l in batch([], case['lines'], case['format'], vocabulary, case['jobs'], job)]
            ctx.step()
    finally:
        sys.stdin = saved
    expect(got == names, '{} jobs read {} from standard input instead of {}', case['jobs'], got, names)
    ctx.count('stdin')
    ctx.count('archive_stdin', case['format'] == 'kaldi')
    ctx.state('stdin', case['jobs'], case['lines'], case['format'])


DECODED = [('one', 'b', -1.5), ('two', 'c', -0.5), ('three', 'zzz', -1.0), ('four', 'b', -9.0)]


def run_command(case, ctx):
    arch = 'two-inputs'
    model = cli.model(netlib.network(arch, 'words', False))
    paths, want = [], {}
    for name, word, ac in DECODED:
        paths.append(cli.write('p16-{}.slf'.format(name), slf(name, word, ac)))
        spec = {'nodes': 3, 'links': [[0, 1, word, ac, -0.5, ''], [0, 1, 'a', -1.75, -0.25, ''], [1, 2, 'b', -0.75, -1.0, '']],
                'id': name, 'lm_scale': 1.0, 'wi_penalty': 0.0}
        rows, _, _, _ = declib.decode(spec, arch, 'words', {})
        want[name] = sorted(rows, key=lambda r: -r[5])[:case['n_best']]
    listing = cli.write('p16-list', '\n'.join(paths[2:]) + '\n\n')
    seen = []
    for job in range(case['jobs']):
        out = cli.scratch('p16-out')
        cli.run('decode', [model, '--lattices', *paths[:2], '--lattice-list', listing, '--num-jobs', case['jobs'], '--job', job,
                           '--output', case['output'], '--n-best', case['n_best'], '--output-file', out, '--log-file',
                           os.devnull])
        with open(out, encoding='utf-8') as handle:
            lines = handle.read().splitlines()
        os.unlink(out)
        names = []
        for line in lines:
            fields = line.split()
            if case['output'] == 'trn':
                name, words = fields[-1][1:-1], fields[:-1]
                expect(fields[-1] == '({})'.format(name), 'line {!r}', line)
            elif case['output'] == 'ref':
                name, words = fields[0], fields[1:]
            else:
                name, words = fields[0], fields[5:]
                expect(int(fields[4]) == len(words), 'number of words in {!r}', line)
            row = want[name][names.count(name)] if name in want and names.count(name) < len(want[name]) else None
            expect(row is not None, 'unexpected line {!r} from job {} of {}', line, job, case['jobs'])
            names.append(name)
            expect(words == [w for w in row[0] if w not in ('<s>', '</s>')] or words == list(row[0]),
                   'words {} instead of {}', words, row[0])
            if case['output'] == 'full':
                for got, wanted in zip(map(float, fields[1:4]), (row[1], row[4], row[5])):
                    expect(declib.close(got, wanted), 'scores in {!r} instead of {}', line, row)
            ctx.step()
        order = [n for n, _ in itertools.groupby(names)]
        expect(order == [n for n, _, _ in DECODED if n in order], 'job {} writes {}', job, names)
        for name in order:
            expect(names.count(name) == len(want[name]), '{} lines for {} instead of {}', names.count(name), name,
                   len(want[name]))
        seen += order
        ctx.outcome(tuple(lines))
    expect(sorted(seen) == sorted(want), '{} jobs decode {} instead of {}', case['jobs'], sorted(seen), sorted(want))
    ctx.count('command')
    ctx.count('n_best', case['n_best'] > 1)
    ctx.state('command', case['output'], case['jobs'], case['n_best'])
