"""P35: every combination of the options that only observe a command, against the command without them."""

import contextlib
import gc
import io
import itertools
import logging
import os
import sys

import numpy

from mc import cli, netlib, optlib, p33_command, p34_faults
from mc.core import expect

PROPERTY = 'P35'
TITLE = 'Options for logging, debugging and profiling do not change what a command does'
SWITCHES = ('debug', 'profile', 'print-graph', 'level', 'file', 'interval')
MUST_COVER = SWITCHES + ('train', 'score', 'decode', 'sample', 'wctool', 'repeated', 'resumed', 'validated', 'nce', 'blackout', 'recurrent',
                         'bidirectional', 'dropout', 'all', 'pairs')
ASSUMPTIONS = ['the same random seed, one process at a time; the contents of the log are not specified']
BOUNDS = {
    'quick': 'train: all 144 combinations of --debug, --profile, --print-graph, --log-level, --log-file and --log-interval for one network; each '
             'switch, all options of the log, and everything together for every type of network, cost, noise distribution, optimization '
             'method, vocabulary and history (training in two parts); score, decode, sample, wctool: every combination for one network with '
             'every kind of output, each option for every network',
    'thorough': 'every pair of options for every training job, every combination for every other job',
}
FILE = '@file'
# alternatives of every option; the first one is the default
CHOICES = {
    'debug': [[], ['--debug']], 'profile': [[], ['--profile']], 'print-graph': [[], ['--print-graph']],
    'level': [[], ['--log-level', 'debug'], ['--log-level', 'warn']], 'file': [[], ['--log-file', FILE]],
    'interval': [[], ['--log-interval', '1'], ['--log-interval', '0'], ['--log-interval', '3'], ['--log-interval', '-1']],
}
OPTIONS = {'train': SWITCHES, 'score': ('debug', 'profile', 'level', 'file'), 'decode': ('debug', 'profile', 'level', 'file'),
           'sample': ('debug',), 'wctool': ('level', 'file', 'interval')}
TEXT = 'a b c d\nb\nd e a f o\nc c\n\nf d e\nx b a\n'
LIST = 'a\nb\nc\n<unk>\nd\ne\nf\n'
CLASSES = 'a 1\nz 1\nc 5\nb 1\nd 5\n'
SCORED = 'a b o\n\nc x d <unk>\nb z\nf e d c b a\n'
METHODS = ('sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam')
DISTRIBUTIONS = ('uniform', 'log-uniform', 'unigram')


def architecture(name):
    return name[1:] and optlib.ARCHS[name[1:]] if name.startswith('@') else netlib.description(name)


def training_jobs():
    """The first one is examined with every combination."""
    jobs = [{'arch': 'two-inputs', 'argv': ['--validation-file', 'valid', '--validation-frequency', '2', '--batch-size', '1'], 'text': 5}]
    jobs += [{'arch': name, 'argv': []} for name in netlib.ARCHS] + [{'arch': '@' + name, 'argv': []} for name in optlib.ARCHS]
    for cost, distribution in itertools.product(('nce', 'blackout'), DISTRIBUTIONS):
        for sharing in ([], ['--noise-sharing', 'seq'], ['--noise-sharing', 'batch']):
            if distribution == 'unigram' and sharing:
                continue
            jobs.append({'arch': '@gru', 'argv': ['--cost', cost, '--noise-distribution', distribution, '--num-noise-samples', '2'] + sharing})
    jobs += [{'arch': '@plain', 'argv': ['--optimization-method', method]} for method in METHODS]
    jobs += [{'arch': '@lstm', 'argv': ['--optimization-method', 'adam', '--gradient-normalization', '0.01']},
             {'arch': '@plain', 'argv': ['--l1-regularization', '0.01', '--l2-regularization', '0.02', '--exclude-unk']},
             {'arch': '@gru', 'argv': ['--vocabulary-format', 'classes']}, {'arch': '@gru', 'argv': ['--num-classes', '3']},
             {'arch': '@lstm', 'argv': ['--weights', '0.5', '2', '--sampling', '0.5'], 'files': 2},
             {'arch': '@lstm', 'argv': [], 'resume': True}, {'arch': '@plain', 'argv': ['--optimization-method', 'adam'], 'resume': True},
             {'arch': '@blstm', 'argv': ['--validation-file', 'valid', '--validation-frequency', '1', '--batch-size', '1'], 'text': 3},
             {'arch': '@gru', 'argv': ['--sequence-length', '3', '--batch-size', '2']}]
    return [dict(j, command='train') for j in jobs]


def other_jobs():
    jobs = []
    outputs = (['--output', 'perplexity'], ['--output', 'word-scores'], ['--output', 'utterance-scores'], ['--output', 'word-scores', '--shortlist'],
               ['--output', 'perplexity', '--exclude-unk', '--log-base', '10'])
    for number, arch in enumerate(netlib.ARCHS):
        for index, argv in enumerate(outputs if arch == 'two-inputs' else (outputs[number % 3],)):
            jobs.append({'command': 'score', 'arch': arch, 'vocab': ('words', 'classes')[(number + index) % 2], 'argv': argv})
    for number, arch in enumerate(netlib.STEP):
        jobs.append({'command': 'sample', 'arch': arch, 'vocab': ('words', 'classes')[number % 2],
                     'argv': ['--num-sentences', '3', '--sentence-length', '6', '--random-seed', str(number)] +
                     (['--seed-sequence', 'a x'] if number % 3 == 2 else [])})
        for index, output in enumerate(p33_command.OUTPUTS):
            if arch == 'two-inputs' or (number + index) % 5 == 0:
                for source in ('slf', 'kaldi') if arch == 'two-inputs' else (('slf', 'kaldi')[number % 2],):
                    jobs.append({'command': 'decode', 'arch': arch, 'vocab': ('words', 'classes')[number % 2], 'format': source,
                                 'argv': ['--output', output] + (['--n-best', '5'] if output == 'full' else []) +
                                 ([], ['--beam', '1'], ['--max-tokens-per-node', '2', '--recombination-order', '1'])[index % 3]})
    for method, output in itertools.product(('numpy', 'theano'), ('classes', 'srilm-classes')):
        jobs.append({'command': 'wctool', 'argv': ['--method', 'bigram-' + method, '--output-format', output, '--num-classes', '3',
                                                   '--output-frequency', '1']})
    return jobs


def combinations(command, which):
    """Choices of the options: (index of the alternative, ...)."""
    names = OPTIONS[command]
    sizes = [len(CHOICES[n]) for n in names]
    every = list(itertools.product(*map(range, sizes)))
    if which == 'every':
        # three kinds of intervals
        return [c for c in every if 'interval' not in names or c[names.index('interval')] < 3]
    changed = [sum(1 for i in c if i) for c in every]
    if which == 'pairs':
        return [c for c, n in zip(every, changed) if n <= 2 or n == len(names)]
    # each switch, the options of the log together, everything
    log = tuple(int(n in ('level', 'file', 'interval')) for n in names)
    result = [tuple(int(i == k) for i in range(len(names))) for k in range(len(names)) if not log[k]]
    return result + [c for c in (log, tuple(1 for _ in names)) if any(c) and c not in result]


def units(tier, seed):
    result = []
    for number, job in enumerate(training_jobs()):
        which = 'every' if number == 0 else 'pairs' if tier == 'thorough' else 'single'
        every = combinations('train', which)
        size = 14 if number == 0 else 30
        result += [{'job': job, 'combinations': every[i:i + size]} for i in range(0, len(every), size)]
    for job in other_jobs():
        which = 'every' if tier == 'thorough' or job.get('arch', 'two-inputs') == 'two-inputs' and job.get('format') != 'kaldi' else 'single'
        result.append({'job': job, 'combinations': combinations(job['command'], which)})
    return result


def explore(unit, ctx):
    for combination in unit['combinations']:
        ctx.run({'job': unit['job'], 'combination': list(combination)})


# -- running ------------------------------------------------------------------------
def diagnostics(command, combination, log):
    result = []
    for name, index in zip(OPTIONS[command], combination):
        result += [log if a == FILE else a for a in CHOICES[name][index]]
    return result


@contextlib.contextmanager
def observed():
    """With working logging, and everything that the options set restored."""
    import theano
    import theano.compile.profiling as profiling
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    config = {n: getattr(theano.config, n) for n in ('compute_test_value', 'profile', 'profile_memory')}
    for handler in handlers:
        root.removeHandler(handler)
    logging.disable(logging.NOTSET)
    try:
        yield
    finally:
        logging.disable(logging.CRITICAL)
        for handler in list(root.handlers):
            root.removeHandler(handler)
            if handler not in handlers:
                handler.close()
        for handler in handlers:
            root.addHandler(handler)
        root.setLevel(level)
        for name, value in config.items():
            setattr(theano.config, name, value)
        getattr(profiling, '_atexit_print_list', []).clear()


def launch(command, argv):
    argv = [str(a) for a in argv]
    with observed():
        if command != 'wctool':
            return p34_faults.launch([command] + argv)
        from wordclasses import wctool
        saved, out = sys.argv, io.StringIO()
        sys.argv = ['wctool'] + argv
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                wctool.main()
        finally:
            sys.argv = saved
        gc.collect()
        return 0, out.getvalue()


def content(path):
    """Everything in a model file."""
    import h5py
    result = {}

    def visit(name, item):
        for key, value in item.attrs.items():
            result[name, key] = numpy.array(value)
        if isinstance(item, h5py.Dataset):
            result[name] = numpy.array(item[()])
    with h5py.File(path, 'r') as state:
        state.visititems(visit)
        for key, value in state.attrs.items():
            result['', key] = numpy.array(value)
    return result


def difference(found, wanted):
    if sorted(map(str, found)) != sorted(map(str, wanted)):
        return 'contents {}'.format(sorted(set(map(str, found)) ^ set(map(str, wanted)))[:3])
    for key, value in wanted.items():
        other = found[key]
        if other.shape != value.shape or other.dtype != value.dtype:
            return 'shape or type of {}'.format(key)
        same = numpy.array_equal(other, value, equal_nan=True) if value.dtype.kind == 'f' else numpy.array_equal(other, value)
        if not same:
            return '{}'.format(key)
    return None


def perform(job, chosen, log):
    """What the command produces; options of the diagnostics in ``chosen``, one set per run of the command."""
    command = job['command']
    out = cli.scratch('p35-out')
    for path in (out, log):
        if os.path.exists(path):
            os.unlink(path)
    if command == 'train':
        argv = [out, '--training-set', cli.write('p35.txt', job.get('lines', TEXT) * job.get('text', 1))]
        if job.get('files') == 2:
            argv.append(cli.write('p35b.txt', SCORED))
        argv += ['--architecture', cli.write('p35.arch', architecture(job['arch'])), '--random-seed', '3', '--learning-rate', '0.3']
        if '--num-classes' not in job['argv']:
            classes = '--vocabulary-format' in job['argv']
            argv += ['--vocabulary', cli.write('p35.vocab', CLASSES if classes else LIST)] + ([] if classes else ['--vocabulary-format', 'words'])
        if '--cost' not in job['argv']:
            argv += ['--num-noise-samples', '1']
        if 'batch-size' not in ' '.join(job['argv']):
            argv += ['--batch-size', '3']
        argv += [cli.write('p35-valid.txt', job.get('valid', SCORED)) if a == 'valid' else a for a in job['argv']]
        for number, options in enumerate(chosen):
            status, printed = launch('train', argv + ['--max-epochs', str(number + 1)] + options)
            if status != 0:
                return status, printed[-300:]
        return status, content(out)
    if command == 'wctool':
        argv = ['--training-set', cli.write('p35.txt', TEXT), '--output-file', out] + job['argv']
    else:
        argv = [cli.model(netlib.network(job['arch'], job['vocab']))]
        if command == 'score':
            argv.append(cli.write('p35.txt', SCORED))
        elif command == 'decode':
            specs = p33_command.specs_for({'output': job['argv'][1], 'format': job['format']})
            if job['format'] == 'kaldi':
                argv += ['--lattice-format', 'kaldi', '--lattices', cli.write('p35.lat', ''.join(map(p33_command.archive, specs)))]
            else:
                argv += ['--lattices'] + [cli.write('p35-{}.slf'.format(i), p33_command.slf(s)) for i, s in enumerate(specs)]
            if 'kaldi' in (job['format'], job['argv'][1]):
                argv += ['--kaldi-vocabulary', cli.write('p35-words', ''.join('{} {}\n'.format(w, i) for i, w in enumerate(p33_command.WORDS)))]
        argv += ['--output-file', out] + job['argv']
    status, printed = launch(command, argv + chosen[0])
    if status != 0:
        return status, printed[-300:]
    with open(out, 'rb') as handle:
        return status, {'text': numpy.frombuffer(handle.read(), dtype='uint8')}


_WITHOUT = {}


def run_case(case, ctx):
    job, combination = case['job'], case['combination']
    command = job['command']
    log = cli.scratch('p35-log')
    key = repr(sorted(job.items()))
    if key not in _WITHOUT:
        if len(_WITHOUT) > 50:
            _WITHOUT.clear()
        _WITHOUT[key] = perform(job, [[], []] if job.get('resume') else [[]], log)
    status, wanted = _WITHOUT[key]
    what = '{} {} {}'.format(command, job.get('arch', ''), ' '.join(job['argv']))
    expect(status == 0 and wanted, 'status {} without options: {} {}', status, what, wanted)
    chosen = diagnostics(command, combination, log)
    parts = [[chosen]] if not job.get('resume') else [[chosen, chosen], [chosen, []], [[], chosen]]
    for part in parts:
        status, found = perform(job, part, log)
        expect(status == 0, 'status {} with {}: {} {}', status, chosen, what, found)
        differs = difference(found, wanted)
        expect(differs is None, 'different {} with {}: {}', differs, part, what)
        ctx.step()
    for name, index in zip(OPTIONS[command], combination):
        ctx.count(name, index != 0)
    ctx.count(command)
    ctx.count('repeated', not chosen)
    ctx.count('all', all(combination))
    ctx.count('pairs', sum(1 for i in combination if i) == 2)
    ctx.count('resumed', job.get('resume', False))
    ctx.count('validated', '--validation-file' in job['argv'])
    for name in ('nce', 'blackout'):
        ctx.count(name, name in job['argv'])
    arch = architecture(job['arch']) if 'arch' in job else ''
    ctx.count('recurrent', 'lstm' in arch or 'gru' in arch)
    ctx.count('bidirectional', 'blstm' in arch or 'bgru' in arch)
    ctx.count('dropout', 'dropout' in arch)
    ctx.state(key, tuple(combination))
    ctx.outcome(key, tuple(sorted((str(k), v.tobytes() if v.dtype != object else str(v)) for k, v in wanted.items())))
