"""P36: every command in single precision against the same command in double precision."""

import os
import re

import numpy

from mc import cli, netlib, p33_command, p35_diagnostics, precision
from mc.core import expect

PROPERTY = 'P36'
TITLE = 'Single precision gives the results of double precision up to rounding'
MUST_COVER = ('train', 'score', 'decode', 'sample', 'wctool', 'resumed', 'continued_in_double', 'scored_in_double', 'nce', 'blackout', 'recurrent',
              'bidirectional', 'validated', 'annealed', 'numbers', 'parameters')
ASSUMPTIONS = ['the same random seed; tolerance 0.001 of the largest value of a parameter after at most 64 updates, and of a '
               'printed score (at least one unit of its last digit)', 'double precision itself is specified by the other properties']
BOUNDS = {
    'quick': 'train: every type of network, cost, noise distribution and sharing, optimization method, regularisation and vocabulary; score, decode, '
             'sample, wctool: every network and kind of output; histories: trained in single precision, continued in either, then scored in '
             'either',
    'thorough': 'as quick, with three times as many updates and both vocabularies for every network',
}
SINGLE, DOUBLE = 'float32', 'float64'
TOLERANCE = 1e-3
NUMBER = re.compile(r'-?\d+(\.\d+)?(e[-+]?\d+)?$')


def jobs(tier):
    result = []
    for job in p35_diagnostics.training_jobs():
        # the choice between models depends on rounding only in long training
        result.append(dict(job, text=3) if tier == 'thorough' and 'text' not in job else job)
    for rate in ('1.8', '2'):
        result.append({'command': 'train', 'arch': '@gru', 'text': 16, 'lines': 'a c b\n', 'valid': 'a c b\n', 'parts': 4, 'argv': [
            '--validation-file', 'valid', '--validation-frequency', '1', '--batch-size', '1', '--learning-rate', rate, '--patience', '0',
            '--max-annealing-count', '2', '--optimization-method', 'nesterov']})
    for job in p35_diagnostics.other_jobs():
        if job['command'] == 'wctool' and 'numpy' in ' '.join(job['argv']):
            continue
        result.append(job)
        if tier == 'thorough' and 'vocab' in job:
            result.append(dict(job, vocab='classes' if job['vocab'] == 'words' else 'words'))
    return result


def units(tier, seed):
    result = [{'kind': 'same', 'job': job} for job in jobs(tier)]
    merged = [{'cases': result[i::32]} for i in range(32)]
    histories = [{'kind': 'history', 'arch': arch, 'method': method, 'precisions': [SINGLE, second, third]}
                 for arch in ('@plain', '@lstm', '@gru', 'two-inputs') for method in ('adagrad', 'adam', 'nesterov')
                 for second in (SINGLE, DOUBLE) for third in (SINGLE, DOUBLE) if (second, third) != (DOUBLE, SINGLE)]
    return merged + [{'cases': histories[i::8]} for i in range(8)]


def explore(unit, ctx):
    for case in unit['cases']:
        ctx.run(case)


# -- in either process ------------------------------------------------------------
def produce(job):
    """(status, what the command writes)"""
    return p35_diagnostics.perform(job, [[]] * job.get('parts', 2 if job.get('resume') else 1), cli.scratch('p36-log'))


def train_part(arch, method, epochs, data):
    """Model file after training up to the given number of epochs, starting from the contents of a model file."""
    import theano
    path = cli.scratch('p36.h5')
    if os.path.exists(path):
        os.unlink(path)
    if data is not None:
        with open(path, 'wb') as handle:
            handle.write(data)
    argv = [path, '--training-set', cli.write('p36.txt', p35_diagnostics.TEXT), '--architecture',
            cli.write('p36.arch', p35_diagnostics.architecture(arch)), '--random-seed', '4', '--batch-size', '2', '--learning-rate', '0.2',
            '--optimization-method', method, '--max-epochs', str(epochs), '--num-noise-samples', '1', '--log-file', os.devnull]
    cli.run('train', argv)
    with open(path, 'rb') as handle:
        return theano.config.floatX, handle.read(), p35_diagnostics.content(path)


def score_part(data):
    path = cli.scratch('p36.h5')
    with open(path, 'wb') as handle:
        handle.write(data)
    out = cli.scratch('p36-out')
    cli.run('score', [path, cli.write('p36.txt', p35_diagnostics.SCORED), '--output', 'word-scores', '--output-file', out, '--log-file', os.devnull])
    with open(out, 'rb') as handle:
        return handle.read()


# -- comparison ---------------------------------------------------------------------
def compare_text(single, double, what, ctx):
    lines = [bytes(x).decode('utf-8').split('\n') for x in (single, double)]
    expect(len(lines[0]) == len(lines[1]), '{} lines instead of {}: {}', len(lines[0]), len(lines[1]), what)
    for a, b in zip(*lines):
        first, second = [[f for f in re.split(r'[\s,=()]+', x) if f] for x in (a, b)]
        expect(len(first) == len(second), '{!r} instead of {!r}: {}', a, b, what)
        for x, y in zip(first, second):
            if NUMBER.match(x) and NUMBER.match(y) and x != y:
                digits = len(y.split('e')[0].partition('.')[2]) if 'e' not in y else 17
                expect(abs(float(x) - float(y)) <= TOLERANCE * max(1.0, abs(float(y))) + 1.001 * 10.0 ** -digits, '{!r} instead of {!r}: {}', a,
                       b, what)
                ctx.count('numbers')
            else:
                expect(x == y, '{!r} instead of {!r}: {}', a, b, what)


def compare_model(single, double, what, ctx):
    expect(sorted(map(str, single)) == sorted(map(str, double)), 'the model contains {}: {}',
           sorted(set(map(str, single)) ^ set(map(str, double)))[:3], what)
    for key, wanted in double.items():
        found = single[key]
        expect(found.shape == wanted.shape, 'shape of {}: {}', key, what)
        if wanted.dtype.kind == 'f':
            limit = TOLERANCE * max(1e-2, float(numpy.abs(wanted).max()) if wanted.size else 0.0)
            distance = float(numpy.abs(found.astype('float64') - wanted).max()) if wanted.size else 0.0
            expect(distance <= limit, '{} differs by {} (up to {}): {}', key, distance, float(numpy.abs(wanted).max()) if wanted.size else 0, what)
            ctx.count('parameters')
        else:
            expect(numpy.array_equal(found, wanted), '{} is {} instead of {}: {}', key, found, wanted, what)


def compare(single, double, what, ctx):
    if set(double) == {'text'}:
        expect(set(single) == {'text'}, 'different output: {}', what)
        compare_text(single['text'], double['text'], what, ctx)
    else:
        compare_model(single, double, what, ctx)


_DOUBLE = {}


def run_case(case, ctx):
    if case['kind'] == 'same':
        job = case['job']
        what = '{} {} {} {}'.format(job['command'], job.get('arch', ''), job.get('vocab', ''), ' '.join(job['argv']))
        status, double = produce(job)
        expect(status == 0, 'status {} in double precision: {} {}', status, what, double)
        status, single = precision.call(SINGLE, __name__, 'produce', job)
        expect(status == 0, 'status {} in single precision: {} {}', status, what, single)
        compare(single, double, what, ctx)
        arch = p35_diagnostics.architecture(job['arch']) if 'arch' in job else ''
        ctx.count(job['command'])
        ctx.count('annealed', any(k == ('optimizer', 'learning_rate') and float(v) < 1.5 for k, v in double.items()) and '--max-annealing-count' in job['argv'])
        ctx.count('resumed', job.get('resume', False))
        ctx.count('validated', '--validation-file' in job['argv'])
        for name in ('nce', 'blackout'):
            ctx.count(name, name in job['argv'])
        ctx.count('recurrent', 'lstm' in arch or 'gru' in arch)
        ctx.count('bidirectional', 'blstm' in arch or 'bgru' in arch)
        ctx.state(repr(sorted(job.items())))
        ctx.outcome(repr(sorted((str(k), v.tobytes() if v.dtype != object else str(v)) for k, v in double.items())))
        ctx.step(2)
        return
    what = 'history {} {} {}'.format(case['arch'], case['method'], ' '.join(case['precisions']))
    key = case['arch'], case['method']
    if key not in _DOUBLE:
        first = train_part(case['arch'], case['method'], 1, None)
        second = train_part(case['arch'], case['method'], 2, first[1])
        _DOUBLE[key] = second[2], score_part(second[1])

    def run(which, function, *args):
        if which == DOUBLE:
            return globals()[function](*args)
        return precision.call(which, __name__, function, *args)
    used, data, _ = run(case['precisions'][0], 'train_part', case['arch'], case['method'], 1, None)
    expect(used == case['precisions'][0], 'harness: precision {}', used)
    _, data, found = run(case['precisions'][1], 'train_part', case['arch'], case['method'], 2, data)
    compare(found, _DOUBLE[key][0], what, ctx)
    compare_text(run(case['precisions'][2], 'score_part', data), _DOUBLE[key][1], what, ctx)
    ctx.count('continued_in_double', case['precisions'][1] == DOUBLE)
    ctx.count('scored_in_double', case['precisions'][1:] == [SINGLE, DOUBLE])
    ctx.state(what)
    ctx.outcome(_DOUBLE[key][1])
    ctx.step(3)
