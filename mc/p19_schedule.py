"""P19: validation schedule for every epoch length, frequency and sample count."""

import contextlib
import io
import itertools
import os

import h5py
import numpy

from mc import trainlib
from mc.core import expect

PROPERTY = 'P19'
TITLE = 'Validation happens evenly the requested number of times per epoch'
MUST_COVER = ('uneven', 'every_update', 'one_per_epoch', 'tight', 'several_samples', 'class_tool', 'several_epochs', 'batched', 'split')
ASSUMPTIONS = ['the spacing of the validations is at least the number of samples (documented restriction)',
               'the whole training data is read on every epoch (see the finding about sampling)']
BOUNDS = {
    'quick': 'every epoch length 1..16 x every number of validations per epoch 1..16 x every sample count 1..8 for which the '
             'epoch has room, and 7 samples with epochs of up to 24; two epochs each; mini-batches of 1-3 sequences; 1-3 lines of 1-8 words cut into sequences of 2-4 words; the class '
             'tool schedule for 1..60 words x 1..60 saves',
    'thorough': 'as quick with every epoch length 1..24 and three epochs; 1..200 words',
}


def units(tier, seed):
    top = 24 if tier == 'thorough' else 16
    result = [{'kind': 'lengths', 'lines': n, 'epochs': 3 if tier == 'thorough' else 2} for n in range(1, top + 1)]
    if tier == 'quick':
        result += [{'kind': 'seven', 'lines': n, 'epochs': 1} for n in range(17, 25)]
    result.append({'kind': 'batched'})
    result.append({'kind': 'split', 'count': 3 if tier == 'quick' else 4})
    result.append({'kind': 'sampling'})
    result.append({'kind': 'tool', 'top': 200 if tier == 'thorough' else 60})
    return result


def explore(unit, ctx):
    if unit['kind'] in ('lengths', 'seven'):
        n = unit['lines']
        for frequency in range(1, n + 1):
            for samples in range(1, 9) if unit['kind'] == 'lengths' else (7,):
                if n // frequency >= samples:
                    ctx.run({'kind': 'schedule', 'lines': n, 'frequency': frequency, 'samples': samples,
                             'epochs': unit['epochs'], 'batch': 1})
    elif unit['kind'] == 'batched':
        for batch in (2, 3):
            for n in range(1, 13):
                length = -(-n // batch)
                for frequency in range(1, length + 1):
                    ctx.run({'kind': 'schedule', 'lines': n, 'frequency': frequency, 'samples': 1, 'epochs': 2, 'batch': batch})
    elif unit['kind'] == 'split':
        for n in range(1, unit['count'] + 1):
            for lengths in itertools.product((1, 2, 3, 5, 8), repeat=n):
                if list(lengths) != sorted(lengths):
                    continue
                for limit in (2, 3, 4):
                    updates = sum(pieces(k, limit) for k in lengths)
                    for frequency in (1, 2, 3):
                        if frequency <= updates:
                            ctx.run({'kind': 'schedule', 'lines': list(lengths), 'limit': limit, 'frequency': frequency,
                                     'samples': 1, 'epochs': 2, 'batch': 1})
    elif unit['kind'] == 'sampling':
        ctx.run({'kind': 'sampling', 'lines': 8, 'frequency': 1, 'fraction': 0.5})
    else:
        for words in range(1, unit['top'] + 1):
            ctx.run({'kind': 'tool', 'words': words, 'top': unit['top']})


def pieces(words, limit):
    """Number of sequences that a line with start and end of sentence is cut into; a single word is no sequence."""
    return (words + 2) // limit + ((words + 2) % limit >= 2)


def run_case(case, ctx):
    if case['kind'] == 'tool':
        return run_tool(case, ctx)
    fraction = case.get('fraction', 1.0)
    epochs = case.get('epochs', 2)
    log = observe(case['lines'], case['frequency'], case.get('samples', 1), epochs, case.get('batch', 1), fraction,
                  case.get('limit', 10))
    if case['kind'] == 'sampling':
        done = max((e[3] for e in log), default=0)
        if done != case['frequency'] * epochs:
            ctx.finding('sampling-fraction', '{} validations in {} epochs instead of {} when half of the training data is '
                        'sampled on each epoch'.format(done, epochs, case['frequency'] * epochs), case)
        ctx.step(len(log))
        return
    length = -(-case['lines'] // case['batch']) if 'limit' not in case else sum(pieces(k, case['limit']) for k in case['lines'])
    frequency, samples = case['frequency'], case['samples']
    points = [-(-k * length // frequency) for k in range(1, frequency + 1)]
    window = sorted({p - i for p in points for i in range(samples)})
    what = 'epoch of {} updates, {} validations of {} samples'.format(length, frequency, samples)
    for epoch in range(1, epochs + 1):
        updates = [u for kind, e, u, _ in log if kind == 'update' and e == epoch]
        expect(updates == list(range(1, length + 1)), 'updates {} in epoch {}: {}', updates, epoch, what)
        taken = [u for kind, e, u, _ in log if kind == 'sample' and e == epoch]
        expect(taken == window, 'samples at updates {} instead of {} of epoch {}: {}', taken, window, epoch, what)
        seen = [(u, n) for kind, e, u, n in log if kind == 'update' and e == epoch]
        for update, count in seen:          # validations completed when the update starts
            wanted = frequency * (epoch - 1) + sum(p < update for p in points)
            expect(count == wanted, '{} validations are complete before update {} of epoch {} instead of {}: {}', count, update,
                   epoch, wanted, what)
    expect(log[-1][3] == frequency * epochs, '{} validations in {} epochs: {}', log[-1][3], epochs, what)
    ctx.step(len(log))
    ctx.state(repr(case['lines']), case.get('limit'), frequency, samples, case['batch'])
    ctx.outcome(tuple(points), samples)
    ctx.count('uneven', length % frequency != 0)
    ctx.count('every_update', frequency == length)
    ctx.count('one_per_epoch', frequency == 1)
    ctx.count('tight', length // frequency == samples)
    ctx.count('several_samples', samples > 1)
    ctx.count('several_epochs', epochs > 1)
    ctx.count('batched', case['batch'] > 1)
    ctx.count('split', 'limit' in case and length > len(case['lines']))


def observe(lines, frequency, samples, epochs, batch, fraction, limit):
    """Events (kind, epoch, update, completed validations) of a real run."""
    from theanolm.training import Trainer
    log = []

    def on_update(words):
        log.append(('update', trainer.epoch_number, trainer.update_number, trainer.num_validations()))

    def on_sample():
        log.append(('sample', trainer.epoch_number, trainer.update_number, trainer.num_validations()))
        return 50.0 - 0.1 * len(log)
    options = {'batch_size': batch, 'sequence_length': limit, 'validation_frequency': frequency, 'patience': -1,
               'stopping_criterion': 'epoch-count', 'max_epochs': epochs, 'min_epochs': 1, 'max_annealing_count': 0}
    numpy.random.seed(1)
    source = trainlib.data(lines) if isinstance(lines, int) else trainlib.data_of(lines)
    iterator = ['validation data']
    with contextlib.redirect_stdout(io.StringIO()), \
            h5py.File(os.path.join(os.environ['MC_SCRATCH'], '{}-p19.h5'.format(os.getpid())), 'w', driver='core',
                      backing_store=False) as state:
        trainer = Trainer(options, trainlib.vocab(), [source], [fraction])
        trainer.set_validation(iterator, trainlib.Scorer(on_sample, iterator), samples)
        network = trainlib.Network()
        trainer.initialize(network, state, trainlib.Optimizer(network, on_update))
        trainer.train()
        log.append(('end', trainer.epoch_number, trainer.update_number, trainer.num_validations()))
    source.close()
    return log


def run_tool(case, ctx):
    from wordclasses.functions import is_scheduled
    words = case['words']
    for frequency in range(1, min(words, case['top']) + 1):
        got = [n for n in range(1, words + 1) if is_scheduled(n, frequency, words)]
        want = [-(-k * words // frequency) for k in range(1, frequency + 1)]
        expect(got == want, '{} saves for {} words happen after words {} instead of {}', frequency, words, got, want)
        ctx.step(words)
        ctx.state('tool', words, frequency)
    ctx.count('class_tool')
