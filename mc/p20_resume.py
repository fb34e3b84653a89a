"""P20: training is interrupted at every point and continued from its file."""

import contextlib
import hashlib
import io
import itertools
import os

import h5py
import numpy

from mc import cli, p17_saved, trainlib
from mc.core import expect

PROPERTY = 'P20'
TITLE = 'Interrupted training resumes as if it had not been interrupted'
MUST_COVER = ('resumed', 'nothing_saved', 'mid_epoch', 'epoch_start', 'twice', 'saving_changes_nothing', 'no_validation', 'after_rollback',
              'real_validated', 'real_unvalidated', 'real_mid_epoch', 'real_epoch_start')
ASSUMPTIONS = ['the interruption does not fall inside the writing of the file',
               'order of the lines in epochs that have not started, dropout and noise samples depend on new random numbers',
               'the counters of the stopping criterion start anew (they are not part of the model file)']
BOUNDS = {
    'quick': 'every sequence of 3 validation outcomes over 4 costs x 8 schedules and runs without validation data: killed at '
             'every update and validation sample (all points with the same file are one state), continued from the file for 2 '
             'outcomes, killed and continued again; the same histories with the state saved elsewhere at every event. theanolm '
             'train with each of the 7 optimizers, with and without validation data, on a recurrent network: killed at '
             'every update and continued, parameters and optimizer state compared bit by bit after every update',
    'thorough': 'as quick with sequences of 4 outcomes and 5 network/cost variants',
}
CONFIGS = [
    {'lines': 3, 'frequency': 1, 'samples': 1, 'patience': 0}, {'lines': 4, 'frequency': 2, 'samples': 1, 'patience': 1},
    {'lines': 5, 'frequency': 2, 'samples': 2, 'patience': 0}, {'lines': 6, 'frequency': 2, 'samples': 3, 'patience': 0},
    {'lines': 7, 'frequency': 2, 'samples': 3, 'patience': 1}, {'lines': 5, 'frequency': 1, 'samples': 4, 'patience': -1},
    {'lines': 8, 'frequency': 1, 'samples': 7, 'patience': 0}, {'lines': 8, 'frequency': 3, 'samples': 2, 'patience': 0},
]
OPTIMIZERS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']
VARIANTS = [('lstm', []), ('gru', ['--l1-regularization', '0.01', '--momentum', '0.5']),
            ('two', ['--l2-regularization', '0.01', '--exclude-unk', '--weights', '0.5']),
            ('lstm', ['--sampling', '1.0', '--batch-size', '2', '--sequence-length', '3']),
            ('gru', ['--num-classes', '3', '--gradient-normalization', '0.1'])]


def units(tier, seed):
    result = []
    for config in CONFIGS:
        for first in range(4):
            result.append({'kind': 'histories', 'config': config, 'first': first, 'depth': 4 if tier == 'thorough' else 3})
    result.append({'kind': 'no validation'})
    for method in OPTIMIZERS:
        for validation in (True, False):
            for variant in range(5 if tier == 'thorough' else 1):
                result.insert(0, {'kind': 'real', 'method': method, 'validation': validation, 'variant': variant})
    if tier == 'quick':
        for variant in range(1, 5):
            result.insert(0, {'kind': 'real', 'method': 'adam' if variant % 2 else 'nesterov', 'validation': variant < 3,
                              'variant': variant})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'real':
        ctx.run(unit)
    elif unit['kind'] == 'no validation':
        for lines in range(1, 5):
            for epochs in range(1, 5):
                ctx.run({'kind': 'history', 'config': {'lines': lines, 'validation': False, 'max_epochs': epochs},
                         'outcomes': []})
    else:
        for tail in itertools.product(range(4), repeat=unit['depth'] - 1):
            ctx.run({'kind': 'history', 'config': dict(unit['config'], max_epochs=8), 'outcomes': [unit['first']] + list(tail)})


def run_case(case, ctx):
    (run_real if case['kind'] == 'real' else run_history)(case, ctx)


def run_history(case, ctx):
    numpy.random.seed(11)
    cfg = dict(trainlib.DEFAULTS, **case['config'])
    course = []
    run = trainlib.Run(cfg, p17_saved.supplier(cfg['samples'], case['outcomes']),
                       on_event=lambda r, kind: course.append((kind, r.ref.epoch, r.ref.update, r.network.value,
                                                               r.optimizer.learning_rate))).execute()
    ctx.step(run.events)
    ctx.count('after_rollback', bool(run.ref.rollbacks))
    # Saving the state elsewhere at every event.
    numpy.random.seed(11)
    again = []

    def save(r, kind):
        again.append((kind, r.ref.epoch, r.ref.update, r.network.value, r.optimizer.learning_rate))
        with h5py.File('elsewhere', 'w', driver='core', backing_store=False) as other:
            r.trainer.get_state(other)
    trainlib.Run(cfg, p17_saved.supplier(cfg['samples'], case['outcomes']), on_event=save).execute()
    expect(again == course, 'saving the state at every event changes the course of training')
    ctx.count('saving_changes_nothing')
    # Continue from everything a killed process can have left behind.
    left = {content: saved for saved, content in run.files}
    for content, saved in left.items():
        if saved is None:
            continue
        key = (repr(sorted(cfg.items())), saved['epoch'], saved['update'], tuple(saved['costs']), saved['rate'])
        if not ctx.state(*key):
            continue
        ctx.count('resumed')
        ctx.count('mid_epoch', 0 < saved['update'] < cfg['lines'])
        ctx.count('epoch_start', saved['update'] == 0)
        ctx.count('no_validation', not cfg['validation'])
        for outcomes in itertools.product(range(len(p17_saved.COSTS)), repeat=2) if cfg['validation'] else [()]:
            copy = dict(saved, record=list(saved['record']))
            second = trainlib.Run(dict(cfg, max_epochs=saved['epoch'] + 2), p17_saved.supplier(cfg['samples'], outcomes),
                                  saved=copy, content=content).execute()
            ctx.step(second.events)
            ctx.traces += 1
            last, data = second.files[-1]
            if data != content and last is not copy:
                third = trainlib.Run(dict(cfg, max_epochs=last['epoch'] + 1), p17_saved.supplier(cfg['samples'], (1,)),
                                     saved=last, content=data).execute()
                ctx.step(third.events)
                ctx.count('twice')
    ctx.outcome(tuple(case['outcomes']), len(left))


ARCH = {
    'lstm': 'input type=word name=wi\nlayer type=projection name=p input=wi size=2\nlayer type=lstm name=h input=p size=3\n'
            'layer type=softmax name=out input=h\n',
    'gru': 'input type=class name=ci\nlayer type=projection name=p input=ci size=2\nlayer type=gru name=h input=p size=2\n'
           'layer type=fc name=f input=h size=3 activation=tanh\nlayer type=softmax name=out input=f\n',
    'two': 'input type=word name=wi\ninput type=class name=ci\nlayer type=projection name=p input=wi size=2\n'
           'layer type=projection name=q input=ci size=2\nlayer type=highway name=w input=p\n'
           'layer type=softmax name=out input=w input=q\n',
}
TEXT = 'a b c\nb a\nc c a b\na\nb c c\nc a c\n'
EPOCHS = 3


class Course(object):
    """Events of a theanolm train run: what the parameters are before and after every update."""

    def __init__(self):
        self.events = []            # (epoch, update, parameters before, mini-batch, parameters after)
        self.files = []             # file content before every update


def state_digest(optimizer):
    """Bits of the network parameters and of the optimizer state."""
    with h5py.File('look', 'w', driver='core', backing_store=False) as state:
        optimizer.network.get_state(state)
        optimizer.get_state(state)
        parts = []

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and obj.dtype.kind in 'fiu':
                parts.append((name, hashlib.blake2b(numpy.asarray(obj[()]).tobytes(), digest_size=8).hexdigest()))
        state.visititems(visit)
        parts.append(float(state['optimizer'].attrs['learning_rate']))
    return tuple(parts)


def train(case, model, seed, epochs):
    from theanolm.training import basicoptimizer, trainer as trainer_module
    arch, argv = VARIANTS[case['variant']]
    course = Course()
    original = basicoptimizer.BasicOptimizer.update_minibatch
    original_init = trainer_module.Trainer.initialize
    holder = {}

    def update(self, word_ids, class_ids, file_ids, mask):
        trainer = holder['trainer']
        with open(model, 'rb') as handle:
            content = handle.read()
        course.files.append(content)
        before = state_digest(self)
        original(self, word_ids, class_ids, file_ids, mask)
        course.events.append((int(trainer.epoch_number), int(trainer.update_number), before,
                              (numpy.asarray(word_ids).tolist(), numpy.asarray(mask).tolist()), state_digest(self)))

    def initialize(self, *args, **kwargs):
        holder['trainer'] = self
        return original_init(self, *args, **kwargs)
    text = cli.write('p20-train.txt', TEXT)
    argv = [model, '--training-set', text, '--architecture', cli.write('p20-arch', ARCH[arch]), '--optimization-method',
            case['method'], '--batch-size', 1, '--sequence-length', 6, '--random-seed', seed, '--learning-rate', 0.3,
            '--max-epochs', epochs, '--stopping-criterion', 'epoch-count', '--validation-frequency', 2, '--patience', -1,
            '--log-file', os.devnull] + argv
    if case['validation']:
        argv += ['--validation-file', cli.write('p20-valid.txt', 'a b\nc\n')]
    # Enough validations although the epochs are short.
    original_validation = trainer_module.Trainer.set_validation

    def set_validation(self, validation_iter, scorer, samples_per_validation=None, **kwargs):
        return original_validation(self, validation_iter, scorer, 2 if samples_per_validation is None else
                                   samples_per_validation, **kwargs)
    basicoptimizer.BasicOptimizer.update_minibatch = update
    trainer_module.Trainer.initialize = initialize
    trainer_module.Trainer.set_validation = set_validation
    try:
        course.output = cli.run('train', argv)
    finally:
        basicoptimizer.BasicOptimizer.update_minibatch = original
        trainer_module.Trainer.initialize = original_init
        trainer_module.Trainer.set_validation = original_validation
    with open(model, 'rb') as handle:
        course.files.append(handle.read())
    return course


def run_real(case, ctx):
    model = cli.scratch('p20-model.h5')
    if os.path.exists(model):
        os.unlink(model)
    course = train(case, model, 1, EPOCHS)
    os.unlink(model)
    what = '{} {}validated {}'.format(case['method'], '' if case['validation'] else 'not ', VARIANTS[case['variant']])
    ctx.step(len(course.events))
    positions = {(e, u): i for i, (e, u, _, _, _) in enumerate(course.events)}
    expect(max(e for e, _ in positions) == EPOCHS, 'training ends in epoch {}: {}', max(e for e, _ in positions), what)
    length = max(u for _, u in positions)
    left = []
    for content in course.files:
        if content not in left:
            left.append(content)
    count = 0
    for content in left:
        try:
            found = look(content)
        except OSError as error:
            expect(False, 'the model file left by an interruption cannot be opened ({}): {}', error, what)
        if found is None:
            with open(model, 'wb') as handle:
                handle.write(content)
            again = train(case, model, 1, 1)
            os.unlink(model)
            expect([e[:2] for e in again.events] == [(1, u) for u in range(1, length + 1)],
                   'starting again after an interruption before the first save performs updates {}: {}',
                   [e[:2] for e in again.events], what)
            ctx.count('nothing_saved')
            continue
        count += 1
        epoch, update = found
        if epoch > EPOCHS:
            continue
        with open(model, 'wb') as handle:
            handle.write(content)
        # A different seed: nothing of the rest of the epoch may depend on it.
        again = train(case, model, 2 + count, epoch)
        os.unlink(model)
        want = [course.events[positions[epoch, u]] for u in range(update + 1, length + 1)]
        got = again.events
        expect([e[:2] for e in got] == [e[:2] for e in want], 'continuing from update {} of epoch {} performs updates {} instead '
               'of {}: {}', update, epoch, [e[:2] for e in got], [e[:2] for e in want], what)
        for g, w in zip(got, want):
            expect(g[3] == w[3], 'update {} of epoch {} uses another mini-batch after an interruption: {}', w[1], w[0], what)
            if g[2] != w[2] or g[4] != w[4]:
                first = [x for x, y in zip(g[2], w[2]) if x != y] or [x for x, y in zip(g[4], w[4]) if x != y]
                expect(False, 'state {} differs at update {} of epoch {} after an interruption: {}', first[0], w[1], w[0], what)
        ctx.step(len(got))
        ctx.traces += 1
        ctx.state(what, epoch, update)
        ctx.count('real_mid_epoch', 0 < update < length)
        ctx.count('real_epoch_start', update == 0)
    expect(count >= 2, 'only {} states were saved: {} {}', count, what, course.output)
    ctx.count('real_validated' if case['validation'] else 'real_unvalidated')
    ctx.outcome(what, count)


def look(content):
    path = cli.scratch('p20-look.h5')
    if not content:
        return None
    with open(path, 'wb') as handle:
        handle.write(content)
    with h5py.File(path, 'r') as state:
        if 'trainer' not in state:
            return None
        return int(state['trainer'].attrs['epoch_number']), int(state['trainer'].attrs['update_number'])
