"""Runs the real Trainer in lock step with a reference model of training.

The network and the optimizer are stand-ins whose parameters are a digest of
everything that ever influenced them, so that two runs have equal parameters
exactly when they performed the same updates with the same learning rates.
Validation costs are supplied by the explorer; when the supply ends the run is
killed at that point.  At every event (update, validation sample, end) the
model file on disk is compared with what the reference model says was saved.
"""

import contextlib
import hashlib
import io
import math
import os

import h5py
import numpy

from mc.core import Violation, expect

MAX_LINES = 24


class Killed(BaseException):
    """The run ends here; whatever is on disk is what a restart finds."""


def chain(*values):
    return int.from_bytes(hashlib.blake2b(repr(values).encode(), digest_size=6).digest(), 'big')


def vocab():
    global _VOCAB
    try:
        return _VOCAB
    except NameError:
        from theanolm import Vocabulary
        _VOCAB = Vocabulary.from_file(io.StringIO('\n'.join('w{}'.format(i) for i in range(MAX_LINES)) + '\n'), 'words')
        _VOCAB.compute_probs({'w{}'.format(i): 1 for i in range(MAX_LINES)}, update_class_probs=False)
        return _VOCAB


def data(lines):
    path = os.path.join(os.environ['MC_SCRATCH'], '{}-train-{}.txt'.format(os.getpid(), lines))
    if not os.path.exists(path):
        with open(path, 'w') as handle:
            for i in range(lines):
                handle.write('w{}\n'.format(i))
    return open(path, 'rb')


def data_of(lengths):
    """Lines of the given numbers of words."""
    path = os.path.join(os.environ['MC_SCRATCH'], '{}-train-of-{}.txt'.format(os.getpid(), '-'.join(map(str, lengths))))
    if not os.path.exists(path):
        with open(path, 'w') as handle:
            for i, n in enumerate(lengths):
                handle.write(' '.join(['w{}'.format(i)] * n) + '\n')
    return open(path, 'rb')


class Network(object):
    def __init__(self):
        self.value = 0

    def get_state(self, state):
        group = state.require_group('layers')
        if 'p' in group:
            group['p'][:] = [self.value]
        else:
            group.create_dataset('p', data=numpy.asarray([self.value], dtype='int64'))

    def set_state(self, state):
        self.value = int(state['layers/p'][0])


class Optimizer(object):
    """Stand-in with the interface of BasicOptimizer."""

    def __init__(self, network, on_update):
        self.network = network
        self.learning_rate = 1.0
        self.memory = 0
        self.on_update = on_update

    def get_state(self, state):
        group = state.require_group('optimizer')
        group.attrs['learning_rate'] = self.learning_rate
        group.attrs['memory'] = self.memory

    def set_state(self, state):
        self.learning_rate = float(state['optimizer'].attrs['learning_rate'])
        self.memory = int(state['optimizer'].attrs['memory'])

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        batch = tuple(int(w) for w, m in zip(numpy.asarray(word_ids)[:, 0], numpy.asarray(mask)[:, 0]) if m)
        self.on_update(batch)
        self.network.value = chain(self.network.value, batch, float(self.learning_rate))
        self.memory = chain('memory', self.memory, batch)


class Scorer(object):
    def __init__(self, on_sample, iterator):
        self.on_sample = on_sample
        self.iterator = iterator

    def compute_perplexity(self, batch_iter):
        expect(batch_iter is self.iterator, 'validation does not use the validation data')
        return self.on_sample()


DEFAULTS = {'lines': 4, 'frequency': 1, 'samples': 1, 'patience': 0, 'criterion': 'epoch-count', 'max_epochs': 3, 'min_epochs': 1,
            'max_annealing': 0, 'validation': True, 'statistic': None}

STATISTICS = {'min': min, 'mean': lambda x: sum(x) / len(x), 'last': lambda x: x[-1]}


def is_point(update, lines, frequency):
    """Some multiple of lines / frequency lies in (update - 1, update]."""
    return update * frequency // lines > (update - 1) * frequency // lines


def updates_left(update, lines, frequency):
    count = 0
    while not is_point(update + count, lines, frequency):
        count += 1
    return count


class Reference(object):
    """What training should do.  `events` is a generator: it yields ('update',)
    and ('sample', number of the sample in its validation or None), and gets
    the mini-batch or the cost in return."""

    def __init__(self, cfg, saved=None):
        self.cfg = dict(DEFAULTS, **cfg)
        self.saved = saved
        self.saves = 0
        self.rollbacks = 0
        self.validations = 0
        self.rejected = 0
        self.stop_reason = None
        self.previous = None            # best cost at the previous decrease
        self.improved = True
        self.left = self.cfg['max_annealing']
        if saved is None:
            self.epoch, self.update, self.rate, self.value, self.memory = 1, 0, 1.0, 0, 0
            self.costs, self.best, self.record = [], None, []
        else:
            self.restore()

    def snapshot(self):
        return {'epoch': self.epoch, 'update': self.update, 'rate': self.rate, 'value': self.value, 'memory': self.memory,
                'costs': list(self.costs), 'record': self.record}

    def restore(self):
        s = self.saved
        self.epoch, self.update, self.rate, self.value, self.memory = (s['epoch'], s['update'], s['rate'], s['value'],
                                                                       s['memory'])
        self.costs, self.record = list(s['costs']), s['record']
        self.best = self.costs[-1] if self.costs else None
        self.since = 0

    def save(self, snapshot):
        self.saved = snapshot
        self.saves += 1

    # -- stopping -------------------------------------------------------------
    def may_continue(self):
        if self.cfg['criterion'] == 'epoch-count' or self.epoch <= self.cfg['min_epochs']:
            return True
        if self.cfg['criterion'] == 'annealing-count':
            if self.left < 0:
                self.stop_reason = 'annealing'
            return self.left >= 0
        if not self.improved and self.best is not None and self.best < self.previous:
            self.improved = True
        if not self.improved:
            self.stop_reason = 'no improvement'
        return self.improved

    def ceased(self):
        self.left -= 1
        self.improved = self.previous is None or self.best < self.previous
        self.previous = self.best

    # -- training -------------------------------------------------------------
    def events(self):
        cfg = self.cfg
        while True:
            if self.epoch > cfg['max_epochs']:
                self.stop_reason = 'epochs'
                return
            if not self.may_continue():
                return
            samples, center = [], None
            while self.update < cfg['lines']:
                batch = yield ('update',)
                self.update += 1
                self.value = chain(self.value, batch, self.rate)
                self.memory = chain('memory', self.memory, batch)
                if len(self.record) >= self.update:
                    expect(self.record[self.update - 1] == batch, 'update {} of epoch {} reads {} after restoring, {} before',
                           self.update, self.epoch, batch, self.record[self.update - 1])
                else:
                    expect(batch not in self.record, 'line {} is read twice in an epoch', batch)
                    self.record.append(batch)
                if cfg['validation']:
                    left = updates_left(self.update, cfg['lines'], cfg['frequency'])
                    if left < cfg['samples']:
                        complete = left + len(samples) + 1 == cfg['samples']
                        cost = yield ('sample', len(samples) if complete else None)
                        samples.append(cost)
                        if center is None and left <= cfg['samples'] // 2:
                            center = self.snapshot()
                    if left == 0:
                        if len(samples) == cfg['samples']:
                            self.evaluate(samples, center)
                        samples, center = [], None
                if not self.may_continue():
                    break
            self.epoch += 1
            self.update = 0
            self.record = []
            if not cfg['validation']:
                self.save(self.snapshot())

    def evaluate(self, samples, center):
        cfg = self.cfg
        if cfg['statistic'] is None:
            ordered = sorted(samples)
            half = len(ordered) // 2
            cost = ordered[half] if len(ordered) % 2 else (ordered[half - 1] + ordered[half]) / 2
        else:
            cost = STATISTICS[cfg['statistic']](samples)
        self.validations += 1
        self.costs.append(cost)
        if self.best is None or cost < 0.999 * self.best:
            self.best = cost
            self.since = 0
            self.save(dict(center, costs=list(self.costs)))
        else:
            self.rejected += 1
            self.since += 1
        if cfg['patience'] >= 0 and self.since > cfg['patience']:
            rate = self.rate
            self.restore()
            self.ceased()
            self.rate = rate / 2
            self.rollbacks += 1


class Run(object):
    """One execution of the real trainer next to the reference."""

    def __init__(self, cfg, supply, saved=None, content=None, on_event=None, path=None):
        """supply(reference, sample number) returns a cost or raises Killed."""
        self.cfg = dict(DEFAULTS, **cfg)
        self.ref = Reference(cfg, saved)
        self.supply = supply
        self.content = content
        self.on_event = on_event
        self.events = 0
        self.files = []              # (reference snapshot, file bytes)
        self.path = path or os.path.join(os.environ['MC_SCRATCH'], '{}-model.h5'.format(os.getpid()))
        self.mark = None
        self.pending = None
        self.killed = False
        self.finished = False

    def compare(self, event):
        """Called from inside the real trainer, at an event."""
        self.events += 1
        wanted = self.pending
        ref = self.ref
        expect(wanted is not None, '{} after training should have stopped ({}, epoch {}, update {})', event, ref.stop_reason,
               ref.epoch, ref.update)
        expect(wanted[0] == event, '{} where {} is due (epoch {}, update {}, {} samples per validation)', event, wanted[0],
               ref.epoch, ref.update, self.cfg['samples'])
        offset = 1 if event == 'update' else 0
        got = (int(self.trainer.epoch_number), int(self.trainer.update_number) - offset, float(self.optimizer.learning_rate),
               self.network.value, self.optimizer.memory)
        want = (ref.epoch, ref.update, ref.rate, ref.value, ref.memory)
        for name, g, w in zip(('epoch number', 'update number', 'learning rate', 'network parameters', 'optimizer state'), got,
                              want):
            expect(g == w or (isinstance(w, float) and math.isclose(g, w, rel_tol=1e-12)),
                   '{} is {} instead of {} at {} after {} decreases of the learning rate', name, g, w, event, ref.rollbacks)
        self.compare_file()
        if self.on_event is not None:
            self.on_event(self, event)

    def compare_file(self):
        """The file on disk is the saved state of the reference."""
        saved = self.ref.saved
        mark = (id(saved), self.ref.saves, os.stat(self.path).st_mtime_ns, os.path.getsize(self.path))
        if mark == self.mark:
            return
        with open(self.path, 'rb') as handle:
            content = handle.read()
        if self.files and self.files[-1][1] == content and self.files[-1][0] is saved:
            self.mark = mark
            return
        found = load(content)
        if saved is None:
            expect(found is None, 'a model is saved before any was accepted: {}', found)
        else:
            expect(found is not None, 'no model on disk although one was accepted')
            for key in ('epoch', 'update', 'rate', 'value', 'memory', 'costs'):
                expect(same(found[key], saved[key]), '{} in the model file is {} instead of {} (costs {})', key, found[key],
                       saved[key], self.ref.costs)
        self.files.append((saved, content))
        self.mark = mark

    def on_update(self, batch):
        self.compare('update')
        self.pending = self.send(batch)

    def on_sample(self):
        self.compare('sample')
        cost = self.supply(self.ref, self.pending[1])
        self.pending = self.send(cost)
        return cost

    def send(self, value):
        try:
            return self.generator.send(value)
        except StopIteration:
            return None

    def execute(self):
        from theanolm.training import Trainer
        cfg = self.cfg
        options = {'batch_size': 1, 'sequence_length': 10, 'validation_frequency': cfg['frequency'], 'patience': cfg['patience'],
                   'stopping_criterion': cfg['criterion'], 'max_epochs': cfg['max_epochs'], 'min_epochs': cfg['min_epochs'],
                   'max_annealing_count': cfg['max_annealing']}
        with open(self.path, 'wb') as handle:
            handle.write(self.content or b'')
        if not self.content:
            os.unlink(self.path)
        self.generator = self.ref.events()
        self.pending = self.send(None)
        source = data(cfg['lines'])
        state = h5py.File(self.path, 'a', driver='core')
        state.flush()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                trainer = self.trainer = Trainer(options, vocab(), [source], [1.0])
                self.network = Network()
                self.optimizer = Optimizer(self.network, self.on_update)
                if cfg['validation']:
                    iterator = ['validation data']
                    arguments = {} if cfg['statistic'] is None else {'statistics_function': STATISTICS[cfg['statistic']]}
                    trainer.set_validation(iterator, Scorer(self.on_sample, iterator), cfg['samples'], **arguments)
                trainer.initialize(self.network, state, self.optimizer)
                try:
                    trainer.train()
                    self.finished = True
                except Killed:
                    self.killed = True
            if self.finished:
                expect(self.pending is None, 'training stops in epoch {} after update {} although {} is due', self.ref.epoch,
                       self.ref.update, self.pending and self.pending[0])
                self.compare_file()
        finally:
            if self.killed:
                with open(self.path, 'rb') as handle:
                    content = handle.read()
            state.close()
            source.close()
            if self.killed:             # closing must not save what a killed process would not
                with open(self.path, 'wb') as handle:
                    handle.write(content)
        return self


def same(x, y):
    if isinstance(y, list):
        return len(x) == len(y) and all(map(same, x, y))
    return x == y or (isinstance(y, float) and math.isclose(x, y, rel_tol=1e-9))


def load(content):
    """The saved state in a model file, or None."""
    if not content:
        return None
    path = os.path.join(os.environ['MC_SCRATCH'], '{}-look.h5'.format(os.getpid()))
    with open(path, 'wb') as handle:
        handle.write(content)
    with h5py.File(path, 'r') as state:
        if 'trainer' not in state:
            expect('layers' not in state, 'network parameters without training state in the model file')
            return None
        attrs = state['trainer'].attrs
        return {'epoch': int(attrs['epoch_number']), 'update': int(attrs['update_number']),
                'costs': [float(x) for x in state['trainer/cost_history'][()]],
                'value': int(state['layers/p'][0]), 'rate': float(state['optimizer'].attrs['learning_rate']),
                'memory': int(state['optimizer'].attrs['memory'])}


def rest_of_epoch(cfg, content):
    """Mini-batches a reader delivers after restoring its state from a file."""
    from theanolm.parsing import ShufflingBatchIterator
    path = os.path.join(os.environ['MC_SCRATCH'], '{}-look.h5'.format(os.getpid()))
    with open(path, 'wb') as handle:
        handle.write(content)
    source = data(cfg['lines'])
    reader = ShufflingBatchIterator([source], [1.0], vocab(), batch_size=1, max_sequence_length=10, map_oos_to_unk=True)
    with h5py.File(path, 'r') as state:
        reader.set_state(state)
    result = [tuple(int(w) for w, m in zip(word_ids[:, 0], mask[:, 0]) if m) for word_ids, _, mask in reader]
    source.close()
    return result
