"""P03: saving and restoring the position of the shuffled reader."""

import itertools
import os

import h5py
import numpy

from mc.core import Choices, expect
from mc import rng, shufflelib

PROPERTY = 'P03'
TITLE = 'Saved reading position resumes exactly where it was'
MUST_COVER = ('mid_sentence_saves', 'restores_at_epoch_end', 'restores_into_other_position', 'rejected_states',
              'restores_into_new_reader', 'resaved_states')
ASSUMPTIONS = ['the same training files are opened when restoring']
BOUNDS = {
    'quick': 'file sets of <=4 lines in 1-2 files (lengths 1-5, empty lines), batch sizes 1-3, limits none/2/3; '
             'all (save point, reader position at restore) pairs over two epochs, restores into the same and a new '
             'reader, chains of two restores; 4 iteration orders each; files of 127-40000 lines saved at five positions',
    'thorough': 'as quick with <=5 lines in 1-3 files, batch sizes 1-4, limits none/2/3/4, 8 orders',
}


def units(tier, seed):
    sets = [[[1]], [[2, 1]], [[3, 1, 2]], [[5, 0, 2]], [[1, 1, 1, 1]], [[4, 2], [3]], [[0, 3], [1, 2]]]
    if tier == 'thorough':
        sets += [[[5, 1, 2, 0, 3]], [[1, 2], [3], [4]], [[2, 2, 2, 2]], [[4], [4], [4, 1]]]
    result = []
    for files in sets:
        for limit in ((None, 2, 3) if tier == 'quick' else (None, 2, 3, 4)):
            for batch in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
                result.append({'files': files, 'limit': limit, 'batch': batch})
    result.sort(key=lambda u: (-sum(map(sum, u['files'])), u['batch']))
    for size in (127, 129, 257, 40000):
        result.insert(0, {'big': size})
    result.append({'reject': True})
    return result


def sampling_options(files):
    return [[]] if sum(map(len, files)) < 3 else [[], [0.5], [1.5]]


def explore(unit, ctx):
    if 'reject' in unit:
        ctx.run({'reject': True})
        return
    if 'big' in unit:
        ctx.run(unit)
        return
    for sampling in sampling_options(unit['files']):
        for order in range(4 if ctx.tier == 'quick' else 8):
            ctx.run(dict(unit, sampling=sampling, order=order))


def new_state():
    new_state.counter += 1
    return h5py.File('mc-state-{}-{}'.format(os.getpid(), new_state.counter),
                     driver='core', backing_store=False, mode='w')
new_state.counter = 0


class Fixed(object):
    """Choice oracle that answers the k-th reordering with a chosen permutation."""

    def __init__(self, order):
        self.order = order
        self.calls = 0

    def pick(self, n):
        self.calls += 1
        return (self.order * 7 + self.calls * 3) % n


def advance(reader, steps):
    """Performs `steps` next() calls; returns the list of results (None = end)."""
    trace = []
    for _ in range(steps):
        try:
            trace.append(shufflelib.batch_pieces(next(reader)))
        except StopIteration:
            trace.append(None)
    return trace


def rest_of_epoch(reader, bound=100):
    result = []
    for _ in range(bound):
        try:
            result.append(shufflelib.batch_pieces(next(reader)))
        except StopIteration:
            return result
    expect(False, 'epoch does not end after restoring')


def run_case(case, ctx):
    if 'reject' in case:
        return run_reject(ctx)
    if 'big' in case:
        return run_big(case, ctx)
    files = shufflelib.FileSet(case['files'])

    def make():
        return files.reader(case['sampling'], case['batch'], case['limit'])

    states = []
    try:
        with rng.controlled(Fixed(case['order']), 1000):
            # Uninterrupted run that saves its position before every call.
            reader = make()
            trace = []
            while trace.count(None) < 2:
                state = new_state()
                reader.get_state(state)
                reader.get_state(state)          # saving again must not matter
                states.append(state)
                trace += advance(reader, 1)
                expect(len(trace) < 100, 'epoch does not end')
            # Saving must not disturb reading: compare with a run without saves.
            with rng.controlled(Fixed(case['order']), 1000):
                plain = advance(make(), len(trace))
            expect(plain == trace, 'saving the position changes what is read')

            ctx.state('run', str(case))
            for k, state in enumerate(states):
                # What the saved reader delivered next, until the epoch ended.
                expected = trace[k:trace.index(None, k)]
                if case['limit'] and k > 0 and trace[k - 1] is not None and expected:
                    last = trace[k - 1][-1][0]
                    if last[-1] != shufflelib.vocab().word_to_id['</s>']:
                        ctx.count('mid_sentence_saves')
                if not expected:
                    ctx.count('restores_at_epoch_end')
                # Restore into readers that are at every possible position j.
                for j in range(len(trace) + 1):
                    other = make()
                    advance(other, j)
                    other.set_state(state)
                    got = rest_of_epoch(other)
                    expect(got == expected,
                           'saved before call {}, restored into a reader after {} calls: delivers {} instead of {}',
                           k, j, got, expected)
                    ctx.step(len(got) + 1)
                    ctx.count('restores_into_new_reader' if j == 0 else 'restores_into_other_position')
                    ctx.state(str(case), k, j)
                    # The reader goes on with a complete epoch afterwards.
                    if j in (0, k):
                        following = shufflelib.lines_of(
                            [p for b in shufflelib.epoch(other, case['batch']) for p in b],
                            files, case['limit'])
                        if not case['sampling']:
                            visible = [i for i in range(len(files.lines)) if files.pieces(i, case['limit'])]
                            expect(sorted(following) == visible, 'epoch after restoring is incomplete: {}', following)
                    ctx.traces += 1
                # Chain: restore, read on, save over the old state, restore that.
                for m in range(len(expected) + 1):
                    other = make()
                    other.set_state(state)
                    advance(other, m)
                    again = new_state()
                    if m % 2:
                        files_other = make()
                        files_other.get_state(again)      # pre-existing content is replaced
                    other.get_state(again)
                    third = make()
                    advance(third, (k + m) % 3)
                    third.set_state(again)
                    got = rest_of_epoch(third)
                    again.close()
                    expect(got == expected[m:],
                           'saved again {} mini-batches after restoring position {}: delivers {} instead of {}',
                           m, k, got, expected[m:])
                    ctx.count('resaved_states')
                    ctx.step(len(got) + 1)
                    ctx.state('chain', str(case), k, m)
                    ctx.traces += 1
            ctx.outcome(case['files'], case['limit'], str(trace))
            ctx.sample('{}: {} calls, every save point restored at every position'.format(case, len(trace)))
    finally:
        for state in states:
            state.close()
        files.close()


def run_big(case, ctx):
    """Positions and orders beyond one and two bytes."""
    size, batch = case['big'], 97
    files = shufflelib.BigFileSet(size)
    try:
        numpy.random.seed(1)
        reader = files.reader([], batch)
        total = -(-size // batch)
        points = sorted(set([0, 1, total // 2, total - 1, total]))
        trace, states = [], {}
        for number in range(total + 1):
            if number in points:
                states[number] = new_state()
                reader.get_state(states[number])
            try:
                trace += files.numbers([next(reader)])
            except StopIteration:
                break
        expect(sorted(trace) == list(range(size)), 'an epoch is not a permutation of the lines')
        for number, state in states.items():
            other = files.reader([], batch)
            other.set_state(state)
            got = files.numbers(batch for batch in other)      # list() would ask for the length
            expect(got == trace[number * batch:], 'restored after {} mini-batches of {} lines: {} lines, not the {} that '
                   'followed', number, size, len(got), size - number * batch)
            ctx.step(len(got) // batch)
            ctx.state('big', size, number)
            state.close()
    finally:
        files.close()


def run_reject(ctx):
    from theanolm.backend import IncompatibleStateError
    files = shufflelib.FileSet([[1, 2]])

    def attempt(edit):
        reader = files.reader([], 1, None)
        state = new_state()
        reader.get_state(state)
        try:
            edit(state)
        except KeyError:
            state.close()
            return              # kept under another name: dropping everything is tried all the same
        try:
            reader.set_state(state)
        except IncompatibleStateError:
            ctx.count('rejected_states')
            ctx.step()
            return
        finally:
            state.close()
        expect(False, 'a state without a complete reading position is accepted')

    def drop_group(state):
        del state['iterator']

    def drop_order(state):
        del state['iterator']['order']

    def drop_position(state):
        del state['iterator'].attrs['next_line']

    if True:
        probe = new_state()
        files.reader([], 1, None).get_state(probe)
        groups = list(probe)
        probe.close()

    def drop_everything(state):
        for name in list(state):
            del state[name]

    attempt(drop_everything)
    for edit in (drop_group, drop_order, drop_position):
        attempt(edit)
    ctx.outcome('reject', tuple(groups))
    files.close()
