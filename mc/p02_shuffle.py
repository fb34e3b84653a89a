"""P02: every shuffled epoch is exactly the requested sample."""

import itertools
import numpy

from mc.core import Choices, expect
from mc import rng, shufflelib

PROPERTY = 'P02'
TITLE = 'A shuffled epoch is exactly the requested sample of the training data'
MUST_COVER = ('random_outcomes', 'sampled_without_replacement', 'sampled_with_replacement', 'multi_file', 'orders_reached', 'gz')
ASSUMPTIONS = ['random numbers are drawn through the numpy.random module (otherwise the exploration falls back to the generator seeded with every seed of the stated range)',
               'training files are not empty and do not change']
BOUNDS = {
    'quick': 'file sets of <=4 lines in 1-2 files (with empty lines, no final newline, CRLF), sampling fractions '
             '0..2, batch sizes 1-3, limits none/2/3; three epochs with every '
             'outcome of every single random draw (deviation bound 1) and, for <=3 lines, of every pair of draws (bound 2, first epoch); order reachability over seeds 0..399; files of 127-40000 lines with one seed; lines of a single byte; compressed files',
    'thorough': 'as quick with <=5 lines in 1-3 files and batch sizes 1-4',
}


def file_sets(tier):
    sets = [[[1]], [[2, 1]], [[1, 2, 3]], [[2, 0, 1]], [[0, 1]], [[1, 0]], [[3, 2, 1, 1]],
            [[1], [2]], [[2, 1], [1]], [[1], [1, 2]], [[1, 2], [3, 1]], [[0], [2]]]
    if tier == 'thorough':
        sets += [[[1, 2], [1], [3]], [[1], [2], [1, 1]], [[2, 1, 0], [1, 2]], [[4, 1, 2, 3]]]
    return sets


def samplings(files):
    if len(files) == 1:
        return [[], [1.0], [0.5], [0.34], [0.0], [1.5], [2.0]]
    if len(files) == 2:
        return [[], [1.0], [0.5], [0.5, 0.5], [1.0, 0.0], [0.5, 1.5], [2.0], [0.0, 0.34]]
    return [[], [0.5], [0.5, 0.0, 1.0], [1.0, 1.5]]


def units(tier, seed):
    result = []
    for files in file_sets(tier):
        for sampling in samplings(files):
            result.append({'files': files, 'sampling': sampling})
    result.sort(key=lambda u: -sum(len(f) for f in u['files']) * (1 + sum(u['sampling'])))
    for files in ([[1, 2, 1]], [[1], [2, 1]], [[1, 1]]):
        result.append({'files': files, 'reach': True})
    for size in (127, 129, 257) + ((40000,) if tier == 'quick' else (40000, 70000)):
        result.insert(0, {'big': size})
    return result


def explore(unit, ctx):
    if 'big' in unit:
        ctx.run(unit)
        return
    if unit.get('reach'):
        ctx.run({'files': unit['files'], 'sampling': [], 'reach': 400})
        return
    sizes = (1, 2, 3) if ctx.tier == 'quick' else (1, 2, 3, 4)
    for newline, crlf in ((False, False), (True, False)):
        if all(f[-1] for f in unit['files']):
            ctx.run({'files': unit['files'], 'sampling': unit['sampling'], 'newline': newline, 'crlf': crlf,
                     'batch': 2, 'limit': None, 'short': True})
    ctx.run({'files': unit['files'], 'sampling': unit['sampling'], 'newline': True, 'crlf': False, 'batch': 2, 'limit': None, 'gz': True})
    for newline, crlf in ((True, False), (False, False), (True, True)):
        if not newline and unit['files'][-1][-1] == 0 and len(unit['files'][-1]) == 1:
            continue        # an empty file cannot be mapped
        if not newline and any(f == [0] for f in unit['files']):
            continue
        for batch_size in sizes:
            for limit in (None, 2, 3):
                if (not newline or crlf) and (batch_size != 2 or limit == 3):
                    continue
                ctx.run({'files': unit['files'], 'sampling': unit['sampling'],
                         'newline': newline, 'crlf': crlf,
                         'batch': batch_size, 'limit': limit})


def check_epoch(case, files, batches, sampling, ctx):
    limit = case['limit']
    pieces = [piece for batch in batches for piece in batch]
    lines = shufflelib.lines_of(pieces, files, limit)
    start = 0
    for file_index, size in enumerate(files.sizes):
        fraction = sampling[file_index] if file_index < len(sampling) else 1.0
        want = round(fraction * size)
        members = set(range(start, start + size))
        visible = set(i for i in members if files.pieces(i, limit))
        got = [i for i in lines if i in members]
        hidden = size - len(visible)
        if want > size:
            expect(len(got) <= want and (hidden or len(got) == want),
                   'file {}: {} lines instead of {} ({} of the epoch)', file_index, len(got), want, lines)
            if visible:
                ctx.count('sampled_with_replacement')
        else:
            expect(len(set(got)) == len(got), 'file {}: a line is repeated in {}', file_index, lines)
            expect(want - hidden <= len(got) <= want,
                   'file {}: {} lines instead of {}', file_index, len(got), want)
            if want == size:
                expect(set(got) == visible, 'file {}: lines {} missing', file_index, visible - set(got))
            elif want:
                ctx.count('sampled_without_replacement')
        start += size
    if len(files.sizes) > 1:
        ctx.count('multi_file')
    return tuple(lines)


def run_case(case, ctx):
    if 'reach' in case:
        return reachability(case, ctx)
    if 'big' in case:
        return run_big(case, ctx)
    files = shufflelib.FileSet(case['files'], case['newline'], case['crlf'], case.get('short', False), case.get('gz', False))
    try:
        # every single deviation over three epochs
        for choices in Choices.all(limit=200000):
            with rng.controlled(choices, 1):
                reader = files.reader(case['sampling'], case['batch'], case['limit'])
                first = shufflelib.epoch(reader, case['batch'])
                lines1 = check_epoch(case, files, first, case['sampling'], ctx)
                second = shufflelib.epoch(reader, case['batch'])
                lines2 = check_epoch(case, files, second, case['sampling'], ctx)
                number = len(reader)
                third = shufflelib.epoch(reader, case['batch'])
                expect(number == len(third), 'announces {} mini-batches, delivers {}', number, len(third))
                check_epoch(case, files, third, case['sampling'], ctx)
            ctx.traces += 1
            ctx.count('random_outcomes')
            ctx.step(len(first) + len(second) + len(third))
            ctx.state(case['files'], case['sampling'], case['newline'], case['crlf'], case.get('gz'),
                      case['batch'], case['limit'], choices.chosen())
            ctx.outcome(case['files'], lines1, lines2)
        # every pair of deviations in the first epoch
        if len(files.lines) <= 3 and case['batch'] == 2 and case['newline'] and \
                not case['crlf'] and case['limit'] != 3 and max(case['sampling'] + [1.0]) <= 1.0:
            for choices in Choices.all(limit=200000):
                with rng.controlled(choices, 2):
                    reader = files.reader(case['sampling'], case['batch'], case['limit'])
                    first = shufflelib.epoch(reader, case['batch'])
                    lines1 = check_epoch(case, files, first, case['sampling'], ctx)
                ctx.traces += 1
                ctx.count('random_outcomes')
                ctx.step(len(first))
                ctx.state('pair', case['files'], case['sampling'], case['newline'], case['crlf'],
                          case['limit'], choices.chosen())
                ctx.outcome(case['files'], lines1)
        ctx.count('gz', case.get('gz', False))
        ctx.sample('{} sampling={} batch={} limit={} last order {}'.format(
            case['files'], case['sampling'], case['batch'], case['limit'], lines1))
    finally:
        files.close()


def run_big(case, ctx):
    """Files with more lines than counters of one or two bytes can number."""
    size = case['big']
    files = shufflelib.BigFileSet(size)
    try:
        for sampling, want in (([], size), ([0.75], round(0.75 * size)), ([1.25], round(1.25 * size))):
            numpy.random.seed(1)
            reader = files.reader(sampling, 100)
            orders = [files.numbers(batch for batch in reader) for _ in range(2 if size < 1000 else 1)]
            for order in orders:
                expect(len(order) == want, '{} lines instead of {}', len(order), want)
                if want <= size:
                    expect(len(set(order)) == want, '{} lines are repeated', want - len(set(order)))
                if want == size:
                    expect(set(order) == set(range(size)), 'lines of the file are missing')
                ctx.step(len(order) // 100)
            expect(len(orders) == 1 or orders[0] != orders[1], 'the second epoch has the same order')
            ctx.state('big', size, sampling)
    finally:
        files.close()


def reachability(case, ctx):
    """EF: every order of the first and the second epoch has a witness seed."""
    files = shufflelib.FileSet(case['files'])
    case = dict(case, limit=None)
    try:
        n = len(files.lines)
        firsts, seconds, changed = set(), set(), False
        for seed in range(case['reach']):
            numpy.random.seed(seed)
            reader = files.reader([], 2, None)
            one = check_epoch(case, files, shufflelib.epoch(reader, 2), [], ctx)
            two = check_epoch(case, files, shufflelib.epoch(reader, 2), [], ctx)
            firsts.add(one)
            seconds.add(two)
            changed = changed or one != two
            ctx.step(2)
            ctx.state('reach', case['files'], one, two)
        everything = set(itertools.permutations(range(n)))
        expect(firsts == everything, 'orders never drawn for the first epoch: {}', everything - firsts)
        expect(seconds == everything, 'orders never drawn for the second epoch: {}', everything - seconds)
        expect(changed, 'the order never changes between epochs')
        ctx.count('orders_reached', len(everything))
    finally:
        files.close()
