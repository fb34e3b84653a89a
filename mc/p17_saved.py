"""P17: the model file after every event of every bounded training history."""

import itertools
import math

import numpy

from mc import trainlib
from mc.core import expect

PROPERTY = 'P17'
TITLE = 'The model file always holds the best validated model'
MUST_COVER = ('accepted', 'slightly_better', 'worse', 'rolled_back', 'several_epochs', 'even_samples', 'odd_samples',
              'statistic', 'no_validation', 'incomplete', 'position', 'finished', 'killed')
ASSUMPTIONS = ['validation costs are finite; a cost exactly at the 0.1 % limit is not tested',
               'a file that is being written when the process dies is not considered']
BOUNDS = {
    'quick': 'epochs of 3-9 updates x 1-3 validations per epoch x 1,2,3,4,5,7 samples x patience -1,0,1 x median/min/mean/last; '
             'every sequence of 4-6 validation outcomes over {much better, 0.15 % better, 0.05 % better, worse}, killed after '
             'the last sample or run to the end; the file on disk is compared at every update and every validation sample',
    'thorough': 'as quick with sequences of 6-8 outcomes and more schedules',
}

COSTS = [100.0, 99.95, 99.85, 90.0]
CONFIGS = [
    {'lines': 3, 'frequency': 1, 'samples': 1, 'patience': 0},
    {'lines': 4, 'frequency': 2, 'samples': 1, 'patience': 1},
    {'lines': 5, 'frequency': 2, 'samples': 2, 'patience': -1},
    {'lines': 6, 'frequency': 2, 'samples': 3, 'patience': 0},
    {'lines': 7, 'frequency': 2, 'samples': 3, 'patience': 1},
    {'lines': 5, 'frequency': 1, 'samples': 4, 'patience': 0},
    {'lines': 9, 'frequency': 3, 'samples': 3, 'patience': 1},
    {'lines': 8, 'frequency': 3, 'samples': 2, 'patience': 0},
    {'lines': 6, 'frequency': 1, 'samples': 5, 'patience': 1},
    {'lines': 8, 'frequency': 1, 'samples': 7, 'patience': 0},
    {'lines': 7, 'frequency': 3, 'samples': 3, 'patience': 0},
    {'lines': 6, 'frequency': 2, 'samples': 3, 'patience': 1, 'statistic': 'min'},
    {'lines': 6, 'frequency': 2, 'samples': 3, 'patience': 1, 'statistic': 'mean'},
    {'lines': 4, 'frequency': 1, 'samples': 2, 'patience': 0, 'statistic': 'last'},
]
MORE = [
    {'lines': 12, 'frequency': 4, 'samples': 3, 'patience': 1},
    {'lines': 11, 'frequency': 3, 'samples': 3, 'patience': 2},
    {'lines': 9, 'frequency': 2, 'samples': 4, 'patience': 1},
    {'lines': 15, 'frequency': 2, 'samples': 7, 'patience': 1},
]


def units(tier, seed):
    result = []
    for config in CONFIGS + (MORE if tier == 'thorough' else []):
        depth = (5 if config['samples'] < 3 else 4) + (2 if tier == 'thorough' else 0)
        for first in itertools.product(range(len(COSTS)), repeat=2):
            result.append({'kind': 'histories', 'config': config, 'first': list(first), 'depth': depth})
    result.append({'kind': 'no validation', 'deep': tier == 'thorough'})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'no validation':
        for lines in range(1, 6):
            for epochs in range(0, 5 if unit['deep'] else 4):
                ctx.run({'config': {'lines': lines, 'validation': False, 'max_epochs': epochs}, 'outcomes': []})
        return
    for tail in itertools.product(range(len(COSTS)), repeat=unit['depth'] - 2):
        ctx.run({'config': dict(unit['config'], max_epochs=6), 'outcomes': unit['first'] + list(tail)})


def spread(samples, index, base, shift):
    """Sample `index` of a validation whose statistics lie around the base."""
    if samples == 1:
        return base
    if samples % 2:
        offsets = [0.0] + [d for i in range(samples // 2) for d in (-7.0 - i, 23.0 + 5 * i)]
    else:
        offsets = [-1.0, 1.0] + [d for i in range(samples // 2 - 1) for d in (-7.0 - i, 23.0 + 5 * i)]
    return base + offsets[(index + shift) % samples]


def supplier(samples, outcomes):
    """Costs for complete validations in order; misleading ones elsewhere."""
    used = [0]

    def supply(ref, number):
        if number is None:
            return 1.0 + ref.update
        if used[0] >= len(outcomes):
            raise trainlib.Killed()
        cost = spread(samples, number, COSTS[outcomes[used[0]]], used[0] + outcomes[used[0]])
        if number == samples - 1:
            used[0] += 1
        return cost
    return supply


def run_case(case, ctx):
    numpy.random.seed(5 + len(case['outcomes']))
    cfg = dict(trainlib.DEFAULTS, **case['config'])
    run = trainlib.Run(cfg, supplier(cfg['samples'], case['outcomes'])).execute()
    ref = run.ref
    for saved, content in run.files:
        if saved is None:
            continue
        rest = trainlib.rest_of_epoch(cfg, content)
        known = saved['record'][saved['update']:]
        expect(rest[:len(known)] == known and len(rest) == cfg['lines'] - saved['update'],
               'the reader continues from the model file with {} instead of {} (update {})', rest, known, saved['update'])
        ctx.count('position', 0 < len(rest) and 0 < len(known))
        ctx.state(tuple(sorted((k, repr(v)) for k, v in cfg.items())), saved['epoch'], saved['update'], saved['rate'],
                  tuple(saved['costs']))
    ctx.step(run.events)
    ctx.outcome(tuple(ref.costs), ref.best, ref.rollbacks, ref.epoch)
    ctx.count('accepted', ref.saves)
    ctx.count('worse', ref.rejected)
    ctx.count('slightly_better', any(a in (0, 2) and b == 1 for a, b in zip(case['outcomes'], case['outcomes'][1:])))
    ctx.count('rolled_back', ref.rollbacks)
    ctx.count('several_epochs', ref.epoch > 2)
    ctx.count('even_samples' if cfg['samples'] % 2 == 0 else 'odd_samples')
    ctx.count('statistic', cfg['statistic'] is not None)
    ctx.count('no_validation', not cfg['validation'])
    ctx.count('incomplete', cfg['lines'] // cfg['frequency'] < cfg['samples'])
    ctx.count('finished', run.finished)
    ctx.count('killed', run.killed)
