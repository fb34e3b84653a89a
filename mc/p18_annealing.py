"""P18: rollback, learning rate and stopping for every bounded history."""

import itertools

import numpy

from mc import trainlib

PROPERTY = 'P18'
TITLE = 'Annealing restores the best model and training stops by its criterion'
MUST_COVER = ('rollbacks', 'quartered', 'stopped_epochs', 'stopped_annealing', 'stopped_no_improvement', 'killed', 'earlier_epoch',
              'no_patience_limit', 'min_epochs', 'resumed')
ASSUMPTIONS = ['validation costs are finite',
               'training that repeats the same part of an epoch for ever (the minimum number of epochs is never reached) is cut '
               'off by the bound on the number of validations']
BOUNDS = {
    'quick': 'criteria epoch-count, no-improvement, annealing-count x patience -1,0,1,2 x minimum epochs 0,1,2 x maximum epochs '
             '1,3 x annealing limits 0,1,2 x 6 schedules (1-3 validations per epoch of 2-6 updates, 1-3 samples) x every '
             'sequence of 4 outcomes {better, 0.05 % better, worse} (patience 0) or 5-7 outcomes {better, worse} (8 for two schedules without patience); the trainer is compared with the reference at every '
             'update, sample and at the end; a ninth of the runs is continued from the last saved file',
    'thorough': 'as quick with every sequence of 7 outcomes and 9 schedules',
}

SCHEDULES = [{'lines': 2, 'frequency': 1, 'samples': 1}, {'lines': 4, 'frequency': 2, 'samples': 1},
             {'lines': 3, 'frequency': 3, 'samples': 1}, {'lines': 3, 'frequency': 1, 'samples': 3},
             {'lines': 4, 'frequency': 2, 'samples': 2}, {'lines': 6, 'frequency': 2, 'samples': 3}]
MORE = [{'lines': 5, 'frequency': 3, 'samples': 1}, {'lines': 7, 'frequency': 2, 'samples': 3},
        {'lines': 5, 'frequency': 1, 'samples': 4}]


def units(tier, seed):
    result = []
    for schedule in SCHEDULES + (MORE if tier == 'thorough' else []):
        for criterion in ('epoch-count', 'no-improvement', 'annealing-count'):
            for patience in (-1, 0, 1, 2):
                for lowest, highest, limit in itertools.product((0, 1, 2), (1, 3), (0, 1, 2)):
                    if criterion == 'epoch-count' and (lowest != 1 or limit):
                        continue
                    if criterion == 'no-improvement' and limit:
                        continue
                    if patience == -1 and (lowest, limit) != (1, 0):
                        continue
                    if highest == 1 and (lowest == 2 or limit == 2):
                        continue
                    result.append({'config': dict(schedule, criterion=criterion, patience=patience, min_epochs=lowest,
                                                  max_epochs=highest, max_annealing=limit),
                                   'letters': 'BSW' if patience == 0 or tier == 'thorough' else 'BW',
                                   'depth': 7 if tier == 'thorough' else {-1: 4, 0: 4, 1: 5, 2: 5}[patience] +
                                   (2 if schedule['lines'] == 2 and patience > 0 else 0)})
    for schedule in SCHEDULES[:2]:
        for criterion, lowest in itertools.product(('no-improvement', 'annealing-count'), (0, 1)):
            result.append({'config': dict(schedule, criterion=criterion, patience=0, min_epochs=lowest, max_epochs=9,
                                          max_annealing=2), 'letters': 'BW', 'depth': 8 if tier == 'quick' else 11})
    return result


def explore(unit, ctx):
    """All outcome sequences; a run that ends early stands for all longer ones."""
    ended = None
    for outcomes in itertools.product(unit['letters'], repeat=unit['depth']):
        if ended is not None and outcomes[:len(ended)] == ended:
            continue
        LAST.clear()
        ctx.run({'config': unit['config'], 'outcomes': list(outcomes)})
        ended = None if LAST.get('killed', True) else outcomes[:LAST['used']]


LAST = {}


def supplier(samples, outcomes):
    used = [0]

    def supply(ref, number):
        if number is None:
            return 0.5
        if used[0] >= len(outcomes):
            raise trainlib.Killed()
        best = ref.best or 1000.0
        cost = best * {'B': 0.9, 'S': 0.9995, 'W': 1.1}[outcomes[used[0]]]
        if number == samples - 1:
            used[0] += 1
        return cost + (0.0, 11.0, -13.0, 17.0)[number] if samples % 2 else cost
    return supply


def run_case(case, ctx):
    numpy.random.seed(3)
    cfg = dict(trainlib.DEFAULTS, **case['config'])
    outcomes = case['outcomes']
    run = trainlib.Run(cfg, supplier(cfg['samples'], outcomes)).execute()
    ref = run.ref
    LAST.update(killed=run.killed, used=ref.validations)
    ctx.step(run.events)
    ctx.state(tuple(sorted((k, repr(v)) for k, v in cfg.items())), ref.epoch, ref.update, ref.rate, tuple(ref.costs),
              ref.stop_reason, ref.left, ref.previous, ref.improved)
    ctx.outcome(ref.epoch, ref.update, ref.rate, len(ref.costs), ref.stop_reason)
    ctx.count('rollbacks', ref.rollbacks)
    ctx.count('quartered', ref.rate <= 0.25)
    if run.finished:
        ctx.count('stopped_' + ref.stop_reason.replace(' ', '_'))
    ctx.count('killed', run.killed)
    ctx.count('earlier_epoch', bool(ref.rollbacks and ref.saved and cfg['patience'] * 1 >= 1 and ref.saved['epoch'] < ref.epoch))
    ctx.count('no_patience_limit', cfg['patience'] < 0)
    ctx.count('min_epochs', cfg['min_epochs'] > 1)
    # A new process continues from the file: decreases are counted anew.
    if run.killed and run.files and ref.saved is not None and outcomes[1] == 'W' and outcomes[2] != 'W':
        again = trainlib.Run(cfg, supplier(cfg['samples'], outcomes[:2] + ['W', 'W']), saved=ref.saved,
                             content=run.files[-1][1]).execute()
        ctx.step(again.events)
        ctx.count('resumed')
