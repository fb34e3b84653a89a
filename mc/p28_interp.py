"""P28: interpolation functions over a grid of log probabilities and weights."""

import itertools
import math
from fractions import Fraction

from mc.core import Violation, expect

PROPERTY = 'P28'
TITLE = 'Probability interpolation is exact over the whole range'
MUST_COVER = ('minus_inf', 'underflow', 'denormal', 'zero_weight', 'normal')
ASSUMPTIONS = ['log probabilities are at least -2e6 or minus infinity']

INF = float('inf')
VALUES = [0.0, -1e-12, -1e-3, -0.25, -0.6931471805599453, -1.0, -2.5, -7.0, -30.0, -100.0, -500.0, -700.0,
          -708.0, -709.5, -720.0, -738.0, -743.0, -744.0, -744.4, -745.0, -745.2, -746.0, -800.0, -1000.0,
          -2000.0, -1e4, -1e5, -1e6, -2e6, -INF]
WEIGHTS = [0.0, 1e-300, 1e-12, 1e-3, 0.1, 0.25, 1.0 / 3, 0.5, 0.75, 0.9, 1.0 - 1e-12, 1.0]
BOUNDS = {
    'quick': 'all pairs of 30 log probabilities (0 to -2e6, dense around the underflow limits, -inf) x 12 linear '
             'weights and 8x8 log-linear priors, every argument as Python float, numpy float32/float64',
    'thorough': 'as quick with 230 log probabilities (steps of 1/8 in the underflow region)',
}
PRIORS = [0.0, 1e-6, 0.1, 0.5, 1.0, 2.0, 17.5, 1e3]


def grid(tier):
    values = list(VALUES)
    if tier != 'quick':
        values += [-700.0 - i / 4.0 for i in range(200)]
    return sorted(set(values))


def units(tier, seed):
    return [{'tier': tier, 'i': i} for i in range(len(grid(tier)))]


def explore(unit, ctx):
    values = grid(unit['tier'])
    first = values[unit['i']]
    for second in values:
        for weight in WEIGHTS:
            for kind in ('float', 'float64', 'float32'):
                ctx.run({'fn': 'linear', 'a': str(first), 'b': str(second), 'w': weight, 'kind': kind})
        for p1, p2 in itertools.product(PRIORS, repeat=2):
            ctx.run({'fn': 'loglinear', 'a': str(first), 'b': str(second), 'p1': p1, 'p2': p2,
                     'kind': 'float64'})


def log_sum(a, b, weight):
    """Reference: log(w e^a + (1-w) e^b) by scaling with the larger term."""
    terms = []
    w2 = float(1 - Fraction(weight))
    if weight > 0 and a > -INF:
        terms.append(math.log(weight) + a)
    if w2 > 0 and b > -INF:
        terms.append(math.log(w2) + b if w2 < 0.5 else math.log1p(-weight) + b)
    if not terms:
        return -INF
    top = max(terms)
    return top + math.log(math.fsum(math.exp(t - top) for t in terms))


def run_case(case, ctx):
    import numpy
    from theanolm.backend import interpolate_linear, interpolate_loglinear
    make = {'float': float, 'float64': numpy.float64, 'float32': numpy.float32}[case['kind']]
    a, b = make(float(case['a'])), make(float(case['b']))
    fa, fb = float(a), float(b)
    ctx.step()
    ctx.count('minus_inf', fa == -INF or fb == -INF)
    ctx.count('underflow', fa < -746 or fb < -746)
    ctx.count('denormal', -745 < fa < -709 or -745 < fb < -709)
    ctx.count('normal', fa > -700 and fb > -700)
    with numpy.errstate(all='ignore'):
        if case['fn'] == 'linear':
            weight = make(case['w'])
            got = float(interpolate_linear(a, b, weight))
            want = log_sum(fa, fb, float(weight))
            ctx.count('zero_weight', float(weight) in (0.0, 1.0))
            if math.isinf(want) or math.isinf(got):
                # weighted terms below every representable probability
                expect(got == want, 'linear interpolation of {} and {} with weight {} is {}, not {}',
                       fa, fb, float(weight), got, want)
            else:
                tol = 1e-6 * max(1.0, abs(want))
                expect(abs(got - want) <= tol, 'linear interpolation of {} and {} with weight {} is {}, not {}',
                       fa, fb, float(weight), got, want)
                expect(min(fa, fb) - tol <= got <= max(fa, fb) + tol, 'result {} outside [{}, {}]', got, fa, fb)
        else:
            got = float(interpolate_loglinear(a, b, make(case['p1']), make(case['p2'])))
            want = (case['p1'] * fa if case['p1'] else 0.0) + (case['p2'] * fb if case['p2'] else 0.0)
            ok = got == want if math.isinf(want) or math.isinf(got) else abs(got - want) <= 1e-9 * max(1, abs(want))
            expect(ok, 'log-linear interpolation of {} and {} with {}, {} is {}, not {}', fa, fb, case['p1'],
                   case['p2'], got, want)
    ctx.state(case['fn'], case['a'], case['b'], case.get('w'), case.get('p1'), case.get('p2'))
    ctx.outcome(round(got, 9) if not math.isinf(got) else 'inf')
