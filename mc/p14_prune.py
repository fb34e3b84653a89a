"""P14: pruned decoding against a reference, over all limits."""

import itertools
import math
import os

from mc import cli, declib, latlib, netlib
from mc.core import Violation, expect

PROPERTY = 'P14'
TITLE = 'Pruning and recombination only drop hypotheses the limits allow'
MUST_COVER = ('beam_dropped', 'limit_dropped', 'recombined', 'generous', 'timed', 'mixed_times', 'early_pruning',
              'relative', 'relative_minimum', 'command', 'several_final', 'unknown_words')
ASSUMPTIONS = ['runs whose result would depend on a tie are skipped (counted)',
               'the reference is exact for lattices whose processing order is determined by links and times; how relative '
               'pruning derives the limits is left open (it must be sound and never go below the minimum limits)']
BOUNDS = {
    'quick': '71 lattices (chains of 2-4 segments with 1-3 parallel words, null and skipping links, inner final nodes, six parallel nodes, unknown words spelled like word numbers, three '
             'kinds of node times) x every combination of 6 beams, 5 token limits and 5 recombination orders x 2 networks; '
             'relative pruning x 5 factors x minimum limits; every option through the command line',
    'thorough': 'as quick with 400 lattices and 4 networks',
}

BEAMS = (None, 0.0, 0.6, 1.7, 4.0, 1000.0)
LIMITS = (None, 1, 2, 3, 100)
ORDERS = (None, 1, 2, 3, 20)
SEGMENTS = [['a'], ['a', 'c'], ['a', None], ['c', 'zzz', 'a'], ['o', 'a'], ['a', 'a'], [None]]
AC = [-1.25, -0.75, -2.5, -0.3, -1.7, -0.6, -0.95, -1.4, -0.1, -2.1, -1.05, -0.45]
LM = [-0.5, -2.0, -1.125, -0.9, -0.2, -1.6, -0.35, -1.45, -2.6, -0.7, -1.9, -0.15]


def lattices(tier):
    result = []
    for n in (2, 3, 4):
        for shape in itertools.product(range(len(SEGMENTS)), repeat=n):
            for skip in range(3):
                number = len(result)
                links = []
                for position, segment in enumerate(shape):
                    links += [[position, position + 1, w] for w in SEGMENTS[segment]]
                if skip == 1 and n > 1:
                    links.append([0, 2, 'c'])
                if skip == 2 and n > 2:
                    links += [[1, 3, 'a'], [0, n, 'c']]
                links = [l + [AC[(i * 5 + number) % 12], LM[(i * 7 + number) % 12]] for i, l in enumerate(links)]
                times = [None, [float(i) for i in range(n + 1)], [float(i // 2) for i in range(n + 1)],
                         [None if i % 2 else float(i) for i in range(n + 1)]][number % 4]
                spec = {'nodes': n + 1, 'links': links, 'times': times}
                if number % 5 == 0:
                    spec['final'] = [1, n]
                result.append(spec)
    # a fixed selection that keeps every length, segment and skip pattern
    big = [s for s in result if len(latlib.paths(s)) > 2]
    step = max(1, len(big) // (60 if tier == 'quick' else 400))
    return big[::step] + extra()


def extra():
    """Histories that are easily confused, and a good hypothesis far ahead."""
    vocab = netlib.vocabulary('words')
    like = [str(vocab.word_to_id[w]) for w in ('a', 'c')]
    result = []
    for segments in ([['zzz', 'yyy'], ['a', 'c']], [['zzz', 'yyy', 'a'], ['a', None]], [['a', 'c'], ['zzz', 'yyy'], ['c', 'zzz']],
                     [['a'] + like[:1], ['c'] + like[1:], ['a', 'd']], [['a', 'c'] + like, ['a']], [['o', 'p', 'zzz'], ['a', 'd']],
                     [['o', '<unk>', 'zzz'], ['c']]):
        links = [[i, i + 1, w] for i, segment in enumerate(segments) for w in segment]
        result.append({'nodes': len(segments) + 1, 'links': links, 'times': None})
    for times in (None, [0.0] + [1.0] * 6 + [2.0], [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0], [0.0, 1.0, 1.5, 1.0, None, 1.0, 2.0, 2.0]):
        links = [[0, i, 'acdbef'[i - 1]] for i in range(1, 7)] + [[i, 7, 'a'] for i in range(1, 7)] + [[1, 6, 'c']] + \
            [[0, 1, 'o'], [0, 1, 'b'], [0, 3, 'zzz'], [0, 4, 'b']]
        result.append({'nodes': 8, 'links': links, 'times': times, 'ahead': True})
    for number, spec in enumerate(result):
        spec['links'] = [l + [AC[(i * 5 + number) % 12], LM[(i * 7 + number) % 12]] for i, l in enumerate(spec['links'])]
        if spec.pop('ahead', False):
            spec['links'][5][3] = 2.5
    return result


def nets(tier):
    base = [('lstm', 'words', {'nnlm_weight': 0.5, 'lm_scale': 1.5}),
            ('two-inputs', 'words', {'nnlm_weight': 0.8, 'linear_interpolation': True, 'wi_penalty': 0.4})]
    if tier == 'thorough':
        base += [('deep', 'words', {'nnlm_weight': 1.0, 'unk_penalty': -2.0}),
                 ('gru', 'classes', {'nnlm_weight': 0.3, 'unk_from_lattice': True})]
    return base


def units(tier, seed):
    result = []
    for which in range(len(nets(tier))):
        for beam in range(len(BEAMS)):
            for limit in range(len(LIMITS)):
                result.append({'kind': 'grid', 'net': which, 'beam': beam, 'limit': limit, 'tier': tier})
        for factor in range(5):
            result.append({'kind': 'relative', 'net': which, 'factor': factor, 'tier': tier})
    for part in range(6):
        result.append({'kind': 'command', 'part': part})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'command':
        for index, argv in list(enumerate(COMMANDS))[unit['part']::6]:
            ctx.run({'kind': 'command', 'index': index})
        return
    arch, vocab, base = nets(unit['tier'])[unit['net']]
    every = lattices(unit['tier'])
    if unit['kind'] == 'grid':
        for order in ORDERS:
            for spec in every:
                options = dict(base, beam=BEAMS[unit['beam']], max_tokens_per_node=LIMITS[unit['limit']],
                               recombination_order=order)
                ctx.run({'kind': 'grid', 'spec': spec, 'arch': arch, 'vocab': vocab, 'options': options})
        return
    for beam, limit, minimum in itertools.product((None, 3.0), (None, 1, 4), ((0, 0), (2.0, 2), (1e6, 1e6))):
        options = dict(base, beam=beam, max_tokens_per_node=limit, prune_extra_limit=(1, 2, 3, 5, 100)[unit['factor']],
                       abs_min_beam=minimum[0], abs_min_max_tokens=minimum[1])
        for spec in every[::2]:
            ctx.run({'kind': 'relative', 'spec': spec, 'arch': arch, 'vocab': vocab, 'options': options})


def run_case(case, ctx):
    if case['kind'] == 'command':
        return run_command(case, ctx)
    spec, arch, vocab, options = case['spec'], case['arch'], case['vocab'], case['options']
    what = '{} {} {}'.format(arch, {k: v for k, v in options.items() if v is not None}, spec)
    rows, _, _, _ = declib.decode(spec, arch, vocab, options)
    every = declib.all_hypotheses(spec, arch, vocab, options)
    ctx.step(len(rows))
    ctx.state(repr(spec), arch, repr(sorted(options.items(), key=str)))
    expect(rows, 'no result: {}', what)
    expect(all(x[5] >= y[5] for x, y in zip(rows, rows[1:])), 'results are not sorted: {}', what)
    for row in rows:
        expect(any(declib.matches(row, h) for h in every.get(row[0][1:], ())),
               'result {} is not a path with its exact score ({}): {}', row, every.get(row[0][1:]), what)
    expect(len({r[0] for r in rows}) == len(rows), 'a word sequence is returned twice: {}', what)
    if case['kind'] == 'relative':
        ctx.count('relative')
        if options['abs_min_beam'] > 1000:
            expect(len(rows) == len(every), '{} of {} hypotheses left with very large minimum limits: {}', len(rows),
                   len(every), what)
            ctx.count('relative_minimum')
        return
    wanted = declib.pruned(spec, arch, vocab, options)
    if wanted is None:
        ctx.count('skipped_ties')
        return
    expect(len(rows) == len(wanted) and all(declib.matches(r, h) for r, h in zip(rows, wanted)),
           'results {} instead of {}: {}', [' '.join(r[0][1:]) for r in rows], [' '.join(h.words) for h in wanted], what)
    fewer = len(wanted) < len(every)
    beam, limit, order = options['beam'], options['max_tokens_per_node'], options['recombination_order']
    if (beam is None or beam > 100) and (limit is None or limit > 50) and (order is None or order > 10):
        expect(not fewer, 'generous limits dropped something: {}', what)
        ctx.count('generous', beam is not None and limit is not None and order is not None)
    ctx.count('beam_dropped', fewer and limit is None and order is None)
    ctx.count('limit_dropped', fewer and beam is None and order is None)
    ctx.count('recombined', fewer and beam is None and limit is None)
    ctx.count('early_pruning', limit == 1 and len(every) > 3)
    times = spec.get('times') or [None]
    ctx.count('timed', None not in times)
    ctx.count('mixed_times', None in times and len(times) > 1)
    ctx.count('several_final', bool(spec.get('final')))
    ctx.count('unknown_words', any(l[2] == 'zzz' for l in spec['links']))
    ctx.outcome(tuple(r[0] for r in rows))


# command line arguments and the decoder options they stand for
COMMANDS = [
    ([], {}),
    (['--n-best', 3], {}),
    (['--nnlm-weight', 0.25], {'nnlm_weight': 0.25}),
    (['--nnlm-weight', 0.25, '--linear-interpolation'], {'nnlm_weight': 0.25, 'linear_interpolation': True}),
    (['--lm-scale', 2.5], {'lm_scale': 2.5}),
    (['--wi-penalty', -0.75], {'wi_penalty': -0.75}),
    (['--wi-penalty', -0.75, '--log-base', 10], {'wi_penalty': -0.75 * math.log(10)}),
    (['--unk-penalty', -2.5], {'unk_penalty': -2.5}),
    (['--unk-penalty=-inf'], {'unk_penalty': float('-inf')}),
    (['--unk-from-lattice'], {'unk_from_lattice': True}),
    (['--shortlist'], {'use_shortlist': True}),
    (['--shortlist', '--unk-penalty', -1.5], {'use_shortlist': True, 'unk_penalty': -1.5}),
    (['--max-tokens-per-node', 1], {'max_tokens_per_node': 1}),
    (['--max-tokens-per-node', 2], {'max_tokens_per_node': 2}),
    (['--beam', 0.8], {'beam': 0.8}),
    (['--recombination-order', 1], {'recombination_order': 1}),
    (['--recombination-order', 2], {'recombination_order': 2}),
    (['--beam', 6, '--max-tokens-per-node', 6, '--prune-relative', 1, '--abs-min-beam', 0.5, '--abs-min-max-tokens', 2],
     {'beam': 6.0, 'max_tokens_per_node': 6, 'prune_extra_limit': 1, 'abs_min_beam': 0.5, 'abs_min_max_tokens': 2}),
    (['--beam', 6, '--prune-relative', 2, '--abs-min-beam', 0.125], {'beam': 6.0, 'prune_extra_limit': 2,
                                                                      'abs_min_beam': 0.125}),
    (['--max-tokens-per-node', 4, '--prune-relative', 1], {'max_tokens_per_node': 4, 'prune_extra_limit': 1,
                                                            'abs_min_max_tokens': 30}),
]
COMMAND_LATTICES = [
    {'nodes': 4, 'links': [[0, 1, 'a'], [0, 1, 'c'], [1, 2, 'zzz'], [1, 2, 'o'], [2, 3, 'a'], [2, 3, 'c'], [0, 2, 'zzz']],
     'lm_scale': 2.0, 'wi_penalty': -0.25, 'id': 'first'},
    {'nodes': 4, 'links': [[0, 1, 'b'], [0, 1, 'zzz'], [1, 2, None], [1, 2, 'a'], [2, 3, 'd'], [2, 3, 'p']], 'id': 'second'},
]


def slf(spec):
    lines = ['VERSION=1.0', 'U={}'.format(spec['id'])]
    if spec.get('lm_scale') is not None:
        lines.append('lmscale={} wdpenalty={}'.format(spec['lm_scale'], spec['wi_penalty']))
    lines.append('N={} L={}'.format(spec['nodes'], len(spec['links'])))
    lines += ['I={}'.format(i) for i in range(spec['nodes'])]
    for index, link in enumerate(spec['links']):
        lines.append('J={} S={} E={} W={} a={} l={}'.format(index, link[0], link[1], link[2] or '!NULL', link[3], link[4]))
    return '\n'.join(lines) + '\n'


def run_command(case, ctx):
    argv, options = COMMANDS[case['index']]
    options = dict(options)
    specs = [dict(s, links=[l + [AC[(i * 5) % 12], LM[(i * 7) % 12]] for i, l in enumerate(s['links'])])
             for s in COMMAND_LATTICES]
    files = [cli.write('p14-{}.slf'.format(i), slf(s)) for i, s in enumerate(specs)]
    out = cli.scratch('p14-out')
    n_best = 3 if '--n-best' in argv else 100
    more = [] if '--n-best' in argv else ['--n-best', 100]
    printed = cli.run('decode', [cli.model(netlib.network('lstm', 'words', False)), '--lattices'] + files +
                      ['--output', 'full', '--output-file', out, '--log-file', os.devnull] + argv + more)
    with open(out, encoding='utf-8') as handle:
        lines = handle.read().splitlines()
    os.unlink(out)
    wanted = []
    for spec in specs:
        rows, _, _, _ = declib.decode(spec, 'lstm', 'words', options)
        wanted += [(spec['id'], row) for row in rows[:n_best]]
    what = 'decode {}'.format(' '.join(map(str, argv)))
    expect(len(lines) == len(wanted), '{}: {} lines instead of {}', what, len(lines), len(wanted))
    scale = math.log(10) if '--log-base' in argv else 1.0
    for line, (name, row) in zip(lines, wanted):
        fields = line.split(' ')
        expect(fields[0] == name and tuple(fields[5:]) == row[0], '{}: {} instead of {} {}', what, line, name, row)
        for field, value in zip(fields[1:4], (row[1], row[4], row[5])):
            expect(declib.close(float(field), value / scale, 1e-6), '{}: {} instead of {}', what, line, row)
        ctx.step()
    ctx.count('command')
    ctx.state('command', tuple(map(str, argv)))
    ctx.outcome('command', tuple(lines))
