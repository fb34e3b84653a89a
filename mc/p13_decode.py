"""P13: unpruned decoding of every small lattice under every scoring option."""

import itertools
import math

from mc import declib, latlib, netlib
from mc.core import Violation, expect

PROPERTY = 'P13'
TITLE = 'Unpruned decoding finds every hypothesis with its exact score'
MUST_COVER = ('null_links', 'parallel', 'several_final', 'final_inside', 'oov', 'oos', 'merged_paths', 'linear', 'classes',
              'unk_penalty', 'unk_from_lattice', 'shortlist', 'no_scores', 'lattice_scale', 'empty_hypothesis',
              'recurrent', 'command_output', 'unk_in_class', 'near_tie', 'many_hypotheses')
ASSUMPTIONS = ['relative tolerance 1e-8 in double precision',
               'with linear interpolation a word sequence carries the score of one of its paths (the order of partial '
               'sums is not preserved by linear interpolation)']
BOUNDS = {
    'quick': 'every multiset of <=3 links on 2-3 nodes x every assignment of 5 labels (2 shortlist words, out-of-shortlist, '
             'unknown, null), 4 links on 4 nodes x 3 labels, all final node sets of 3-node lattices, under 3 option sets; 9 '
             'lattices x 1104 combinations of weight, scales, penalties, unknown word handling, shortlist and interpolation; '
             'recurrent, feed-forward and class-based networks; confusion networks of 2-4 positions with every combination of 1-11 '
             'alternatives that makes at most 18 paths (at least 5 between some two nodes), under 4 option sets',
    'thorough': 'as quick with 4 links on 3 nodes x 5 labels, 5 links on 4 nodes, and all option sets for all lattices of <=2 '
                'links, and confusion networks of up to 72 paths',
}

SCORES = [(-1.25, -0.5), (-0.75, -2.0), (-2.5, -1.125), (-0.3, -0.9), (-1.7, -0.2), (-0.6, -1.6)]
LABELS = {'words': ['a', 'c', 'o', 'zzz', None], 'classes': ['a', 'd', 'p', 'zzz', None]}
SETS = [('lstm', 'words', {'nnlm_weight': 0.5, 'lm_scale': 3.0, 'wi_penalty': -0.35}),
        ('two-inputs', 'classes', {'nnlm_weight': 0.75, 'use_shortlist': True, 'unk_from_lattice': True}),
        ('gru', 'classes', {'nnlm_weight': 0.25, 'linear_interpolation': True, 'unk_penalty': -4.0, 'lm_scale': 0.5})]
WIDE = SETS + [('stack', 'words', {'unk_penalty': -2.5})]
POOL = {'words': ['a', 'zzz', 'c', 'o', 'b', None, 'd', 'yyy', 'p', 'e', 'f'],
        'classes': ['a', 'p', 'zzz', 'c', None, 'b', 'd', 'o', 'yyy', '</w>', 'xxx']}
NETS = [('lstm', 'words'), ('two-inputs', 'classes'), ('stack', 'words'), ('gru', 'unkclass')]


def option_sets():
    for weight, scale, penalty, unk, shortlist, linear in itertools.product(
            (0.0, 0.4, 1.0), ((None, None), (None, 2.0), (3.0, 2.0), (None, 0.0), (0.0, 2.0)),
            ((None, None), (None, -0.5), (0.25, -0.5), (0.0, -0.5)), ('network', 'penalty', 'free', 'lattice', 'never'), (False, True), (False, True)):
        if unk == 'never' and (scale[0] if scale[0] is not None else scale[1]) == 0.0:
            continue                     # zero times minus infinity is not defined
        options = {'nnlm_weight': weight, 'lm_scale': scale[0], 'wi_penalty': penalty[0], 'use_shortlist': shortlist,
                   'linear_interpolation': linear, 'unk_penalty': {'penalty': -3.0, 'free': 0.0, 'never': float('-inf')}.get(unk),
                   'unk_from_lattice': unk == 'lattice'}
        yield options, scale[1], penalty[1]


FIXED = [
    {'nodes': 2, 'links': [[0, 1, 'a']]},
    {'nodes': 3, 'links': [[0, 1, 'a'], [1, 2, 'zzz'], [0, 2, 'o']]},
    {'nodes': 3, 'links': [[0, 1, None], [0, 1, 'c'], [1, 2, 'a'], [1, 2, 'p']]},
    {'nodes': 4, 'links': [[0, 1, 'a'], [0, 2, 'a'], [1, 3, 'o'], [2, 3, 'o'], [1, 2, None]]},
    {'nodes': 4, 'links': [[0, 1, 'zzz'], [1, 2, 'zzz'], [0, 2, None], [2, 3, 'c'], [1, 3, 'yyy']]},
    {'nodes': 3, 'links': [[0, 1, 'a'], [1, 2, 'b']], 'final': [0, 1, 2]},
    {'nodes': 3, 'links': [[0, 1, 'a'], [0, 2, 'a'], [1, 2, None]], 'final': [1, 2]},
    {'nodes': 3, 'links': [[0, 1, '</s>', None, None], [0, 1, 'a', None, -1.0], [1, 2, None, -2.0, None]]},
    # the better one of two links is only a little better and comes last
    {'nodes': 3, 'links': [[0, 1, 'a', -1.00004, -0.5], [0, 1, 'a', -1.0, -0.5], [1, 2, 'zzz', -0.7, -0.6], [1, 2, 'zzz', -0.69997, -0.6]]},
]


def units(tier, seed):
    result = []
    sizes = [(2, 1, 5), (2, 2, 5), (2, 3, 5), (3, 2, 5), (3, 3, 5), (4, 3, 4), (4, 4, 3)]
    if tier == 'thorough':
        sizes += [(3, 4, 5), (4, 5, 3), (5, 5, 2)]
    for which in range(len(SETS)):
        for n, count, labels in sizes:
            for index in range(len(list(latlib.topologies(n, count)))):
                result.append({'kind': 'lattices', 'set': which, 'n': n, 'count': count, 'labels': labels, 'index': index})
        for mask in range(1, 8):
            result.append({'kind': 'final', 'set': which, 'mask': mask})
    for net in NETS:
        for part in range(8):
            result.append({'kind': 'options', 'arch': net[0], 'vocab': net[1], 'part': part})
    result.append({'kind': 'output'})
    for which in range(len(WIDE)):
        for length in (2, 3, 4):
            for part in range(4):
                result.append({'kind': 'wide', 'set': which, 'length': length, 'part': part, 'paths': 72 if tier == 'thorough' else 18})
    if tier == 'thorough':
        for index in range(len(list(latlib.topologies(3, 2))) + len(list(latlib.topologies(2, 2)))):
            for part in range(8):
                result.append({'kind': 'cross', 'index': index, 'part': part})
    return result


def with_scores(links, shift=0):
    return [list(l) + list(SCORES[(i + shift) % len(SCORES)]) if len(l) == 3 else list(l) for i, l in enumerate(links)]


def sausage(width, pool):
    """A confusion network: that many alternatives between each pair of nodes."""
    links = []
    for position, count in enumerate(width):
        for i in range(count):
            number = len(links)
            links.append([position, position + 1, pool[(i + 2 * position) % len(pool)], -0.4 - (number * 7 % 12) / 5,
                          -0.3 - (number * 5 % 13) / 6])
    return {'nodes': len(width) + 1, 'links': links}


def explore(unit, ctx):
    if unit['kind'] == 'lattices':
        arch, vocab, options = SETS[unit['set']]
        shape = list(latlib.topologies(unit['n'], unit['count']))[unit['index']]
        labels = LABELS[vocab]
        labels = labels if unit['labels'] == 5 else [labels[0], labels[4], labels[3], labels[2]][:unit['labels']]
        for words in itertools.product(labels, repeat=unit['count']):
            links = with_scores([[s, e, w] for (s, e), w in zip(shape, words)])
            ctx.run({'spec': {'nodes': unit['n'], 'links': links}, 'arch': arch, 'vocab': vocab, 'options': options})
    elif unit['kind'] == 'final':
        arch, vocab, options = SETS[unit['set']]
        final = [i for i in range(3) if unit['mask'] >> i & 1]
        for count in (2, 3):
            for shape in latlib.topologies(3, count):
                for words in itertools.product([LABELS[vocab][0], None, 'zzz'], repeat=count):
                    links = with_scores([[s, e, w] for (s, e), w in zip(shape, words)], 2)
                    ctx.run({'spec': {'nodes': 3, 'links': links, 'final': final}, 'arch': arch, 'vocab': vocab,
                             'options': options})
    elif unit['kind'] == 'options':
        for options, scale, penalty in list(option_sets())[unit['part']::8]:
            for spec in FIXED:
                spec = dict(spec, lm_scale=scale, wi_penalty=penalty)
                ctx.run({'spec': dict(spec, links=with_scores(spec['links'])), 'arch': unit['arch'],
                         'vocab': unit['vocab'], 'options': options})
    elif unit['kind'] == 'wide':
        arch, vocab, options = WIDE[unit['set']]
        widths = [w for w in itertools.product(range(1, 12), repeat=unit['length']) if math.prod(w) <= unit['paths'] and max(w) > 4]
        for width in widths[unit['part']::4]:
            ctx.run({'spec': sausage(width, POOL[vocab]), 'arch': arch, 'vocab': vocab, 'options': options})
    elif unit['kind'] == 'cross':
        shapes = [(3, s) for s in latlib.topologies(3, 2)] + [(2, s) for s in latlib.topologies(2, 2)]
        n, shape = shapes[unit['index']]
        for options, scale, penalty in list(option_sets())[unit['part']::8]:
            for words in itertools.product(LABELS['classes'], repeat=2):
                links = with_scores([[s, e, w] for (s, e), w in zip(shape, words)])
                ctx.run({'spec': {'nodes': n, 'links': links, 'lm_scale': scale, 'wi_penalty': penalty},
                         'arch': 'gru', 'vocab': 'classes', 'options': options})
    else:
        for base in (1.0, 2.302585092994046):
            for number in range(len(FIXED)):
                ctx.run({'kind': 'output', 'number': number, 'scale': base})


def run_case(case, ctx):
    if case.get('kind') == 'output':
        return run_output(case, ctx)
    spec, arch, vocab, options = case['spec'], case['arch'], case['vocab'], case['options']
    wanted = declib.all_hypotheses(spec, arch, vocab, options)
    what = '{} {} {}'.format(arch, spec, {k: v for k, v in options.items() if v is not None})
    if not wanted:
        try:
            declib.decode(spec, arch, vocab, options)
        except Exception:
            return
        raise Violation('hypotheses from a lattice without paths: ' + what)
    rows, _, _, _ = declib.decode(spec, arch, vocab, options)
    ctx.step(sum(len(w) * len(p) for w, p in wanted.items()))
    expect(all(x[5] >= y[5] for x, y in zip(rows, rows[1:])), 'hypotheses are not sorted: {}', what)
    words = [row[0] for row in rows]
    expect(len(set(words)) == len(words), 'a word sequence is returned twice: {}', what)
    expect(set(words) == {('<s>',) + w for w in wanted}, 'hypotheses {} instead of {}: {}', sorted(words), sorted(wanted), what)
    linear = options.get('linear_interpolation')
    for row in rows:
        candidates = wanted[row[0][1:]]
        best = max(candidates, key=lambda h: h.total)
        good = candidates if linear else [h for h in candidates if declib.close(h.total, best.total)]
        expect(any(declib.matches(row, h) for h in good),
               'hypothesis {} scored ac={} lattice={} nn={} graph={} total={} instead of {}: {}', row[0], *row[1:],
               good[0], what)
        ctx.count('merged_paths', len(candidates) > 1)
        ctx.count('empty_hypothesis', len(row[0]) == 2)
    labels = [l[2] for l in spec['links']]
    ctx.count('null_links', None in labels)
    ctx.count('parallel', len({(l[0], l[1]) for l in spec['links']}) < len(labels))
    ctx.count('several_final', len(spec.get('final', [0])) > 1)
    ctx.count('final_inside', bool(spec.get('final')) and any(l[0] in spec['final'] for l in spec['links']))
    ctx.count('oov', 'zzz' in labels)
    ctx.count('oos', 'o' in labels or 'p' in labels)
    ctx.count('linear', bool(linear))
    ctx.count('classes', vocab == 'classes')
    ctx.count('unk_in_class', vocab == 'unkclass')
    ctx.count('near_tie', any(0 < abs(x[3] - y[3]) < 1e-4 for x in spec['links'] for y in spec['links'] if x[3] and y[3]))
    ctx.count('unk_penalty', options.get('unk_penalty') is not None)
    ctx.count('unk_from_lattice', bool(options.get('unk_from_lattice')))
    ctx.count('shortlist', bool(options.get('use_shortlist')))
    ctx.count('no_scores', any(l[3] is None for l in spec['links']))
    ctx.count('lattice_scale', spec.get('lm_scale') is not None)
    ctx.count('many_hypotheses', len(wanted) > 16)
    ctx.count('recurrent', arch != 'two-inputs')
    ctx.state(repr(spec), arch, repr(options))
    ctx.outcome(tuple(words), round(rows[0][5], 6))


def run_output(case, ctx):
    """The lines that the decode command prints for a hypothesis."""
    from theanolm.commands.decode import format_token
    spec = dict(FIXED[case['number']])
    spec['links'] = with_scores(spec['links'])
    rows, tokens, _, _ = declib.decode(spec, 'lstm', 'words', {'nnlm_weight': 0.5})
    vocabulary = netlib.network('lstm', 'words', False).vocabulary
    for row, token in zip(rows, tokens):
        text = ' '.join(row[0])
        got = format_token(token, 'u1', vocabulary, case['scale'], 'ref')
        expect(got == 'u1 ' + text, 'ref output {!r}', got)
        got = format_token(token, 'u1', vocabulary, case['scale'], 'trn')
        expect(got == text + ' (u1)', 'trn output {!r}', got)
        fields = format_token(token, 'u1', vocabulary, case['scale'], 'full').split(' ')
        expect(fields[0] == 'u1' and fields[5:] == list(row[0]) and int(fields[4]) == len(row[0]),
               'full output {}', fields)
        for field, value in zip(fields[1:4], (row[1], row[4], row[5])):
            expect(declib.close(float(field), value / case['scale']), 'full output {} instead of {}', field,
                   value / case['scale'])
        ctx.step(3)
        ctx.count('command_output')
