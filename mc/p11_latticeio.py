"""P11: reading and writing every small lattice in every spelling."""

import io
import itertools
import math

from mc import latlib
from mc.core import Violation, expect

PROPERTY = 'P11'
TITLE = 'Lattice files are read and written faithfully'
MUST_COVER = ('slf_link_words', 'slf_node_words', 'slf_linear', 'slf_base', 'slf_written', 'kaldi', 'kaldi_written',
              'quoted', 'null_words', 'rejected', 'long', 'no_scores', 'start_given', 'kaldi_start', 'start_chosen', 'start_entered')
ASSUMPTIONS = ['SLF: forward lattices; the size line is the last line of the header; the utterance has a name when it is '
               'written',
               'Kaldi: text compact lattices with a word on every transition that does not enter the final state']
BOUNDS = {
    'quick': 'SLF: every multiset of <=4 links on <=3 nodes and of 3-4 links on 4 nodes x 3 node numberings x 6 bases x 6 scale/penalty pairs x 5 utterance names x '
             'words on nodes/links x long/short field names x start/end given x line orders (every combination); every acyclic graph of <=4 links on <=4 nodes with one final node x every node named as the start; all pairs of 18 unusual words; '
             'every single removed/contradicting field; a 3000 node chain. Kaldi: every such topology x final weights x '
             'weight spellings x state numberings. Every lattice is written and read back',
    'thorough': 'as quick with 5 links on 3, 4 and 5 nodes',
}

WORDS = ['a', 'b', 'cat', '<s>', '</s>', '<unk>', "it's", 'two words', '"quoted"', 'back\\slash', '\u00e4\u00f6\u4e2d', 'C#',
         'x=y', '!NULL', '!SENT_START', '#1', '+g', 'tab\tword']


def units(tier, seed):
    result = []
    for n, count in ((2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (4, 4), (3, 4)) + \
            (((4, 5), (3, 5), (5, 5)) if tier == 'thorough' else ()):
        for number in range(3):
            result.append({'kind': 'slf', 'n': n, 'count': count, 'number': number, 'all': True})
        result.append({'kind': 'kaldi', 'n': n, 'count': count})
    for n, count in ((2, 1), (3, 2), (3, 3), (4, 3), (4, 4)) + (((4, 5), (5, 4)) if tier == 'thorough' else ()):
        result.append({'kind': 'sources', 'n': n, 'count': count})
    result.append({'kind': 'words'})
    result.append({'kind': 'bad'})
    result.append({'kind': 'long'})
    return result


def numbering(n, number):
    if number == 0:
        return list(range(n))
    if number == 1:
        return list(reversed(range(n)))
    return [(i + 1) % n for i in range(n)]


SPELLINGS = list(itertools.product((0, 1), (0, 1), (0, 1), (0, 1)))
BASES = [None, 2.718281828459045, 10.0, 1.0003, 0.0, 0.5]
SCALES = [(9.5, 0.125), (1.0, 0.0625), (0.0, -2.5), (None, None), (0.5, None), (None, 1.0)]
NAMES = ['an utterance #7', 'utt-1', 'a "b" \\c', 'x=y', '7']


def explore(unit, ctx):
    if unit['kind'] == 'slf':
        for links in latlib.topologies(unit['n'], unit['count']):
            order = numbering(unit['n'], unit['number'])
            links = [[order[s], order[e]] for s, e in links]
            for base in range(len(BASES)):
                for words in ('link', 'node', 'none'):
                    for index, spelling in enumerate(SPELLINGS):
                        if not unit['all'] and (index + base) % 4 and unit['n'] > 2:
                            continue
                        ctx.run({'kind': 'slf', 'nodes': unit['n'], 'links': links, 'base': base, 'words': words,
                                 'spelling': list(spelling), 'start': order[0], 'end': order[-1],
                                 'scale': (index + 5 * base + len(links)) % (5 if BASES[base] == 0.0 else 6),
                                 'name': (index + base) % len(NAMES)})
    elif unit['kind'] == 'kaldi':
        for links in latlib.topologies(unit['n'], unit['count']):
            for number in range(3):
                order = numbering(unit['n'], number)
                for weights in range(4):
                    for final in range(4):
                        ctx.run({'kind': 'kaldi', 'nodes': unit['n'], 'links': [[order[s], order[e]] for s, e in links],
                                 'weights': weights, 'final': final, 'start': order[0], 'end': order[-1]})
    elif unit['kind'] == 'sources':
        pairs = list(itertools.combinations(range(unit['n']), 2))
        for links in itertools.combinations(pairs, unit['count']):
            if set(s for s, _ in links) != set(range(unit['n'] - 1)):
                continue                                            # a second final node
            for number in range(3):
                order = numbering(unit['n'], number)
                for start in range(unit['n']):
                    for spelling in ((0, 1, 0, 0), (1, 1, 1, 0), (0, 1, 0, 1)):
                        ctx.run({'kind': 'sources', 'nodes': unit['n'], 'links': [[order[s], order[e]] for s, e in links],
                                 'start': order[start], 'end': order[-1], 'spelling': list(spelling)})
    elif unit['kind'] == 'words':
        for where in ('link', 'node'):
            for first, second in itertools.product(range(len(WORDS)), repeat=2):
                for style in (0, 1):
                    ctx.run({'kind': 'words', 'where': where, 'words': [WORDS[first], WORDS[second]], 'style': style})
    elif unit['kind'] == 'bad':
        for index in range(len(BAD)):
            ctx.run({'kind': 'bad', 'index': index})
    else:
        for words in ('link', 'node'):
            ctx.run({'kind': 'long', 'words': words})


def quote(value, style=0):
    if style == 1:
        return ''.join('\\' + c if c in ' \t"\\' else c for c in value)
    if any(c in value for c in ' \t"\\#'):
        return '"' + value.replace('\\', '\\\\').replace('"', '\\"') + '"'
    return value


def score(index, which):
    return -(0.25 + 0.375 * index + 0.0625 * index * index + (1.5 if which == 'l' else 0.0))


def slf_text(case, links, node_words, base, spelling, times=True, scores=True, style=0):
    """Spelling: long names / header in one line / links before nodes / comments and empty lines."""
    long_, one, before, noise = spelling
    name = (lambda s, l: l if long_ else s)
    scale, penalty = SCALES[case.get('scale', 0)]
    header = ['VERSION=1.0', '{}={}'.format(name('U', 'UTTERANCE'), quote(NAMES[case.get('name', 0)]))]
    if base is not None and not noise:
        header.append('base={!r}'.format(base))
    if scale is not None:
        header.append('lmscale={}'.format(scale))
    if penalty is not None:
        header.append('wdpenalty={}'.format(penalty))
    if base is not None and noise:
        header.append('base={!r}'.format(base))
    if one:
        header.append('start={}'.format(case['start']))
    if before:
        header.append('end={}'.format(case['end']))
    size = '{}={} {}={}'.format(name('N', 'NODES'), case['nodes'], name('L', 'LINKS'), len(links))
    if not one:                # the two sizes may stand on separate lines, in either order
        size = '\n'.join(size.split() if long_ else reversed(size.split()))
    lines = [' '.join(header[:1]), ' '.join(header[1:]) if one else '\n'.join(header[1:]), size]
    nodes = []
    for i in range(case['nodes']):
        fields = ['I={}'.format(i)]
        if times:
            fields.append('{}={}'.format(name('t', 'time'), 0.5 * i))
        if node_words is not None and node_words[i] is not None:
            fields.append('{}={}'.format(name('W', 'WORD'), quote(node_words[i], style)))
        nodes.append('\t'.join(fields))
    rows = []
    for j, link in enumerate(links):
        fields = ['J={}'.format(j), '{}={}'.format(name('S', 'START'), link[0]), '{}={}'.format(name('E', 'END'), link[1])]
        if link[2] is not None:
            fields.append('{}={}'.format(name('W', 'WORD'), quote(link[2], style)))
        if scores:
            a, l = link[3], link[4]
            if base == 0.0:
                a, l = math.exp(a), math.exp(l)
            fields.append('{}={!r}'.format(name('a', 'acoustic'), a))
            fields.append('{}={!r}'.format(name('l', 'language'), l))
        rows.append('\t'.join(fields))
    body = rows + nodes if before else nodes + rows
    if noise:
        lines.insert(1, '# a comment x=1')
        lines.insert(1, '')
        body.insert(1, '  # it"s I=7 t=9')
        body.insert(3, '')
        body.append('')
    return '\n'.join(lines + body) + '\n'


def expected_links(case, base):
    factor = 1.0 if base in (None, 0.0) else math.log(base)
    return factor


def close(got, wanted):
    if got is None or wanted is None:
        return got is wanted
    return abs(got - wanted) <= 1e-12 * max(1.0, abs(wanted))


def check(lattice, spec, what):
    """Compares a lattice object with the plain description."""
    expect(len(lattice.nodes) == spec['nodes'], '{}: {} nodes instead of {}', what, len(lattice.nodes), spec['nodes'])
    for index, node in enumerate(lattice.nodes):
        expect(node.id == index, '{}: node {} has ID {}', what, index, node.id)
        expect(node.time == spec['times'][index], '{}: node {} at time {} instead of {}', what, index, node.time,
               spec['times'][index])
        expect(bool(node.final) == (index in spec['final']), '{}: node {} final={}', what, index, node.final)
    expect(lattice.initial_node is lattice.nodes[spec['start']], '{}: wrong start node {}', what, lattice.initial_node.id)
    expect(lattice.utterance_id == spec['id'], '{}: utterance {} instead of {}', what, lattice.utterance_id, spec['id'])
    expect(close(lattice.lm_scale, spec['lm_scale']), '{}: LM scale {}', what, lattice.lm_scale)
    expect(close(lattice.wi_penalty, spec['wi_penalty']), '{}: word insertion penalty {} instead of {}', what,
           lattice.wi_penalty, spec['wi_penalty'])
    expect(len(lattice.links) == len(spec['links']), '{}: {} links', what, len(lattice.links))
    found = [[link.start_node.id, link.end_node.id, link.word, link.ac_logprob, link.lm_logprob, link.transitions]
             for link in lattice.links]
    wanted = list(spec['links'])
    for got in found:
        for index, link in enumerate(wanted):
            if list(got[:3]) == list(link[:3]) and close(got[3], link[3]) and close(got[4], link[4]) and \
                    (got[5] or '') == (link[5] if len(link) > 5 else ''):
                del wanted[index]
                break
        else:
            raise Violation('{}: unexpected link {} (instead of one of {})'.format(what, got, wanted))
    for index, node in enumerate(lattice.nodes):
        expect(sorted(map(id, node.out_links)) == sorted(id(l) for l in lattice.links if l.start_node is node),
               '{}: outgoing links of node {}', what, index)
        expect(sorted(map(id, node.in_links)) == sorted(id(l) for l in lattice.links if l.end_node is node),
               '{}: incoming links of node {}', what, index)


def written_slf(lattice):
    from theanolm.scoring.slflattice import SLFLattice
    buffer = io.StringIO()
    lattice.write_slf(buffer)
    return SLFLattice(io.StringIO(buffer.getvalue()))


def run_case(case, ctx):
    from theanolm.backend import InputError
    from theanolm.scoring.slflattice import SLFLattice
    if case['kind'] == 'slf':
        base = BASES[case['base']]
        scores = case['words'] != 'none'
        names = ['a', 'b', '!NULL', 'cat', 'a']
        links = [[s, e, names[i % 5] if case['words'] == 'link' else None, score(i, 'a'), score(i, 'l')]
                 for i, (s, e) in enumerate(case['links'])]
        node_words = None
        if case['words'] == 'node':
            node_words = [names[(i + 1) % 5] for i in range(case['nodes'])]
        times = bool(case['spelling'][3])
        scale, penalty = SCALES[case['scale']]
        if base == 0.0 and penalty is not None and penalty <= 0.0:
            return                      # a negative number is not a probability
        text = slf_text(case, links, node_words, base, case['spelling'], times, scores)
        lattice = SLFLattice(io.StringIO(text))
        factor = expected_links(case, base)
        wanted = []
        for link in links:
            word = node_words[link[1]] if node_words else link[2]
            if word == '!NULL':
                word = None
                ctx.count('null_words')
            wanted.append([link[0], link[1], word, link[3] * factor if scores else None,
                           link[4] * factor if scores else None])
        spec = {'nodes': case['nodes'], 'links': wanted, 'start': case['start'], 'final': [case['end']],
                'times': [0.5 * i if times else None for i in range(case['nodes'])], 'id': NAMES[case['name']],
                'lm_scale': scale, 'wi_penalty': penalty if penalty is None else
                math.log(penalty) if base == 0.0 else penalty * factor}
        check(lattice, spec, 'read')
        check(written_slf(lattice), spec, 'written and read')
        ctx.step(2)
        ctx.state('slf', text)
        ctx.outcome('slf', repr(spec))
        ctx.count('slf_link_words', case['words'] == 'link')
        ctx.count('slf_node_words', case['words'] == 'node')
        ctx.count('no_scores', not scores)
        ctx.count('slf_linear', base == 0.0)
        ctx.count('slf_base', base not in (None, 0.0))
        ctx.count('slf_written')
        ctx.count('start_given', case['spelling'][1] and case['start'] != 0)
        return
    if case['kind'] == 'sources':
        links = [[s, e, 'w{}'.format(i), -1.0 - i, -2.0 - i] for i, (s, e) in enumerate(case['links'])]
        lattice = SLFLattice(io.StringIO(slf_text(case, links, None, None, case['spelling'])))
        spec = {'nodes': case['nodes'], 'links': links, 'start': case['start'], 'final': [case['end']],
                'times': [0.5 * i for i in range(case['nodes'])], 'id': NAMES[0], 'lm_scale': SCALES[0][0],
                'wi_penalty': SCALES[0][1]}
        check(lattice, spec, 'read')
        check(written_slf(lattice), spec, 'written and read')
        entered = set(e for _, e in case['links'])
        ctx.count('start_chosen', case['start'] != min(set(range(case['nodes'])) - entered))
        ctx.count('start_entered', case['start'] in entered)
        ctx.step(2)
        ctx.state('sources', tuple(map(tuple, case['links'])), case['start'])
        return
    if case['kind'] == 'words':
        first, second = case['words']
        links = [[0, 1, first if case['where'] == 'link' else None, -1.0, -2.0],
                 [1, 2, second if case['where'] == 'link' else None, -3.0, -4.0]]
        node_words = ['ignored', first, second] if case['where'] == 'node' else None
        what = {'nodes': 3, 'start': 0, 'end': 2}
        lattice = SLFLattice(io.StringIO(slf_text(what, links, node_words, None, (0, 1, 0, 0),
                                                  style=case['style'])))
        wanted = [[0, 1, None if first[0] in '!#' else first, -1.0, -2.0],
                  [1, 2, None if second[0] in '!#' else second, -3.0, -4.0]]
        spec = {'nodes': 3, 'links': wanted, 'start': 0, 'final': [2], 'times': [0.0, 0.5, 1.0], 'id': 'an utterance #7',
                'lm_scale': 9.5, 'wi_penalty': 0.125}
        check(lattice, spec, 'read')
        check(written_slf(lattice), spec, 'written and read')
        ctx.step(2)
        ctx.state('words', tuple(case['words']), case['where'])
        ctx.count('quoted', '"' in first)
        return
    if case['kind'] == 'bad':
        what, text = BAD[case['index']]
        try:
            SLFLattice(io.StringIO(text))
        except Exception:
            ctx.count('rejected')
            ctx.step()
            ctx.state('bad', text)
            return
        raise Violation('a lattice file with {} is accepted'.format(what))
    if case['kind'] == 'long':
        n = 3000
        links = [[i, i + 1, 'w{}'.format(i + 1) if case['words'] == 'link' else None, -0.5, -0.25] for i in range(n - 1)]
        node_words = ['w{}'.format(i) for i in range(n)] if case['words'] == 'node' else None
        what = {'nodes': n, 'start': 0, 'end': n - 1}
        lattice = SLFLattice(io.StringIO(slf_text(what, links, node_words, None, (0, 0, 0, 0))))
        expect([l.word for l in lattice.links] == ['w{}'.format(i + 1) for i in range(n - 1)], 'words of a long lattice')
        ctx.count('long')
        ctx.step(n)
        return
    # Kaldi
    from theanolm.scoring.kaldilattice import KaldiLattice, read_kaldi_vocabulary
    ids = read_kaldi_vocabulary(io.StringIO('<eps> 0\na 1\n\n<s> 4\n  b\t2 \ncat 3\n</s> 5\n#0 6\n'))
    expect(ids == {'<eps>': 0, 'a': 1, 'b': 2, 'cat': 3, '<s>': 4, '</s>': 5, '#0': 6}, 'Kaldi vocabulary {}', ids)
    words = [w for w, _ in sorted(ids.items(), key=lambda x: x[1])]
    lines, wanted = ['  utt-12  '], []
    rows = []
    for i, (s, e) in enumerate(case['links']):
        word = ('a', 'b', '<eps>', 'cat')[i % 4]
        lm, ac, tr = 0.5 + i, 2.25 + 3 * i, '_'.join(str(7 * i + k) for k in range(i % 3 + 1))
        mode = (case['weights'] + i) % 4
        weight = ('{},{},{}'.format(lm, ac, tr), '{},{}'.format(lm, ac), '{},{},'.format(lm, ac), '-{},-{},{}'.format(
            lm, ac, tr))[mode]
        if mode in (1, 2):
            tr = ''
        if mode == 3:
            lm, ac = -lm, -ac
        rows.append((s, '{} {} {} {}'.format(s, e, ids[word], weight)))
        wanted.append([s, e, None if word == '<eps>' else word, -ac, -lm, tr])
        ctx.count('null_words', word == '<eps>')
    final_weight = ('', '1.5,2.5,9_8', '0.5', '1.5,-2.5')[case['final']]
    rows.append((case['end'], '{} {}'.format(case['end'], final_weight).strip()))
    wanted.append([case['end'], case['nodes'], None] + list(
        [(-0.0, -0.0, ''), (-2.5, -1.5, '9_8'), (-0.0, -0.5, ''), (2.5, -1.5, '')][case['final']]))
    rows.sort(key=lambda r: (r[0] != case['start'], r[0]))
    lines += [r[1] for r in rows] + ['']
    spec = {'nodes': case['nodes'] + 1, 'links': wanted, 'start': case['start'], 'final': [case['nodes']],
            'times': [None] * (case['nodes'] + 1), 'id': 'utt-12', 'lm_scale': None, 'wi_penalty': None}
    lattice = KaldiLattice(lines, words)
    check(lattice, spec, 'read')
    buffer = io.StringIO()
    lattice.write_kaldi(buffer, ids)
    check(KaldiLattice(buffer.getvalue().split('\n'), words), spec, 'written and read')
    check(written_slf(lattice), dict(spec, links=[l[:5] for l in wanted]), 'written as SLF and read')
    for bad in ('#0', '<s>', '</s>'):
        try:
            KaldiLattice(['utt', '0 1 {} 1,2,3'.format(ids[bad]), '1'], words)
        except InputError:
            ctx.count('rejected')
            continue
        raise Violation('a Kaldi lattice with {} is accepted'.format(bad))
    for bad in (['utt'], ['utt', '0 1 2 3 4'], ['utt', '0 x 1 1,2,3'], ['utt', '0 1 99 1,2,3']):
        try:
            KaldiLattice(bad, words)
        except Exception:
            ctx.count('rejected')
            continue
        raise Violation('the Kaldi lattice {} is accepted'.format(bad))
    ctx.step(3)
    ctx.count('kaldi')
    ctx.count('kaldi_written')
    ctx.count('kaldi_start', case['start'] != 0)
    ctx.state('kaldi', tuple(lines))
    ctx.outcome('kaldi', repr(spec))


GOOD = 'VERSION=1.0\nN=3 L=2\nI=0\nI=1\nI=2\nJ=0 S=0 E=1 W=a a=-1 l=-2\nJ=1 S=1 E=2 W=b a=-1 l=-2\n'
BAD = [
    ('no sizes', 'VERSION=1.0\nI=0\n'),
    ('no number of links', GOOD.replace(' L=2', '')),
    ('no number of nodes', GOOD.replace('N=3 ', '')),
    ('too few links', GOOD.replace('L=2', 'L=3')),
    ('too many links', GOOD.replace('L=2', 'L=1')),
    ('a link without start', GOOD.replace('S=0 ', '')),
    ('a link without end', GOOD.replace('E=2 ', '')),
    ('a link to a missing node', GOOD.replace('E=2', 'E=3')),
    ('a missing node', GOOD.replace('N=3', 'N=2')),
    ('two final nodes', GOOD.replace('N=3', 'N=4').replace('I=2\n', 'I=2\nI=3\n')),
    ('a second final node given', GOOD.replace('N=3', 'end=1\nN=3')),
    ('two final nodes named', GOOD.replace('N=3', 'end=1\nend=2\nN=3')),
    ('two final nodes named in the other order', GOOD.replace('N=3', 'end=2\nend=1\nN=3')),
    ('a sub-lattice', GOOD.replace('N=3', 'SUBLAT=x\nN=3')),
    ('words in nodes and links', GOOD.replace('I=1', 'I=1 W=c')),
    ('a field without a value', GOOD.replace('W=a', 'W')),
    ('a score that is not a number', GOOD.replace('a=-1', 'a=x')),
    ('no node without incoming links', GOOD.replace('L=2', 'L=3') + 'J=2 S=2 E=0\n'),
    ('an empty file', ''),
]
