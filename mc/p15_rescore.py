"""P15: rescored lattices of every small deterministic lattice."""

import io
import itertools
import os

from mc import cli, declib, latlib, netlib
from mc.core import Violation, expect

PROPERTY = 'P15'
TITLE = 'A rescored lattice contains the decoded hypotheses with their scores'
MUST_COVER = ('kaldi_shape', 'slf_shape', 'recombined_paths', 'final_scores', 'oov', 'pruned', 'exact_network', 'shared_word',
              'empty_path', 'null_links', 'inner_final', 'chain', 'command_slf', 'command_kaldi')
ASSUMPTIONS = ['determinised lattices: at most one link per word from a node, null links only to the final node or as the only link from '
               'or to a node',
               'the network score of a path that was re-attached after recombination is compared when the network depends on '
               'no more words than the recombination order']
BOUNDS = {
    'quick': 'every deterministic acyclic automaton of <=3 states over 3 words (one unknown) and of 4 states over 2 words, '
             'every set of final states, as Kaldi lattices with final weights, as lattices with one final node or several, and '
             'with a null link before every state x '
             'recombination orders none,1,2,3 x token limits and beams x a recurrent and a feed-forward network; both output '
             'formats through the command line',
    'thorough': 'as quick with 4 states over 3 words',
}

WORDS = ['a', 'c', 'zzz']
OPTIONS = [('two-inputs', {}), ('two-inputs', {'recombination_order': 1}), ('two-inputs', {'recombination_order': 2}),
           ('two-inputs', {'recombination_order': 1, 'max_tokens_per_node': 1}), ('two-inputs', {'recombination_order': 1, 'max_tokens_per_node': 2}),
           ('lstm', {'recombination_order': 1}), ('lstm', {'recombination_order': 2, 'max_tokens_per_node': 2}),
           ('two-inputs', {'recombination_order': 1, 'beam': 0.8, 'nnlm_weight': 0.5, 'unk_from_lattice': True}),
           ('two-inputs', {'recombination_order': 3, 'max_tokens_per_node': 1, 'nnlm_weight': 0.3, 'unk_penalty': -2.0})]


def automata(n, words):
    """Transition tables: for every state but the last a tuple of targets."""
    tables = [list(itertools.product([None] + list(range(s + 1, n)), repeat=words)) for s in range(n - 1)]
    for table in itertools.product(*tables):
        reach = {0}
        for s in range(n - 1):
            if s in reach:
                reach.update(t for t in table[s] if t is not None)
        if len(reach) < n:
            continue
        for mask in range(1 << n):
            final = {s for s in range(n) if mask >> s & 1}
            alive = set(final)
            for s in reversed(range(n - 1)):
                if any(t in alive for t in table[s]):
                    alive.add(s)
            if len(alive) == n:
                yield table, sorted(final)


def units(tier, seed):
    result = []
    for which in range(len(OPTIONS)):
        for n, words, parts in ((1, 1, 1), (2, 3, 1), (3, 3, 4), (4, 2, 4)) + (((4, 3, 32),) if tier == 'thorough' else ()):
            for part in range(parts):
                result.append({'kind': 'automata', 'n': n, 'words': words, 'option': which, 'part': part, 'parts': parts})
    for which, (_, options) in enumerate(OPTIONS):
        if options.get('recombination_order') == 1 and 'max_tokens_per_node' in options:
            result += [{'kind': 'chains', 'option': which, 'first': f} for f in range(3)]
    result.append({'kind': 'command'})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'command':
        for number in range(3):
            for output in ('slf', 'kaldi'):
                for argv in ([], ['--recombination-order', '1'], ['--max-tokens-per-node', '2']):
                    ctx.run({'kind': 'command', 'number': number, 'output': output, 'argv': argv})
        return
    arch, options = OPTIONS[unit['option']]
    if unit['kind'] == 'chains':
        # a hypothesis that others were recombined with is recombined itself
        first = [3, 3, 3]
        first[unit['first']] = 1
        for second in itertools.product((None, 2, 3), repeat=3):
            for third in itertools.product((None, 3), repeat=3):
                if 2 in second and 3 in third:
                    for shape in ('kaldi', 'rising'):
                        ctx.run({'kind': 'automaton', 'table': [first, list(second), list(third)], 'final': [3], 'shape': shape,
                                 'arch': arch, 'options': options})
        return
    every = list(automata(unit['n'], unit['words']))[unit['part']::unit['parts']]
    for table, final in every:
        for shape in ('kaldi', 'slf', 'null', 'null-slf', 'inner', 'rising'):
            if shape.startswith('null') and (unit['n'] > 3 and unit['option'] % 3 or unit['n'] < 2):
                continue
            if shape == 'inner' and (unit['n'] < 2 or unit['n'] > 3 and unit['option'] % 3 != 1):
                continue
            if shape == 'rising' and (unit['n'] < 3 or 'max_tokens_per_node' not in options):
                continue
            if shape in ('slf', 'null-slf') and (final != [unit['n'] - 1] or unit['n'] < 2):
                continue
            ctx.run({'kind': 'automaton', 'table': [list(r) for r in table], 'final': final, 'shape': shape, 'arch': arch,
                     'options': options})


def make_spec(table, final, shape):
    n = len(table) + 1
    links = []
    for s, row in enumerate(table):
        for w, t in enumerate(row):
            if t is not None:
                i = len(links)
                # long paths can be better than short ones
                links.append([s, t, WORDS[w], (2.5 if shape == 'rising' else -0.5) - 0.375 * ((i * 5) % 7), -0.25 - 0.4375 * ((i * 3) % 5),
                              '' if shape.endswith('slf') else '_'.join(str(10 * i + k) for k in range(1 + i % 2))])
    nodes = n
    if shape == 'inner':
        # several final nodes, which can be left
        return {'nodes': nodes, 'links': links, 'final': final, 'id': 'u'}
    if not shape.endswith('slf'):
        for s in final:
            links.append([s, n, None, -0.125 - 0.25 * s, -0.3 - 0.05 * s, '9{}_7'.format(s)])
        nodes += 1
    if shape.startswith('null'):
        # a null link before every state
        for link in links:
            link[0] = 2 * link[0] + 1
            link[1] *= 2
        last = 2 * (nodes - 1) + 1
        links += [[2 * s, 2 * s + 1, None, -0.0625 - 0.15 * s, -0.07 * s, '' if shape.endswith('slf') or s % 3 == 0 else '8{}'.format(s)]
                  for s in range(nodes) if 2 * s + 1 < last or shape.endswith('slf')]
        nodes = last + 1 if shape.endswith('slf') else last
    return {'nodes': nodes, 'links': links, 'id': 'u'}


def original_paths(spec):
    result = {}
    for path in latlib.paths(spec):
        links = [spec['links'][i] for i in path]
        words = tuple(l[2] for l in links if l[2] is not None)
        assert words not in result
        result[words] = (sum(l[3] for l in links), sum(l[4] for l in links), [l[5] for l in links if l[5]], links)
    return result


def lattice_paths(lattice, what):
    """All paths of a lattice object, following outgoing links."""
    result = []

    def walk(node, words, ac, lm, transitions, depth):
        expect(depth < 30, 'the rescored lattice is cyclic: {}', what)
        if node.final:
            result.append((tuple(words), ac, lm, transitions))
        for link in node.out_links:
            expect(link.start_node is node, 'a link belongs to another node: {}', what)
            walk(link.end_node, words + ([link.word] if link.word is not None else []), ac + (link.ac_logprob or 0.0),
                 lm + (link.lm_logprob or 0.0), transitions + ([link.transitions] if link.transitions else []), depth + 1)
    walk(lattice.initial_node, [], 0.0, 0.0, [], 0)
    return result


def verify(spec, rows, paths, arch, options, ctx, what, transitions=True, vocab='words'):
    original = original_paths(spec)
    seen = set()
    decoded = {row[0][1:-1]: row for row in rows}
    exact = arch == 'two-inputs' or options.get('recombination_order') is None
    for words, ac, lm, labels in paths:
        expect(words in original, 'path {} is not in the original lattice: {}', words, what)
        expect(words not in seen, 'path {} occurs twice: {}', words, what)
        seen.add(words)
        o_ac, o_lm, o_labels, links = original[words]
        expect(declib.close(ac, o_ac), 'path {} has acoustic score {} instead of {}: {}', words, ac, o_ac, what)
        if transitions:
            expect('_'.join(labels) == '_'.join(o_labels), 'path {} has labels {} instead of {}: {}', words, labels, o_labels, what)
        if exact or words in decoded:
            nn = 0.0
            history = ()
            for link in links:
                if link[2] is not None:
                    nn += declib.network_score(arch, vocab, history, link[2], link[4], options)
                    history += (link[2],)
            nn += declib.network_score(arch, vocab, history, '</s>', None, options)
            if words in decoded:
                expect(declib.close(nn, decoded[words][3]), 'network score {} of {} instead of {}', decoded[words][3], words,
                       nn)
            expect(declib.close(lm, o_lm + nn), 'path {} has language score {} instead of {} + {}: {}', words, lm, o_lm, nn,
                   what)
            ctx.count('exact_network')
        ctx.count('recombined_paths', words not in decoded)
        ctx.count('empty_path', not words)
    missing = set(decoded) - seen
    expect(not missing, 'decoded hypotheses {} are not paths: {}', sorted(missing), what)
    if options.get('recombination_order') is None:
        expect(seen == set(decoded), 'paths {} that were not decoded: {}', sorted(seen - set(decoded)), what)
    return original, seen


def closure(spec, decoded, recombined):
    """The decoded word sequences, and those where recombination has replaced a beginning by another one."""
    links = {}
    for link in spec['links']:
        links.setdefault(link[0], []).append(link)
    final = set(spec.get('final', [spec['nodes'] - 1]))

    def node(words):
        state = 0
        for word in words:
            while True:
                here = [l[1] for l in links.get(state, ()) if l[2] == word]
                if here:
                    state = here[0]
                    break
                state = [l[1] for l in links[state] if l[2] is None and l[1] not in final][0]
        return state
    original = original_paths(spec)
    recombined = [(dropped, kept, node(dropped) == node(kept)) for dropped, kept in recombined]
    result = set(decoded)
    waiting = list(result)
    while waiting:
        words = waiting.pop()
        for dropped, kept, same in recombined:
            if words[:len(kept)] == kept:
                other = dropped + words[len(kept):]
                if other in original and other not in result and (same or words == kept):
                    result.add(other)
                    waiting.append(other)
    return result


def run_case(case, ctx):
    if case['kind'] == 'command':
        return run_command(case, ctx)
    from theanolm.scoring import RescoredLattice
    spec = make_spec(case['table'], case['final'], case['shape'])
    arch, options = case['arch'], case['options']
    what = '{} {} {}'.format(arch, options, spec['links'])
    rows, tokens, dropped, lattice = declib.decode(spec, arch, 'words', options)
    new = RescoredLattice(lattice, tokens, dropped, netlib.network(arch, 'words', False).vocabulary)
    ctx.step(len(tokens) + len(dropped))
    expect(new.utterance_id == 'u', 'utterance {}', new.utterance_id)
    expect([n.id for n in new.nodes] == list(range(len(new.nodes))), 'node IDs of the rescored lattice: {}', what)
    expect(sum(bool(n.final) for n in new.nodes) == 1, '{} final nodes: {}', sum(bool(n.final) for n in new.nodes), what)
    expect(sorted(id(l) for n in new.nodes for l in n.out_links) == sorted(map(id, new.links)),
           'list of links differs from the links of the nodes: {}', what)
    known = set(map(id, new.nodes))
    expect(all(id(l.end_node) in known for l in new.links), 'a link ends outside the lattice: {}', what)
    useful = {id(n) for n in new.nodes if n.final}
    while True:
        more = {id(l.start_node) for l in new.links if id(l.end_node) in useful} - useful
        if not more:
            break
        useful |= more
    expect(useful == known, 'a node of the rescored lattice leads nowhere: {}', what)
    original, seen = verify(spec, rows, lattice_paths(new, what), arch, options, ctx, what)
    vocab = netlib.network(arch, 'words', False).vocabulary

    def text(history):
        return tuple(vocab.id_to_word[w] if isinstance(w, int) else w for w in history[1:])
    wanted = closure(spec, [row[0][1:-1] for row in rows], [(text(t.history), text(h)) for t, h, _ in dropped
                                                             if text(h)[-1:] != ('</s>',)])
    expect(seen == wanted, 'paths {} instead of {} (decoded: {}): {}', sorted(seen), sorted(wanted), [row[0] for row in rows], what)
    ctx.count('kaldi_shape', case['shape'] == 'kaldi')
    ctx.count('chain', any(tuple(h) == tuple(t.history) for i, (t, _, _) in enumerate(dropped) for _, h, _ in dropped[:i]))
    ctx.count('slf_shape', case['shape'] == 'slf')
    ctx.count('null_links', case['shape'].startswith('null'))
    ctx.count('inner_final', case['shape'] == 'inner' and any(l[0] in case['final'] for l in spec['links']))
    ctx.count('final_scores', case['shape'] == 'kaldi')
    ctx.count('oov', any(l[2] == 'zzz' for l in spec['links']))
    ctx.count('pruned', len(seen) < len(original))
    ctx.count('shared_word', any(x[1:3] == y[1:3] for x, y in itertools.combinations(spec['links'], 2)))
    ctx.state(repr(spec), arch, repr(options))
    ctx.outcome(len(new.nodes), tuple(sorted(seen)))


IDS = {'<eps>': 0, 'a': 1, 'c': 2, 'zzz': 3}
TABLES = [([[1, 2, None], [2, 2, 2]], [1, 2]), ([[1, 1, 2], [3, 2, None], [3, None, 3]], [0, 3]), ([[1, None, 1]], [1])]


def run_command(case, ctx):
    """decode --output slf|kaldi on a Kaldi archive or SLF files."""
    from theanolm.scoring.kaldilattice import KaldiLattice
    from theanolm.scoring.slflattice import SLFLattice
    names = [w for w, _ in sorted(IDS.items(), key=lambda x: x[1])]
    specs = []
    for index in (case['number'], (case['number'] + 1) % 3):
        spec = make_spec(*TABLES[index], 'kaldi')
        spec['id'] = 'utt{}'.format(index)
        specs.append(spec)
    archive = ''
    for spec in specs:
        archive += spec['id'] + '\n'
        for s, t, w, ac, lm, tr in sorted(spec['links'], key=lambda l: l[0]):
            if w is None:
                archive += '{} {},{},{}\n'.format(s, -lm, -ac, tr)
            else:
                archive += '{} {} {} {},{},{}\n'.format(s, t, IDS[w], -lm, -ac, tr)
        archive += '\n'
    words = cli.write('p15-words', ''.join('{} {}\n'.format(w, i) for w, i in IDS.items()))
    source, out = cli.write('p15.lat', archive), cli.scratch('p15-out')
    cli.run('decode', [cli.model(netlib.network('two-inputs', 'words', False)), '--lattices', source, '--lattice-format',
                       'kaldi', '--kaldi-vocabulary', words, '--output', case['output'], '--output-file', out,
                       '--log-file', os.devnull] + case['argv'])
    with open(out, encoding='utf-8') as handle:
        text = handle.read()
    os.unlink(out)
    if case['output'] == 'kaldi':
        blocks = [b for b in text.split('\n\n') if b.strip()]
        results = [KaldiLattice(b.split('\n'), names) for b in blocks]
    else:
        blocks = ['VERSION' + b for b in text.split('VERSION')[1:]]
        results = [SLFLattice(io.StringIO(b)) for b in blocks]
    expect(len(results) == len(specs), '{} rescored lattices instead of {}', len(results), len(specs))
    options = {'recombination_order': 1} if '--recombination-order' in case['argv'] else \
        {'max_tokens_per_node': 2} if case['argv'] else {}
    for spec, result in zip(specs, results):
        expect(result.utterance_id == spec['id'], 'utterance {} instead of {}', result.utterance_id, spec['id'])
        rows, _, _, _ = declib.decode(spec, 'two-inputs', 'words', options)
        what = 'decode --output {} {}'.format(case['output'], case['argv'])
        verify(spec, rows, lattice_paths(result, what), 'two-inputs', options, ctx, what, case['output'] == 'kaldi')
        ctx.step()
    ctx.count('command_' + case['output'])
    ctx.outcome(text)
