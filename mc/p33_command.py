"""P33: theanolm decode with every pair of options, against the reference decoder."""

import gzip
import io
import itertools
import math
import os

from mc import cli, declib, netlib, p15_rescore
from mc.core import expect

PROPERTY = 'P33'
TITLE = 'The decode command writes what its options describe'
MUST_COVER = ('ref', 'trn', 'full', 'slf', 'kaldi', 'kaldi_input', 'slf_input', 'log_base', 'n_best', 'pruned', 'recombined', 'linear',
              'shortlist', 'unk_penalty', 'unk_from_lattice', 'lm_scale', 'wi_penalty', 'file_scale', 'unnamed', 'classes', 'gz',
              'stdout', 'rescored', 'rejected', 'compared')
ASSUMPTIONS = ['lattices whose result depends on the order of equal scores are not compared',
               'decoding one lattice is specified by the reference decoder that P13 and P14 use']
OUTPUTS = ('ref', 'trn', 'full', 'slf', 'kaldi')
# one element of a command line: (arguments, options of the reference decoder)
CHANGES = [
    (['--nnlm-weight', '0'], {'nnlm_weight': 0.0}), (['--nnlm-weight', '0.4'], {'nnlm_weight': 0.4}),
    (['--lm-scale', '0'], {'lm_scale': 0.0}), (['--lm-scale', '3'], {'lm_scale': 3.0}),
    (['--wi-penalty', '0'], {'wi_penalty': 0.0}), (['--wi-penalty', '-0.7'], {'wi_penalty': -0.7}),
    (['--log-base', '10'], {'log_base': 10}), (['--log-base', '2'], {'log_base': 2}),
    (['--unk-penalty', '-3'], {'unk_penalty': -3.0}), (['--unk-penalty', '0'], {'unk_penalty': 0.0}),
    (['--shortlist'], {'use_shortlist': True}), (['--unk-from-lattice'], {'unk_from_lattice': True}),
    (['--linear-interpolation'], {'linear_interpolation': True}),
    (['--max-tokens-per-node', '1'], {'max_tokens_per_node': 1}), (['--max-tokens-per-node', '3'], {'max_tokens_per_node': 3}),
    (['--beam', '0.9'], {'beam': 0.9}), (['--beam', '3'], {'beam': 3.0}),
    (['--recombination-order', '1'], {'recombination_order': 1}), (['--recombination-order', '2'], {'recombination_order': 2}),
    (['--n-best', '2'], {'n_best': 2}), (['--n-best', '1'], {'n_best': 1}),
]
BOUNDS = {
    'quick': '21 options: none, every one with every output format x input format x model, every pair with one of them; each run '
             'decodes 3 or 5 lattices',
    'thorough': 'every pair of options with every output and input format and model',
}
MODELS = (('two-inputs', 'words'), ('two-inputs', 'classes'), ('lstm', 'words'))
# deterministic lattices: links only to the last node carry no word
LATTICES = [
    {'nodes': 5, 'links': [[0, 1, 'a'], [0, 1, 'c'], [1, 2, 'zzz'], [1, 2, 'o'], [1, 3, 'a'], [2, 3, 'a'], [2, 3, 'c'], [0, 2, 'd'],
                           [3, 4, None]],
     'lm_scale': 2.0, 'wi_penalty': -0.25, 'id': 'first'},
    {'nodes': 5, 'links': [[0, 1, 'b'], [0, 1, 'zzz'], [1, 2, 'b'], [1, 2, 'p'], [2, 3, 'd'], [2, 3, 'p'], [2, 3, 'žluťý'], [3, 4, None]],
     'base': 10.0, 'id': 'séc-ond_2'},
    {'nodes': 4, 'links': [[0, 1, 'a'], [1, 2, 'a'], [0, 2, 'c'], [1, 2, 'd'], [2, 3, None]], 'lm_scale': 0.5, 'wi_penalty': 0.75,
     'base': 2.0, 'id': None},
]
# several links with the same word, words on the last links, links without words
OTHERS = [
    {'nodes': 4, 'links': [[0, 1, 'a'], [0, 1, 'a'], [0, 1, None], [1, 2, None], [1, 2, 'a'], [2, 3, 'd'], [2, 3, 'p'], [0, 3, 'zzz']],
     'id': '4'},
    {'nodes': 2, 'links': [[0, 1, 'c'], [0, 1, 'o'], [0, 1, 'xxx'], [0, 1, None]], 'id': 'last'},
]
WORDS = ['<eps>', 'a', 'b', 'c', 'd', 'o', 'p', 'zzz', 'žluťý', 'xxx']
AC = [-0.5 - 0.4375 * ((5 * i) % 13) - 0.01 * i for i in range(13)]
LM = [-0.25 - 0.3125 * ((4 * i) % 11) - 0.013 * i for i in range(13)]


def units(tier, seed):
    parts = 64 if tier == 'thorough' else 24
    return [{'part': i, 'parts': parts} for i in range(parts)] + [{'part': -1, 'parts': 1}]


def selections(tier):
    """[(set of changes, output, input format, model)]"""
    everything = list(itertools.product(OUTPUTS, ('slf', 'kaldi'), range(len(MODELS))))
    yield from (((), *rest) for rest in everything)
    for change in range(len(CHANGES)):
        for number, rest in enumerate(everything):
            # the models alternate
            if tier == 'thorough' or (number + number // 3 + change) % 3 == 0:
                yield ((change,), *rest)
    number = 0
    for pair in itertools.combinations(range(len(CHANGES)), 2):
        if CHANGES[pair[0]][0][0] == CHANGES[pair[1]][0][0]:
            continue
        if tier == 'thorough':
            for rest in everything:
                yield (pair, *rest)
        else:
            number += 1
            yield (pair, 'full', ('slf', 'kaldi')[number % 2], number % 3)
            yield (pair, ('slf', 'kaldi')[number // 2 % 2], ('slf', 'kaldi')[number % 2], number % 3)


def explore(unit, ctx):
    if unit['part'] < 0:
        for case in ({'missing': 'slf', 'output': 'kaldi'}, {'missing': 'kaldi', 'output': 'ref'}, {'missing': 'kaldi', 'output': 'kaldi'}):
            ctx.run(case)
        for output in ('ref', 'full', 'slf'):
            for where in ('gz', 'stdout'):
                ctx.run({'changes': [], 'output': output, 'format': 'slf', 'model': 0, 'where': where})
        return
    for number, (changes, output, source, model) in enumerate(selections(ctx.tier)):
        if number % unit['parts'] == unit['part']:
            ctx.run({'changes': list(changes), 'output': output, 'format': source, 'model': model})


def specs_for(case):
    specs = LATTICES if case['output'] in ('slf', 'kaldi') else LATTICES + OTHERS
    result = []
    for number, spec in enumerate(specs):
        spec = dict(spec)
        spec['links'] = [l + [AC[(7 * number + 3 * i) % 13], LM[(5 * number + 2 * i) % 13], ''] for i, l in enumerate(spec['links'])]
        if case['format'] == 'kaldi':
            spec['lm_scale'] = spec['wi_penalty'] = spec['base'] = None
            spec['id'] = spec['id'] or 'third'
            for i, link in enumerate(spec['links']):
                link[5] = '_'.join(str(10 * i + k) for k in range(1 + i % 3))
            last = spec['nodes'] - 1
            if any(l[1] == last and l[2] is not None for l in spec['links']):
                # an ordinary state with a final weight
                spec['nodes'] += 1
                spec['links'].append([last, last + 1, None, None, None, ''])
        result.append(spec)
    return result


def slf(spec):
    base = math.log(spec['base']) if spec.get('base') else 1.0
    lines = ['VERSION=1.0']
    if spec['id'] is not None:
        lines.append('UTTERANCE={}'.format(spec['id']))
    if spec.get('base'):
        lines.append('base={}'.format(spec['base']))
    if spec.get('lm_scale') is not None:
        lines.append('lmscale={} wdpenalty={}'.format(spec['lm_scale'], spec['wi_penalty'] / base))
    lines.append('N={} L={}'.format(spec['nodes'], len(spec['links'])))
    lines += ['I={}'.format(i) for i in range(spec['nodes'])]
    for index, (s, e, word, ac, lm, _) in enumerate(spec['links']):
        lines.append('J={} S={} E={} W={} a={!r} l={!r}'.format(index, s, e, word or '!NULL', ac / base, lm / base))
    return '\n'.join(lines) + '\n'


def archive(spec):
    lines = [spec['id']]
    last = spec['nodes'] - 1
    for s, e, word, ac, lm, labels in sorted(spec['links'], key=lambda x: x[0]):
        if e == last and lm is None:
            lines.append(str(s))
        elif e == last:
            lines.append('{} {!r},{!r},{}'.format(s, -lm, -ac, labels))
        else:
            lines.append('{} {} {} {!r},{!r},{}'.format(s, e, WORDS.index(word or '<eps>'), -lm, -ac, labels))
    return '\n'.join(lines) + '\n\n'


def run_case(case, ctx):
    if 'missing' in case:
        return run_missing(case, ctx)
    arch, vocab = MODELS[case['model']]
    options, argv = {}, []
    for change in case['changes']:
        argv += CHANGES[change][0]
        options.update(CHANGES[change][1])
    n_best = options.pop('n_best', None)
    base = options.pop('log_base', None)
    scale = math.log(base) if base else 1.0
    written_penalty = options.get('wi_penalty')
    if written_penalty is not None:
        options['wi_penalty'] *= scale
    if n_best is None and case['output'] == 'full':
        argv += ['--n-best', '100']
        n_best = 100
    specs = specs_for(case)
    words = cli.write('p33-words', ''.join('{} {}\n'.format(w, i) for i, w in enumerate(WORDS)))
    if case['format'] == 'kaldi':
        argv += ['--lattice-format', 'kaldi', '--lattices', cli.write('p33.lat', ''.join(map(archive, specs)))]
    else:
        argv += ['--lattices'] + [cli.write('p33-{}.slf'.format(i), slf(s)) for i, s in enumerate(specs)]
    if 'kaldi' in (case['format'], case['output']):
        argv += ['--kaldi-vocabulary', words]
    out = cli.scratch('p33-out')
    where = case.get('where')
    if where == 'gz':
        out += '.gz'
    if where != 'stdout':
        argv += ['--output-file', out]
    printed = cli.run('decode', [cli.model(netlib.network(arch, vocab, False)), '--log-file', os.devnull, '--output', case['output']] + argv)
    if where == 'stdout':
        text = printed
    elif where == 'gz':
        with gzip.open(out, 'rt', encoding='utf-8') as handle:
            text = handle.read()
    else:
        with open(out, encoding='utf-8') as handle:
            text = handle.read()
    if os.path.exists(out):
        os.unlink(out)
    what = 'decode {} {} {} --output {} {}'.format(arch, vocab, case['format'], case['output'],
                                                   ' '.join(' '.join(CHANGES[i][0]) for i in case['changes']))
    names = [s['id'] if s['id'] is not None else str(i) for i, s in enumerate(specs)]
    wanted = [declib.pruned(s, arch, vocab, options) for s in specs]
    for index, hyps in enumerate(wanted):
        if hyps is not None and any(declib.close(x.total, y.total, 1e-7) for x, y in zip(hyps, hyps[1:])):
            wanted[index] = None
    if case['output'] in ('slf', 'kaldi'):
        check_lattices(case, text, specs, names, wanted, arch, vocab, options, scale, ctx, what)
    else:
        check_lines(case, text, names, wanted, n_best or 1, scale, ctx, what)
    ctx.count(case['output'])
    ctx.count(case['format'] + '_input')
    ctx.count('log_base', base is not None)
    ctx.count('n_best', n_best == 2)
    ctx.count('pruned', options.get('beam') is not None or options.get('max_tokens_per_node') is not None)
    ctx.count('recombined', 'recombination_order' in options)
    ctx.count('linear', 'linear_interpolation' in options)
    ctx.count('shortlist', 'use_shortlist' in options)
    for name in ('unk_penalty', 'unk_from_lattice', 'lm_scale', 'wi_penalty'):
        ctx.count(name, name in options)
    ctx.count('file_scale', case['format'] == 'slf' and 'lm_scale' not in options)
    ctx.count('unnamed', case['format'] == 'slf')
    ctx.count('classes', vocab == 'classes')
    if where:
        ctx.count(where)
    ctx.state(what, where)
    ctx.outcome(text)


def check_lines(case, text, names, wanted, n_best, scale, ctx, what):
    expect(text == '' or text.endswith('\n'), 'unfinished last line: {}', what)
    lines = text.split('\n')[:-1]
    for name, hyps in zip(names, wanted):
        found = []
        while lines and (lines[0].endswith(' ({})'.format(name)) if case['output'] == 'trn' else lines[0].split(' ')[0] == name):
            found.append(lines.pop(0))
        if hyps is None:
            ctx.count('tie')
            continue
        expect(len(found) == min(n_best, len(hyps)), '{} lines for lattice {} instead of {}: {}', len(found), name,
               min(n_best, len(hyps)), what)
        for line, hyp in zip(found, hyps):
            sentence = ' '.join(('<s>',) + hyp.words)
            if case['output'] == 'ref':
                expect(line == '{} {}'.format(name, sentence), '{!r} instead of {!r}: {}', line, sentence, what)
            elif case['output'] == 'trn':
                expect(line == '{} ({})'.format(sentence, name), '{!r} instead of {!r}: {}', line, sentence, what)
            else:
                fields = line.split(' ')
                expect(fields[5:] == sentence.split(' ') and fields[4] == str(len(hyp.words) + 1), '{!r} instead of {!r}: {}', line,
                       sentence, what)
                for field, value in zip(fields[1:4], (hyp.ac, hyp.graph, hyp.total)):
                    expect(declib.close(float(field), value / scale, 1e-6), '{!r} instead of {}/{}: {}', line, hyp, scale, what)
            ctx.step()
            ctx.count('compared')
    expect(not lines, 'unexpected lines {}: {}', lines[:2], what)


def check_lattices(case, text, specs, names, wanted, arch, vocab, options, scale, ctx, what):
    from theanolm.scoring.kaldilattice import KaldiLattice
    from theanolm.scoring.slflattice import SLFLattice
    if case['output'] == 'kaldi':
        found = [KaldiLattice(b.split('\n'), WORDS) for b in text.split('\n\n') if b.strip()]
    else:
        found = [SLFLattice(io.StringIO('VERSION' + b)) for b in text.split('VERSION')[1:]]
    expect([l.utterance_id for l in found] == names, 'lattices {} instead of {}: {}', [l.utterance_id for l in found], names, what)
    for spec, lattice, hyps in zip(specs, found, wanted):
        if case['output'] == 'slf':
            # the scale and the penalty are recorded in the units of the scores
            for name, value in (('lm_scale', lattice.lm_scale), ('wi_penalty', lattice.wi_penalty)):
                if options.get(name) is not None:
                    expect(value is not None and declib.close(float(value), options[name]), '{} {} in the lattice instead of {}: {}',
                           name, value, options[name], what)
        paths = p15_rescore.lattice_paths(lattice, what)
        if hyps is None:
            ctx.count('tie')
            continue
        rows = [(('<s>',) + h.words, h.ac, h.lat, h.nn) for h in hyps]
        p15_rescore.verify(spec, rows, paths, arch, options, ctx, what, case['output'] == case['format'] == 'kaldi', vocab=vocab)
        ctx.step(len(paths))
        ctx.count('rescored')


def run_missing(case, ctx):
    """Kaldi lattices need a word list."""
    out = cli.scratch('p33-out')
    spec = specs_for({'output': 'kaldi', 'format': case['missing']})[0]
    source = cli.write('p33.lat', archive(spec) if case['missing'] == 'kaldi' else slf(spec))
    try:
        cli.run('decode', [cli.model(netlib.network('two-inputs', 'words', False)), '--lattices', source, '--lattice-format',
                           case['missing'], '--output', case['output'], '--output-file', out, '--log-file', os.devnull])
    except SystemExit as error:
        expect(error.code not in (0, None), 'a missing word list ends with status {}', error.code)
    except Exception:
        pass
    else:
        expect(False, 'a missing word list is accepted: {}', case)
    if os.path.exists(out):
        with open(out) as handle:
            expect(not handle.read().strip(), 'output without a word list: {}', case)
        os.unlink(out)
    ctx.count('rejected')
    ctx.state('missing', case['missing'], case['output'])
