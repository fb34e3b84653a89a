"""P27: the score command's reports on all small texts."""

import itertools
import math
import re

import numpy

from mc import cli, netlib
from mc.core import Violation, expect

PROPERTY = 'P27'
TITLE = 'Score reports add up'
MUST_COVER = ('word_scores', 'perplexity', 'utterance_scores', 'word_boundary', 'prefix_affix', 'merged', 'excluded_word', 'excluded_part',
              'zero', 'shared', 'base', 'empty_line', 'empty_text', 'nothing_counted', 'history', 'unclosed', 'double_boundary',
              'gz', 'several_batches', 'steep')
ASSUMPTIONS = ['with the word boundary marking, a word is what stands between two <w> (sentence start and end included where no <w> '
               'separates them); its log probability includes that of the <w> that ends it, and a <w> that ends no word does not '
               'count; a word with a part written <unk> may be shown as <unk>',
               'with the prefix-affix marking, subwords are joined where the first ends in + and the second starts with +',
               'the numbers are parsed from the labels the report uses today']
BOUNDS = {
    'quick': '2 architectures (and one with probabilities below e^-150) x marking none, word-boundary, prefix-affix x <unk> included/excluded x unigram shares on/off x log base '
             'none, 2, 10: every sentence of <=3 tokens over 7 tokens in one text, sentences of 4-9 tokens, and 8 small texts (empty, '
             'empty lines, everything excluded) x word scores, perplexity and utterance scores',
    'thorough': 'sentences of <=4 tokens over 9 tokens',
}
TOKENS = {
    None: ('classes', ['a', 'z', 'd', 'o', 'žž語', '<unk>', 'p', '<s>', 'c']),
    'word-boundary': ('subwords', ['<w>', 'a', 'b', '<unk>', 'o', 'žž語', 'c+', '</s>', '+d']),
    'prefix-affix': ('subwords', ['c+', '+d', '+e+', 'a', '+žž+', 'p+', '<unk>', '+q', '<w>']),
}
SHARES = {'classes': {'o': 3 / 4, 'p': 1 / 4}, 'subwords': {'p+': 3 / 8, 'o': 3 / 8, '+q': 2 / 8}}
MEMBERSHIP = {'a': 5 / 7, 'b': 2 / 7, 'z': 0.0, 'c': 1 / 4, 'd': 3 / 4}
TEXTS = [[], [''], ['', '  ', ''], ['žž語'], ['<unk>', 'žž語 žž語'], ['<w> a <w>', '', 'b'], ['a'] * 16, ['a b a'] * 17 + ['<w> b <w> žž語']]
LONG = ['<w> a b <w> b <w> c+ žž語 b <w>', 'c+ +e+ +e+ +d a c+ +d', 'a c+ +žž+ +d b p+ +q o', 'b a b a <w> <w> b a <w>', 'a a a a b b d d d']


def units(tier, seed):
    result = []
    for arch in ('plain', 'gru', 'steep'):
        for marking in TOKENS:
            for exclude, shortlist in itertools.product((False, True), repeat=2):
                if arch == 'steep' and (exclude == shortlist or marking == 'prefix-affix'):
                    continue
                result.append({'arch': arch, 'marking': marking, 'exclude': exclude, 'shortlist': shortlist,
                               'base': [None, 2, 10][(exclude + 2 * shortlist + (arch == 'gru')) % 3], 'deep': tier == 'thorough'})
    return result


def explore(unit, ctx):
    tokens = TOKENS[unit['marking']][1]
    tokens = tokens if unit['deep'] else tokens[:7]
    lines = []
    for n in range(1, 5 if unit['deep'] else 4):
        for sentence in itertools.product(tokens, repeat=n):
            if '<s>' not in sentence[1:] and '</s>' not in sentence[:-1]:
                lines.append(' '.join(sentence))
    lines[5:5] = ['', '   ']
    base = {k: unit[k] for k in ('arch', 'marking', 'exclude', 'shortlist', 'base')}
    for kind in ('word-scores', 'perplexity', 'utterance-scores'):
        ctx.run(dict(base, kind=kind, lines=lines + LONG))
        if kind != 'word-scores' and not unit['deep'] and unit['arch'] != 'plain':
            continue
        for i, text in enumerate(TEXTS):
            ctx.run(dict(base, kind=kind, lines=text, gz=i == 5))


_DISTRIBUTION = {}


def network(arch, vocab_name, exclude=False):
    if arch == 'steep':
        # some probabilities are below e^-100
        return netlib.network('plain', vocab_name, True, exclude, scale=12.0)
    return netlib.network(arch, vocab_name, True, exclude)


def distribution(arch, vocab_name, exclude, ids):
    key = (arch, vocab_name, exclude, tuple(ids))
    if key not in _DISTRIBUTION:
        if len(_DISTRIBUTION) > 50000:
            _DISTRIBUTION.clear()
        net = network(arch, vocab_name, exclude)
        matrix, mask = netlib.matrix([ids])
        probs = netlib.output_function(net)(matrix, net.vocabulary.word_id_to_class_id[matrix], mask)[:, 0]
        for n in range(1, len(ids) + 1):
            _DISTRIBUTION[key[:3] + (tuple(ids[:n]),)] = probs[n - 1]
    return _DISTRIBUTION[key]


def scores(case, words):
    """Natural log probability of every token but the first; None for excluded ones."""
    vocab_name = TOKENS[case['marking']][0]
    vocab = netlib.vocabulary(vocab_name)
    unk, limit = vocab.word_to_id['<unk>'], vocab.num_shortlist_words()
    real = [vocab.word_to_id.get(w, unk) for w in words]
    ids = [i if i < limit else unk for i in real]
    result = []
    for n in range(1, len(ids)):
        dist = distribution(case['arch'], vocab_name, case['exclude'], ids[:n])
        word = words[n]
        prob = dist[vocab.word_id_to_class_id[ids[n]]]
        if real[n] == unk:
            value = None if case['exclude'] or case['shortlist'] else prob
        elif real[n] >= limit:
            value = None if case['exclude'] else prob * (SHARES[vocab_name][word] if case['shortlist'] else 1.0)
        else:
            value = prob * (MEMBERSHIP.get(word, 1.0) if vocab_name == 'classes' else 1.0)
        result.append(None if value is None else math.log(value) if value > 0 else -math.inf)
    return result


def add(values):
    return None if any(v is None for v in values) else sum(values)


def merged(words, values, marking):
    """[(subwords, log probability)] of everything after the sentence start."""
    items = list(zip(words[1:], values))
    if marking is None:
        return [([w], v) for w, v in items]
    groups = []
    if marking == 'word-boundary':
        current = []
        for w, v in items:
            current.append((w, v))
            if w == '<w>':
                if len(current) > 1:
                    groups.append(current)
                current = []
        if current:
            groups.append(current)
        return [([w for w, _ in g if w != '<w>'], add([v for _, v in g])) for g in groups]
    for w, v in items:
        if groups and groups[-1][-1][0].endswith('+') and w.startswith('+'):
            groups[-1].append((w, v))
        else:
            groups.append([(w, v)])
    return [([w for w, _ in g], add([v for _, v in g])) for g in groups]


def close(x, y):
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= 1e-8 * max(1.0, abs(y))


def number(pattern, text, what):
    match = re.search('^' + pattern + r': (\S+)$', text, re.M)
    expect(match is not None, 'no line "{}" in the report: {}', pattern, what)
    return float(match.group(1))


def run_case(case, ctx):
    marking = case['marking']
    vocab_name = TOKENS[marking][0]
    net = network(case['arch'], vocab_name)
    vocab = net.vocabulary
    text = cli.write('p27.txt', ''.join(line + '\n' for line in case['lines']))
    output = cli.scratch('p27.out' + ('.gz' if case.get('gz') else ''))
    argv = [cli.model(net), text, '--output-file', output, '--output', case['kind'], '--log-level', 'warn']
    if case['base']:
        argv += ['--log-base', case['base']]
    if case['exclude']:
        argv.append('--exclude-unk')
    if case['shortlist']:
        argv.append('--shortlist')
    if marking:
        argv += ['--subwords', marking]
    what = '{} {} exclude={} shortlist={} base={} {}'.format(case['arch'], marking, case['exclude'], case['shortlist'], case['base'],
                                                             case['lines'] if len(case['lines']) < 9 else '...')
    cli.run('score', argv)
    if case.get('gz'):
        import gzip
        with gzip.open(output, 'rt', encoding='utf-8') as handle:
            report = handle.read()
        ctx.count('gz')
    else:
        with open(output, encoding='utf-8') as handle:
            report = handle.read()
    scale = math.log(case['base']) if case['base'] else 1.0

    sentences = []
    for line in case['lines']:
        words = line.split()
        if not words:
            ctx.count('empty_line')
            continue
        if words[0] != '<s>':
            words.insert(0, '<s>')
        if words[-1] != '</s>':
            words.append('</s>')
        sentences.append((words, scores(case, words)))
    ctx.step(max(1, sum(len(w) for w, _ in sentences)))
    ctx.state(what, case['kind'])
    ctx.count(case['kind'].replace('-', '_'))
    ctx.count('base', case['base'] is not None)

    if case['kind'] == 'utterance-scores':
        got = [float(x) for x in report.split()]
        want = [sum(v for v in values if v is not None and v != -math.inf) / scale for _, values in sentences]
        expect(report.count('\n') == len(want) == len(got), '{} lines of scores for {} sentences: {}', report.count('\n'), len(want),
               what)
        for (words, _), g, w in zip(sentences, got, want):
            expect(close(g, w), 'score of "{}" is {} instead of {}: {}', ' '.join(words), g, w, what)
        ctx.outcome(what, round(sum(got), 6))
        return

    groups = [merged(words, values, marking) for words, values in sentences]
    every = [v for g in groups for _, v in g]
    counted = [v for v in every if v is not None and v != -math.inf]
    totals = {
        'Number of sentences': len(sentences),
        'Number of words': sum(len(g) + 1 for g in groups),
        'Number of tokens': sum(len(w) for w, _ in sentences),
        'Number of predicted probabilities': len(counted),
        r'Number of excluded \(OOV\) words': sum(v is None for v in every),
        'Number of zero probabilities': sum(v == -math.inf for v in every),
    }
    for label, want in totals.items():
        expect(number(label, report, what) == want, '{}: {} instead of {}: {}', label, number(label, report, what), want, what)
    if counted:
        entropy = -sum(counted) / len(counted)
        expect(close(number(r'Cross entropy \(base e\)', report, what), entropy), 'cross entropy {} instead of {}: {}',
               number(r'Cross entropy \(base e\)', report, what), entropy, what)
        if case['base']:
            got = number(r'Cross entropy \(base {}\)'.format(case['base']), report, what)
            expect(close(got, entropy / scale), 'cross entropy {} instead of {} in base {}: {}', got, entropy / scale, case['base'],
                   what)
        expect(close(number('Perplexity', report, what), math.exp(entropy)), 'perplexity {} instead of {}: {}',
               number('Perplexity', report, what), math.exp(entropy), what)
        ctx.outcome(what, round(entropy, 6))
    else:
        ctx.count('nothing_counted', bool(sentences))
        ctx.count('empty_text', not sentences)

    parts = re.split(r'^# Sentence (\d+)\n', report, flags=re.M)
    if case['kind'] == 'perplexity':
        expect(len(parts) == 1, 'word scores in a perplexity report: {}', what)
        return
    expect(not parts[0].strip() or not sentences, 'unexpected output {!r}: {}', parts[0][:50], what)
    expect([int(n) for n in parts[1::2]] == list(range(1, len(sentences) + 1)), 'sentences are not numbered in order: {}', what)
    for (words, values), group, part in zip(sentences, groups, parts[2::2]):
        part = part.split('\nNumber of sentences')[0]
        lines = [line for line in part.split('\n') if line.startswith(('log(p(', 'p('))]
        place = '"{}": {}'.format(' '.join(words), what)
        expect(len(lines) == len(group), '{} words listed, not {} of {}', len(lines), len(group), place)
        shown = [words[0]]
        for line, (subwords, value) in zip(lines, group):
            if value is None:
                match = re.match(r'p\((.*) \| (.*)\) is not predicted', line)
            else:
                match = re.match(r'log\(p\((.*) \| (.*)\)\) = (\S+)', line)
            expect(match is not None, 'word {} is listed as {!r} of {}', ' '.join(subwords), line, place)
            name = ' '.join(subwords)
            ok = match.group(1) == name or ('<unk>' in subwords and match.group(1) == '<unk>' and marking == 'word-boundary')
            expect(ok, 'the word {} is listed as {!r} of {}', name, line, place)
            history = match.group(2)
            tail = ' '.join(shown[-3:])
            expect(history.endswith(tail), 'history {!r} instead of {!r} in {!r} of {}', history, tail, line, place)
            expect(len(history.split()) > len(tail.split()) or len(shown) <= 3, 'words before {!r} are left out without notice in '
                   '{!r} of {}', tail, line, place)
            ctx.count('history', len(shown) > 4)
            ctx.count('steep', value is not None and -700 < value < -150)
            if value is not None:
                expect(close(float(match.group(3)), value / scale), 'log probability of {} is {} instead of {} of {}', name,
                       match.group(3), value / scale, place)
            for w in subwords if match.group(1) == name else []:
                kind = 'OOV' if w not in vocab.word_to_id else 'shortlist' if vocab.word_to_id[w] < vocab.num_shortlist_words() \
                    else 'OOS'
                expect('{}:{}'.format(w, kind) in line, '{} is not shown as {} in {!r} of {}', w, kind, line, place)
            shown.append(match.group(1))
            ctx.count('merged', len(subwords) > 1)
            ctx.count('excluded_word', value is None)
            ctx.count('excluded_part', value is None and len(subwords) > 1)
            ctx.count('zero', value == -math.inf)
            ctx.count('shared', case['shortlist'] and any(w in SHARES[vocab_name] for w in subwords))
            ctx.count('unclosed', marking == 'word-boundary' and subwords[-1] == '</s>' and len(subwords) > 1)
        use = [v for _, v in group if v is not None and v != -math.inf]
        if use:
            match = re.search(r'Sentence perplexity: (\S+)', part)
            expect(match is not None and close(float(match.group(1)), math.exp(-sum(use) / len(use))),
                   'sentence perplexity {} instead of {} of {}', match and match.group(1), math.exp(-sum(use) / len(use)), place)
        ctx.count('double_boundary', '<w> <w>' in ' '.join(words))
        ctx.count('word_boundary', marking == 'word-boundary')
        ctx.count('prefix_affix', marking == 'prefix-affix')
    ctx.count('several_batches', len(sentences) > 16)
