"""P24: complete runs of the class tool over small corpora, class counts, vocabularies and formats."""

import contextlib
import gc
import gzip
import io
import itertools
import os
import sys

from mc import cli, wclib
from mc.core import expect

PROPERTY = 'P24'
TITLE = 'The class tool terminates and writes classes that load as optimised'
MUST_COVER = ('numpy', 'theano', 'classes', 'srilm-classes', 'from_counts', 'from_words', 'from_classes', 'from_srilm', 'moved',
              'initial_optimal', 'two_files', 'gz', 'unknown_words', 'unused_words', 'more_classes_than_words', 'one_class',
              'saved_often', 'saved_rarely', 'rerun', 'unicode', 'empty_lines')
ASSUMPTIONS = ['log likelihood as in P23; a move counts as an improvement if it gains more than 1e-8',
               'the output is a regular file; the tool runs in this process through its command line',
               'membership probabilities of a class whose words do not occur in the corpus are not claimed, except that they load',
               'special tokens are not listed in a given vocabulary before the regular words']
BOUNDS = {
    'quick': 'every corpus of 2 of 13 sentences over 4 words x 1-5 classes (numpy) and half of them x 2 classes (Theano), every '
             'partition (numpy) of the words given in either class format, both output formats, 3 output frequencies, second runs from the output',
    'thorough': 'every corpus of 3 of 13 sentences, x every partition, Theano on every corpus of 2',
}
CLOSE = 1e-8
SENTENCES = ['a', 'b a', 'c d', 'a a', 'b c d', 'd d a', 'c b a d', 'b b b c', 'd b', 'c a c', 'a c', 'd', 'b d c a']
# (lines, vocabulary words or None, class names, number of classes)
EXTRA = [
    (['a b x', 'y a', 'c <unk> d', '', 'd a'], 'a b c d', (0, 0, 1, 1), 2),
    (['a b x', 'y a', '', '', 'c d d a'], None, None, 3),
    (['a b c d e', 'e d c b a', 'a a b', 'e c e c'], 'a b c d e', (0, 1, 2, 0, 1), 2),
    (['a b c d e', 'e d c b a', 'a a b', 'e c e c'], None, None, 3),
    (['a b c', 'c b a'], 'a b c z w', (0, 0, 1, 0, 1), 2),
    (['a b c', 'c b a'], 'a b c z w', (0, 0, 1, 2, 2), 2),
    (['\u00e4iti \u6f22 b', 'b \u00e4iti', 'b \u6f22 \u6f22'], None, None, 2),
    (['a <sil> b', '<sil> c <sil>', 'b a c'], None, None, 2),
    (['<s> a b </s>', 'a b', '<s> c', 'd </s>'] * 3, 'd c b a', (0, 1, 0, 1), 2),
]


def units(tier, seed):
    result = []
    deep = tier == 'thorough'
    every = list(itertools.combinations(SENTENCES, 3 if deep else 2))
    for part in range(24):
        result.append({'kind': 'numpy', 'corpora': [list(c) for c in every[part::24]]})
    two = list(itertools.combinations(SENTENCES, 2))
    for i in range(0, len(two), 1 if deep else 2):
        result.append({'kind': 'theano', 'corpora': [list(two[i])]})
    for i in range(len(EXTRA)):
        for method in ('numpy', 'theano'):
            result.append({'kind': 'extra', 'index': i, 'method': method})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'extra':
        lines, words, names, count = EXTRA[unit['index']]
        formats = [None] if words is None else ['words', 'classes', 'srilm-classes']
        for i, vocab_format in enumerate(formats):
            for output in ('classes', 'srilm-classes') if unit['method'] == 'numpy' else ('srilm-classes',):
                ctx.run(case(unit['method'], lines, words, names, vocab_format, output, count, files=2, gz=bool(i % 2)))
        return
    every = [names for count in (1, 2, 3) for names in wclib.partitions('abcd', count)]
    for i, lines in enumerate(unit['corpora']):
        if unit['kind'] == 'theano':
            ctx.run(case('theano', lines, None, None, None, 'srilm-classes', 2))
            names = every[(7 * i + len(''.join(lines))) % len(every)]
            ctx.run(case('theano', lines, 'a b c d', names, 'classes', 'classes', 2))
            continue
        for count in range(1, 6):
            ctx.run(case('numpy', lines, None, None, None, ('classes', 'srilm-classes')[count % 2], count, frequency=count % 4 * 2))
        for k, names in enumerate(every):
            ctx.run(case('numpy', lines, 'a b c d', names, ('srilm-classes', 'classes')[k // 4 % 2],
                         ('classes', 'srilm-classes')[k // 8 % 2], 9, frequency=k % 3))


def case(method, lines, words, names, vocab_format, output, count, frequency=1, files=1, gz=False):
    return {'method': method, 'lines': lines, 'words': words and words.split(), 'names': names and list(names),
            'vocab_format': vocab_format, 'output': output, 'count': count, 'frequency': frequency, 'files': files, 'gz': gz}


def run_tool(case, vocab_text, vocab_format):
    from wordclasses import wctool
    paths = []
    share = (len(case['lines']) + case['files'] - 1) // case['files']
    for i in range(case['files']):
        text = ''.join(line + '\n' for line in case['lines'][i * share:(i + 1) * share])
        path = cli.scratch('wc-{}.txt{}'.format(i, '.gz' if case['gz'] else ''))
        with (gzip.open if case['gz'] else open)(path, 'wt', encoding='utf-8') as handle:
            handle.write(text)
        paths.append(path)
    output = cli.scratch('wc-out')
    # a file that exists is replaced
    with open(output, 'w', encoding='utf-8') as handle:
        handle.write('CLASS-00001 0.5 old\n' * 40)
    argv = ['wctool', '--training-set'] + paths + ['--output-file', output, '--output-format', case['output'],
                                                  '--output-frequency', str(case['frequency']), '--num-classes', str(case['count']),
                                                  '--method', 'bigram-' + case['method'], '--log-level', 'warn']
    if vocab_text is not None:
        argv += ['--vocabulary', cli.write('wc-vocabulary', vocab_text), '--vocabulary-format', vocab_format]
    saved = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            wctool.main()
    finally:
        sys.argv = saved
    gc.collect()
    with open(output, encoding='utf-8') as handle:
        text = handle.read()
    for path in paths + [output]:
        os.remove(path)
    return text


def parse(text, output, what):
    classes, probs = {}, {}
    for line in text.split('\n')[:-1]:
        fields = line.split(' ')
        if output == 'classes':
            expect(len(fields) == 2, 'output line {!r}: {}', line, what)
            word, name = fields[0], str(int(fields[1]))
        else:
            expect(len(fields) == 3, 'output line {!r}: {}', line, what)
            name, word = fields[0], fields[2]
            probs[word] = float(fields[1])
        expect(word not in classes, '{} is listed twice: {}', word, what)
        classes[word] = name
    expect(text.endswith('\n'), 'the last output line is incomplete: {}', what)
    return classes, probs


def same_partition(a, b):
    return all((a[v] == a[w]) == (b[v] == b[w]) for v in a for w in a)


def run_case(case, ctx):
    from theanolm.vocabulary import Vocabulary
    lines, words = case['lines'], case['words']
    what = '{} {} {} {}'.format(case['method'], lines[:6], case['names'] if words else case['count'], case['output'])
    vocab_text = None
    if case['vocab_format'] == 'words':
        vocab_text = ''.join(w + '\n' for w in words)
    elif case['vocab_format'] == 'classes':
        vocab_text = ''.join('{} {}\n'.format(w, n * 7 + 3) for w, n in zip(words, case['names']))
    elif case['vocab_format'] == 'srilm-classes':
        vocab_text = ''.join('C{} {} {}\n'.format(n, 0.5, w) for w, n in zip(words, case['names']))
    known = set(words) if words else {w for line in lines for w in line.split() if w not in wclib.SPECIAL}
    stats = wclib.statistics(lines, known)
    listed = known | set(wclib.SPECIAL)

    def check(text):
        classes, probs = parse(text, case['output'], what)
        expect(set(classes) == listed, 'the output lists {} instead of {}: {}', sorted(classes), sorted(listed), what)
        special = {classes[w] for w in wclib.SPECIAL}
        expect(len(special) == 3 and all(classes[w] not in special for w in known), 'a special token shares its class: {}', what)
        normal = sorted({classes[w] for w in known if not wclib.is_special(w) or
                         sum(1 for v in known if classes[v] == classes[w]) > 1})
        for w in sorted(known):
            gains = wclib.gains(stats, classes, w, normal)
            ctx.step()
            best = max(gains.values()) if gains else 0
            expect(best <= CLOSE, 'moving {} would still improve the log likelihood by {}: {}', w, best, what)
        counts = {c: sum(stats[0].get(w, 0) for w in classes if classes[w] == c) for c in classes.values()}
        want = wclib.membership(stats, classes)
        for w in probs:
            expect(not counts[classes[w]] or abs(probs[w] - want[w]) < 1e-6,
                   'membership probability of {} is written as {} instead of {}: {}', w, probs[w], want[w], what)
        vocab = Vocabulary.from_file(io.StringIO(text), case['output'])
        expect(vocab.num_words() == len(listed), 'the output loads as {} words: {}', vocab.num_words(), what)
        loaded = {w: int(vocab.word_id_to_class_id[vocab.word_to_id[w]]) for w in listed}
        expect(same_partition(loaded, classes), 'the output loads as different classes {}: {}', loaded, what)
        for w in probs:
            got = float(vocab.get_word_prob(vocab.word_to_id[w]))
            expect(abs(got - want[w]) < 1e-6 if counts[classes[w]] else 0 <= got <= 1,
                   'membership probability of {} loads as {} instead of {}: {}', w, got, want[w], what)
        return classes

    text = run_tool(case, vocab_text, case['vocab_format'])
    classes = check(text)
    used = {classes[w] for w in known}
    if case['vocab_format'] == 'words':
        expect(len(used) == len(known), 'words given without classes share one: {}', what)
    elif words:
        initial = dict(zip(words, case['names']))
        initial.update((w, w) for w in wclib.SPECIAL)
        expect(len(used) == len(set(case['names'])), 'the number of classes changes to {}: {}', len(used), what)
        gain = wclib.log_likelihood(stats, classes) - wclib.log_likelihood(stats, initial)
        expect(gain > -CLOSE, 'the log likelihood of the given classes decreases by {}: {}', -gain, what)
        names = sorted(set(case['names']))
        optimal = all(g < -CLOSE for w in words for g in wclib.gains(stats, initial, w, names).values())
        if optimal:
            expect(same_partition(initial, classes), 'optimal classes are changed to {}: {}', classes, what)
        ctx.count('initial_optimal', optimal)
        ctx.count('moved', not same_partition(initial, classes))
    else:
        normal = [w for w in known if not wclib.is_special(w)]
        if len(normal) == len(known):
            expect(len(used) == min(case['count'], len(known)), '{} classes are formed: {}', len(used), what)
    # a second run that starts from the output changes nothing that matters
    if case['frequency'] != 1:
        again = check(run_tool(case, text, case['output']))
        gain = wclib.log_likelihood(stats, again) - wclib.log_likelihood(stats, classes)
        expect(abs(gain) < 1e-6, 'a second run changes the log likelihood by {}: {}', gain, what)
        ctx.count('rerun')
    ctx.state(what, sorted(classes.items()))
    ctx.outcome(what, text)
    ctx.count(case['method'])
    ctx.count(case['output'])
    ctx.count({None: 'from_counts', 'words': 'from_words', 'classes': 'from_classes', 'srilm-classes': 'from_srilm'}[case['vocab_format']])
    ctx.count('two_files', case['files'] > 1)
    ctx.count('gz', case['gz'])
    ctx.count('unknown_words', stats[0].get('<unk>', 0) > 0)
    ctx.count('unused_words', any(w not in stats[0] for w in known))
    ctx.count('more_classes_than_words', words is None and case['count'] > len(known))
    ctx.count('one_class', len(used) == 1)
    ctx.count('saved_often', case['frequency'] > 3)
    ctx.count('saved_rarely', case['frequency'] == 0)
    ctx.count('unicode', any(ord(c) > 255 for w in known for c in w))
    ctx.count('empty_lines', '' in lines)
