"""P23: word class exchange, all sequences of offered words from all initial classes of small corpora."""

import itertools

from mc import wclib
from mc.core import expect

PROPERTY = 'P23'
TITLE = 'Word class exchange never lowers the likelihood and always makes the best move'
MUST_COVER = ('numpy', 'theano', 'moved', 'stayed', 'only_word', 'special', 'special_like', 'zero_count_class', 'zero_count_word',
              'emptied_count', 'three_classes', 'four_classes', 'unknown_words', 'two_files', 'self_bigram', 'converged', 'second_move')
ASSUMPTIONS = ['log likelihood: sum N(c,d) log N(c,d) - 2 sum N(c) log N(c) + sum N(w) log N(w) over the class bigrams, classes and '
               'words of the corpus with sentence boundaries (words outside the vocabulary are <unk>)',
               'classes whose likelihoods differ by less than 1e-8 count as equally good',
               'words that look like <name> are special tokens and never move']
BOUNDS = {
    'quick': 'every corpus of 1-2 of 13 sentences over 4 words, and of 3 over 6 of them, x every partition into 2 or 3 classes '
             '(numpy), a subset of 42 corpora and partitions (Theano): all states reachable by offering words in any order; 9 '
             'corpora with unknown, repeated, unused and special words, up to 4 classes',
    'thorough': 'every corpus of 3 of 13 sentences (numpy), every corpus of 2 (Theano), 5 words',
}
CLOSE = 1e-8
SENTENCES = ['a', 'b', 'c', 'a b', 'b a', 'c d', 'a c', 'a a', 'b c d', 'd d a', 'd', 'c b a d', 'b b b c']
# (lines, words, class names, files)
EXTRA = [
    (['a b x', 'y a', 'c <unk> d', '', 'd a'], 'a b c d', (0, 0, 1, 1), 1),
    (['a b c d e', 'e d c b a', 'a a b', 'e c e c'], 'a b c d e', (0, 1, 2, 0, 1), 2),
    (['a b c d e', 'e d c b a', 'a a b', 'e c e c'], 'a b c d e', (0, 0, 0, 0, 0), 1),
    (['a b c d e', 'e d c', 'a a b', 'e c e c'], 'a b c d e', (0, 1, 2, 3, 0), 3),
    (['a <sil> b', '<sil> c <sil>', 'b a c'], 'a b <sil> c', (0, 0, 1, 1), 1),
    (['<s> a b </s>', 'a b', '<s> c', 'd </s>'] * 3, 'a b c d', (0, 1, 0, 1), 2),
    (['a b', 'c b', 'a d', 'c d', 'a b c d'] * 20, 'a b c d', (0, 1, 1, 0), 1),
    (['a', 'a', 'b'], 'a b z w v', (0, 0, 1, 1, 1), 1),
    (['a < b', '> a'], 'a b < >', (0, 1, 0, 1), 1),
]


def units(tier, seed):
    result = []
    deep = tier == 'thorough'
    for size, alphabet, classes in ((1, 13, (2, 3)), (2, 13, (2, 3)), (3, 13 if deep else 6, (2, 3) if deep else (2,))):
        every = list(itertools.combinations_with_replacement(SENTENCES[:alphabet], size))
        parts = max(1, len(every) // 10)
        for part in range(parts):
            result.append({'kind': 'numpy', 'corpora': [list(c) for c in every[part::parts]], 'classes': list(classes)})
    every = list(itertools.combinations(SENTENCES, 2))
    chosen = every if deep else every[::4] + every[1::40]
    for lines in chosen:
        result.append({'kind': 'theano', 'corpora': [list(lines)], 'classes': [2, 3] if deep else [2]})
    for i in range(len(EXTRA)):
        for method in ('numpy', 'theano'):
            result.append({'kind': 'extra', 'index': i, 'method': method})
    if deep:
        for lines in itertools.combinations(['a b c d e', 'e d c b a', 'a a b', 'e c e c', 'd b', 'b d a'], 3):
            result.append({'kind': 'five', 'lines': list(lines)})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'extra':
        lines, words, names, files = EXTRA[unit['index']]
        ctx.run({'method': unit['method'], 'lines': lines, 'words': words.split(), 'names': list(names), 'files': files})
        return
    if unit['kind'] == 'five':
        for count in (2, 3):
            for names in wclib.partitions('abcde', count):
                ctx.run({'method': 'numpy', 'lines': unit['lines'], 'words': list('abcde'), 'names': list(names), 'files': 1})
        return
    for i, lines in enumerate(unit['corpora']):
        every = [n for c in unit['classes'] for n in wclib.partitions('abcd', c)]
        if unit['kind'] == 'theano' and len(unit['classes']) == 1:
            every = [every[len(''.join(lines)) % len(every)]]
        for names in every:
            ctx.run({'method': unit['kind'], 'lines': lines, 'words': list('abcd'), 'names': list(names), 'files': 1})


def run_case(case, ctx):
    lines, words = case['lines'], case['words']
    stats = wclib.statistics(lines, set(words))
    vocab = wclib.vocabulary(words, case['names'])
    special = {vocab.word_id_to_class_id[vocab.word_to_id[w]] for w in wclib.SPECIAL}
    normal = [c for c in range(vocab.num_classes()) if c not in special]
    what = '{} {} {}'.format(case['method'], lines[:6], ' '.join('{}/{}'.format(w, n) for w, n in zip(words, case['names'])))
    offered = list(words) + ['<s>', '</s>', '<unk>']

    def fresh(path):
        opt = wclib.optimizer(case['method'], lines, vocab, case['files'])
        for w in path:
            opt.move_to_best_class(w)
        return opt

    def check(opt, history):
        """Everything that is reported about the current classes."""
        classes, probs = wclib.classes_of(opt)
        expect(set(classes) == set(words) | set(wclib.SPECIAL), 'reports the words {}: {}', sorted(classes), what)
        want = wclib.membership(stats, classes)
        for w in classes:
            word_id = opt.get_word_id(w)
            expect(int(opt.get_word_class(word_id)) == classes[w], 'two classes of {} after {}: {}', w, history, what)
            expect(abs(probs[w] - want[w]) < 1e-6 and abs(float(opt.get_word_prob(word_id)) - want[w]) < 1e-6,
                   'membership probability of {} is {} instead of {} after {}: {}', w, probs[w], want[w], history, what)
        got, right = float(opt.log_likelihood()), wclib.log_likelihood(stats, classes)
        expect(abs(got - right) < CLOSE, 'log likelihood is {} instead of {} after {}: {}', got, right, history, what)
        return classes

    opt = fresh([])
    classes = check(opt, [])
    for w, n in zip(words, case['names']):
        for v, m in zip(words, case['names']):
            expect((classes[w] == classes[v]) == (n == m), 'initial classes of {} and {}: {}', w, v, what)
    for c in set(classes.values()):
        ctx.count('zero_count_class', c in normal and not any(stats[0].get(w) for w in classes if classes[w] == c))
    queue, seen = [((), opt)], {tuple(sorted(classes.items()))}
    while queue:
        path, opt = queue.pop(0)
        stays = 0
        for w in offered:
            # offers that move nothing leave the optimizer usable
            if opt is None:
                opt = fresh(path)
            before = wclib.classes_of(opt)[0]
            gains = wclib.gains(stats, before, w, normal)
            moved = opt.move_to_best_class(w)
            ctx.step()
            history = list(path) + [w]
            after = check(opt, history)
            changed = {v for v in before if before[v] != after[v]}
            expect(bool(moved) == bool(changed), 'offering {} reports {} but {} words change class: {}', history, moved,
                   len(changed), what)
            best = max(gains.values()) if gains else None
            if changed:
                expect(changed == {w}, 'offering {} moves {}: {}', history, changed, what)
                expect(gains, 'moves {}, which may not move, after {}: {}', w, path, what)
                gain = gains.get(after[w])
                expect(gain is not None, 'moves {} to class {}, which is not a regular class: {}', w, after[w], what)
                expect(gain > -CLOSE, 'moving {} after {} lowers the log likelihood by {}: {}', w, path, -gain, what)
                expect(gain > best - CLOSE, 'moves {} after {} to a class that gains {}, another one gains {}: {}', w, path, gain,
                       best, what)
                key = tuple(sorted(after.items()))
                if key not in seen:
                    seen.add(key)
                    if case['method'] == 'theano' and len(path) >= 2:
                        ctx.count('not_expanded')
                    else:
                        queue.append((path + (w,), None))
                opt = None
                ctx.count('second_move', len(path) > 0)
            else:
                expect(best is None or best < CLOSE, '{} does not move after {} although the log likelihood would increase by {}: {}',
                       w, path, best, what)
                stays += 1
            ctx.count('moved' if changed else 'stayed')
            ctx.count('emptied_count', bool(gains) and stats[0].get(w, 0) > 0 and
                      not any(stats[0].get(v) for v in before if before[v] == before[w] and v != w))
            ctx.count('only_word', not wclib.is_special(w) and not gains)
            ctx.count('special', w in wclib.SPECIAL)
            ctx.count('special_like', wclib.is_special(w) and w not in wclib.SPECIAL)
            ctx.count('zero_count_word', not stats[0].get(w) and w in words)
        ctx.count('converged', stays == len(offered))
        ctx.state(what, path)
    ctx.outcome(what, len(seen))
    ctx.count(case['method'])
    ctx.count('three_classes', len(normal) == 3)
    ctx.count('four_classes', len(normal) == 4)
    ctx.count('unknown_words', stats[0].get('<unk>', 0) > 0)
    ctx.count('two_files', case['files'] > 1)
    ctx.count('self_bigram', any(v == w for v, w in stats[1]))
