"""P04: every small vocabulary source builds the vocabulary it describes."""

import io
import itertools

import numpy

from mc.core import Violation, expect

PROPERTY = 'P04'
TITLE = 'Vocabulary files map every word to one ID and one class'
MUST_COVER = ('accepted', 'rejected_duplicate', 'rejected_malformed', 'with_oos', 'class_of_several',
              'special_listed', 'special_added', 'from_counts', 'tiny_probs')
ASSUMPTIONS = []

SPECIALS = ('<s>', '</s>', '<unk>')
OOS = [None, [], ['o'], ['o', 'a', 'p', '<s>', 'o'], ['<unk>', 'b', 'q']]

ALPHABET = {
    'words': ['a', 'A', 'b', ' \u00e4 ', '<UNK>', '<s>', '</s>', '<unk>', '', 'a b'],
    'classes': ['a 3', 'a 0', 'b 3', 'B 11', '\u00e4\t0', '<s> 3', '</s> 3', '<unk> 0', '<unk> 12', '', 'a', 'b 1 2'],
    'srilm-classes': ['X 0.25 a', 'Y 1 a', 'X 0.5 b', 'x 0.5 b', 'X 1e-3 \u00e4', 'Y 0.125 <unk>', 'Z 1 <s>',
                      'X 1 </s>', '', 'X a', 'X 1 a b', 'W 0 c'],
}
TINY = ['V 1e-6 e', 'V 3e-6 f', 'V 1e-12 g', 'U 2e-8 a', 'U 0 b', '<unk> 5e-9 c', 'u 12.5 d']
BOUNDS = {
    'quick': 'all files of <=4 lines over 10 (words), 12 (classes), 12 (SRILM) line shapes x 5 out-of-shortlist lists '
             '(<=3 lines) or 2 (4 lines); all files of <=4 of 7 SRILM lines with tiny or large probabilities; all class assignments of 6 words to 3 class labels; '
             'counts 0-2/absent for 4 words and 3 specials x class numbers none,1-5',
    'thorough': 'as quick with <=5 lines and all assignments of 8 words to 4 class labels',
}


def units(tier, seed):
    depth = 4 if tier == 'quick' else 5
    result = [{'kind': 'counts', 'part': p} for p in range(4)]
    result += [{'kind': 'assign', 'words': 6 if tier == 'quick' else 8,
                'labels': 3 if tier == 'quick' else 4}]
    for fmt in ALPHABET:
        result.append({'kind': 'file', 'fmt': fmt, 'n': 0, 'prefix': []})
        for n in range(1, depth + 1):
            for i in range(len(ALPHABET[fmt])):
                result.append({'kind': 'file', 'fmt': fmt, 'n': n, 'prefix': [i]})
    result.append({'kind': 'tiny'})
    result.sort(key=lambda u: -u.get('n', 9))
    return result


def explore(unit, ctx):
    if unit['kind'] == 'counts':
        values = (None, 0, 1, 2)
        for counts in itertools.product(values, repeat=4):
            if values.index(counts[0]) != unit['part']:
                continue
            for spec in itertools.product((None, 3), repeat=3):
                for num_classes in (None, 1, 2, 3, 5):
                    ctx.run({'kind': 'counts', 'counts': list(counts), 'spec': list(spec),
                             'num_classes': num_classes})
        return
    if unit['kind'] == 'tiny':
        for n in range(1, 5):
            for lines in itertools.permutations(TINY, n):
                ctx.run({'kind': 'file', 'fmt': 'srilm-classes', 'oos': n % 2, 'end': '\n', 'lines': list(lines)})
        return
    if unit['kind'] == 'assign':
        words = ['a', '<unk>', 'b', '\u00e4', '</s>', 'c', '<s>', 'd'][:unit['words']]
        for labels in itertools.product(range(unit['labels']), repeat=len(words)):
            ctx.run({'kind': 'file', 'fmt': 'classes', 'oos': 3, 'end': '\n',
                     'lines': ['{} {}'.format(w, 7 - l) for w, l in zip(words, labels)]})
        return
    lines = ALPHABET[unit['fmt']]
    rest = unit['n'] - len(unit['prefix'])
    for tail in itertools.product(range(len(lines)), repeat=rest):
        index = unit['prefix'] + list(tail)
        for oos in (range(len(OOS)) if unit['n'] <= 3 else (0, 3)):
            ctx.run({'kind': 'file', 'fmt': unit['fmt'], 'oos': oos, 'end': '\n' if oos % 2 else '',
                     'lines': [lines[i] for i in index]})


def parse(case):
    """Reference reading of the file: (entries, error)."""
    entries = []
    for line in case['lines']:
        fields = line.split()
        if not fields:
            continue
        want = {'words': 1, 'classes': 2, 'srilm-classes': 3}[case['fmt']]
        if len(fields) != want:
            return None, 'malformed'
        if case['fmt'] == 'words':
            entry = (fields[0], ('own', fields[0]), 1.0)
        elif case['fmt'] == 'classes':
            entry = (fields[0], ('id', int(fields[1])), 1.0)
        else:
            entry = (fields[2], ('name', fields[0]), float(fields[1]))
        if entry[0] in [e[0] for e in entries]:
            return None, 'duplicate'
        entries.append(entry)
    return entries, None


def run_case(case, ctx):
    from theanolm import Vocabulary
    if case['kind'] == 'counts':
        return run_counts(case, ctx)
    entries, error = parse(case)
    ctx.step(len(case['lines']) + 1)
    source = io.StringIO('\n'.join(case['lines']) + (case['end'] if case['lines'] else ''))
    oos = OOS[case['oos']]
    try:
        vocab = Vocabulary.from_file(source, case['fmt'],
                                     oos_words=None if oos is None else list(oos))
    except (Exception,) as exc:
        if error is not None:
            ctx.count('rejected_' + error)
            return
        raise
    expect(error is None, '{} line accepted in a vocabulary file', error)
    listed = [e[0] for e in entries]
    classes = {}
    for word, label, prob in entries:
        classes.setdefault(label, {})[word] = prob
    for word in SPECIALS:
        if word not in listed:
            ctx.count('special_added')
            classes[('special', word)] = {word: 1.0}
        else:
            ctx.count('special_listed')
    shortlist = set(listed) | set(SPECIALS)
    extra = []
    for word in oos or []:
        if word not in shortlist and word not in extra:
            extra.append(word)
    ctx.count('accepted')
    ctx.count('with_oos', bool(extra))
    ctx.count('tiny_probs', any(0 < p < 1e-5 for _, _, p in entries))
    ctx.count('class_of_several', any(len(c) > 1 for c in classes.values()))
    compare(vocab, listed, shortlist, set(extra), classes, ctx)


def compare(vocab, listed, shortlist, extra, classes, ctx):
    num_short, num_all = len(shortlist), len(shortlist) + len(extra)
    expect(vocab.num_words() == num_all, 'num_words() is {} for {} words', vocab.num_words(), num_all)
    expect(vocab.num_shortlist_words() == num_short, 'num_shortlist_words() is {} for {}',
           vocab.num_shortlist_words(), num_short)
    expect(vocab.num_classes() == len(classes), 'num_classes() is {} for {} classes',
           vocab.num_classes(), len(classes))
    ids = {}
    for word in list(shortlist) + sorted(extra):
        expect(word in vocab, 'word {} not in the vocabulary', word)
        word_id = int(vocab.word_to_id[word])
        expect(0 <= word_id < num_all, 'ID {} out of range', word_id)
        expect(vocab.id_to_word[word_id] == word, 'ID {} of word {} maps back to {}', word_id, word,
               vocab.id_to_word[word_id])
        expect(bool(vocab.in_shortlist(word_id)) == (word in shortlist), 'shortlist status of {} wrong', word)
        ids[word] = word_id
    expect(len(set(ids.values())) == num_all, 'two words share an ID')
    expect(sorted(vocab.words()) == sorted(ids), 'words() lists something else')
    expect([ids[w] for w in listed] == list(range(len(listed))), 'IDs do not follow the order of the file')
    expect('zzz' not in vocab, 'unknown word claimed to be in the vocabulary')
    text = ['zzz'] + sorted(ids) + ['', 'zzz']
    got = vocab.words_to_ids(text)
    expect([int(i) for i in got] == [ids.get(w, ids['<unk>']) for w in text],
           'words_to_ids gives {} for {}', list(got), text)
    # class memberships over a matrix of all words
    order = sorted(ids)
    matrix = numpy.array([[ids[w] for w in order], [ids[w] for w in reversed(order)]], dtype='int64')
    before = matrix.copy()
    class_ids, probs = vocab.get_class_memberships(matrix)
    expect(numpy.array_equal(before, matrix), 'get_class_memberships changes its argument')
    expect(class_ids.shape == matrix.shape and probs.shape == matrix.shape, 'shape of memberships')
    of_word, prob_of = {}, {}
    for (row, col), word_id in numpy.ndenumerate(matrix):
        word = vocab.id_to_word[word_id]
        value = (int(class_ids[row, col]), float(probs[row, col]))
        expect(of_word.setdefault(word, value) == value, 'class of {} depends on its position', word)
    for word in extra:
        expect(of_word[word] == of_word['<unk>'], 'out-of-shortlist word {} is not looked up as <unk>', word)
    expect(sorted(set(c for c, _ in of_word.values())) == list(range(len(classes))),
           'class IDs are not consecutive: {}', of_word)
    for members in classes.values():
        expect(len(set(of_word[w][0] for w in members)) == 1, 'words of one class are split: {}', of_word)
        total = sum(members.values())
        for word, prob in members.items():
            # a class whose words all have probability zero is uniform
            prob, total = (prob, total) if total else (1.0, len(members))
            expect(abs(of_word[word][1] - prob / total) < 1e-9,
                   'membership probability of {} is {} instead of {}', word, of_word[word][1], prob / total)
            expect(abs(vocab.get_word_prob(ids[word]) - prob / total) < 1e-9, 'get_word_prob of {}', word)
    labels = [frozenset(m) for m in classes.values()]
    for first, second in itertools.combinations(labels, 2):
        expect(of_word[next(iter(first))][0] != of_word[next(iter(second))][0], 'two classes are merged')
    # sampling a class gives one of its members
    for label, members in classes.items():
        class_id = of_word[next(iter(members))][0]
        drawn = vocab.class_ids_to_word_ids([class_id])
        expect(len(drawn) == 1 and vocab.id_to_word[drawn[0]] in members, 'class contains a foreign word')
    ctx.state(tuple(sorted(of_word.items())))
    ctx.outcome(tuple(sorted(ids.items())), tuple(sorted(of_word.items())))
    return ids


def run_counts(case, ctx):
    from theanolm import Vocabulary
    counts = {w: c for w, c in zip('dcba', case['counts']) if c is not None}
    counts.update({w: c for w, c in zip(SPECIALS, case['spec']) if c is not None})
    before = dict(counts)
    vocab = Vocabulary.from_word_counts(counts, case['num_classes'])
    expect(counts == before, 'from_word_counts changes the counts it was given')
    ctx.step(2)
    ctx.count('from_counts')
    words = [w for w in counts if w not in SPECIALS]
    shortlist = set(words) | set(SPECIALS)
    matrix = numpy.array([[vocab.word_to_id[w] for w in sorted(shortlist)]])
    class_ids, probs = vocab.get_class_memberships(matrix)
    classes = {}
    for word, class_id, prob in zip(sorted(shortlist), class_ids[0], probs[0]):
        classes.setdefault(int(class_id), {})[word] = float(prob)
    for word in SPECIALS:
        expect({word} in [set(c) for c in classes.values()], 'special token {} shares its class', word)
    normal = [c for c in classes.values() if not set(c) & set(SPECIALS)]
    want = len(words) if case['num_classes'] is None else min(case['num_classes'], len(words))
    expect(len(normal) == want, '{} classes instead of {}', len(normal), want)
    if normal:
        sizes = [len(c) for c in normal]
        expect(max(sizes) - min(sizes) <= 1, 'words are not spread evenly: {}', sizes)
    for members in classes.values():
        total = sum(counts.get(w, 0) for w in members)
        for word, prob in members.items():
            ref = counts.get(word, 0) / total if total else 1.0 / len(members)
            expect(abs(prob - ref) < 1e-9, 'membership probability of {} is {} instead of {}', word, prob, ref)
    compare(vocab, [], shortlist, set(), {k: v for k, v in classes.items()
                                          if sum(v.values()) > 0}, ctx)
