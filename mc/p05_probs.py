"""P05: probabilities computed from every small table of counts."""

import io
import itertools

import numpy

from mc.core import Violation, expect

PROPERTY = 'P05'
TITLE = 'Word, class and out-of-shortlist probabilities are normalised relative counts'
MUST_COVER = ('zero_class', 'oos', 'no_counts', 'special_zero', 'unlisted', 'from_counts', 'corpus', 'saved',
              'kept_class_probs')
ASSUMPTIONS = ['at least one out-of-shortlist word occurs in the counts when their probabilities are asked for']
SPECIALS = ('<s>', '</s>', '<unk>')
WORDS = ('a', 'b', 'c', 'd')
BOUNDS = {
    'quick': 'all placements of 4 words in 2 classes or out of the shortlist x <unk>/<s>/</s> in an own or a shared class '
             'x counts absent/0/1/3 of 2 words (absent/0/1 and 0/2 of the others) x counts of the special tokens x an unlisted word, counts in billions, '
             'with and without updating the class probabilities, recomputing with other counts; '
             'all corpora of <=3 lines over 6 line shapes in 1-2 files for word and bigram counting',
    'thorough': 'as quick with counts absent/0/1/3/200 of all 4 words and corpora of <=4 lines',
}
LINES = ['', 'a', 'a b a', '<s> b zz </s>', ' b\tb \r', 'zz a </s>']


def units(tier, seed):
    result = []
    for place in itertools.product('XYO', repeat=4):
        for special in (0, 1, 2):
            result.append({'kind': 'probs', 'place': ''.join(place), 'special': special, 'tier': tier})
    for n in range(0, 4 if tier == 'quick' else 5):
        for i in range(len(LINES)):
            result.append({'kind': 'corpus', 'n': n, 'first': i})
    result.append({'kind': 'from_counts', 'tier': tier})
    return result


def explore(unit, ctx):
    if unit['kind'] == 'corpus':
        if unit['n'] == 0:
            if unit['first'] == 0:
                ctx.run({'kind': 'corpus', 'lines': [], 'split': 0, 'binary': False})
            return
        for tail in itertools.product(range(len(LINES)), repeat=unit['n'] - 1):
            lines = [unit['first']] + list(tail)
            for split in range(len(lines)):
                for binary in (False, True):
                    ctx.run({'kind': 'corpus', 'lines': lines, 'split': split, 'binary': binary})
        return
    values = (None, 0, 1, 3) if unit['tier'] == 'quick' else (None, 0, 1, 3, 200)
    last = (0, 2) if unit['tier'] == 'quick' else values
    for counts in itertools.product(values, values, values[:3] if unit['tier'] == 'quick' else values, last):
        for spec in ((0, 0, 0), (2, 2, 0), (None, 1, 5), (4, None, None)):
            for unlisted in (None, 7):
                case = {'kind': unit['kind'], 'counts': list(counts), 'spec': list(spec), 'unlisted': unlisted,
                        'scale': 10 ** 9 if spec[0] is None and unlisted else 1}
                if unit['kind'] == 'probs':
                    case.update(place=unit['place'], special=unit['special'])
                    ctx.run(case)
                elif unlisted is None:
                    for num in (None, 1, 2):
                        ctx.run(dict(case, num=num))


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9


def check_probs(vocab, counts, ctx, memberships, tag=''):
    """Compares every probability of the vocabulary with the counts."""
    num, num_short = vocab.num_words(), vocab.num_shortlist_words()
    words = [vocab.id_to_word[i] for i in range(num)]
    total = sum(counts.get(w) or 0 for w in words)
    unigram = [(counts.get(w) or 0) / total if total else 0.0 for w in words]
    expect(vocab.has_unigram_probs(), 'no unigram probabilities')
    # out-of-shortlist share
    oos_total = sum(unigram[num_short:])
    if num == num_short or oos_total > 0:
        oos = vocab.get_oos_probs()
        expect(oos.shape == (num,), 'shape of out-of-shortlist probabilities')
        for i, word in enumerate(words):
            want = 1.0 if i < num_short else unigram[i] / oos_total
            expect(close(oos[i], want), '{}share of {} is {} instead of {}', tag, word, oos[i], want)
        again = vocab.get_oos_probs()
        expect(numpy.array_equal(oos, again), 'asking for the shares changes them')
        ctx.count('oos', num > num_short)
    # class probabilities
    class_ids, probs = vocab.get_class_memberships(numpy.arange(num_short))
    class_probs = vocab.get_class_probs()
    expect(class_probs.shape == (vocab.num_classes(),), 'shape of class probabilities')
    sums = numpy.zeros(vocab.num_classes())
    for i in range(num_short):
        sums[class_ids[i]] += unigram[i]
    if sums.sum() > 0:
        sums /= sums.sum()
    for c in range(vocab.num_classes()):
        expect(close(class_probs[c], sums[c]), '{}class probability {} instead of {}', tag, class_probs[c], sums[c])
    # membership probabilities
    member_total = numpy.zeros(vocab.num_classes())
    for i in range(num_short):
        member_total[class_ids[i]] += probs[i]
    expect(numpy.allclose(member_total, 1.0), '{}membership probabilities sum to {}', tag, list(member_total))
    for i in range(num_short):
        word = words[i]
        if memberships is None:
            members = [words[j] for j in range(num_short) if class_ids[j] == class_ids[i]]
            table = {w: max(counts.get(w) or 0, 1 if w in SPECIALS else 0) for w in members}
            class_total = sum(table.values())
            want = table[word] / class_total if class_total else 1.0 / len(members)
            ctx.count('zero_class', class_total == 0)
        else:
            want = memberships[i]
        expect(close(probs[i], want), '{}membership probability of {} is {} instead of {}', tag, word, probs[i], want)
        expect(close(vocab.get_word_prob(i), want), '{}get_word_prob of {} differs', tag, word)
        expect(word not in SPECIALS or probs[i] > 0, '{} has zero membership probability', word)
    ctx.count('no_counts', total == 0)
    ctx.count('special_zero', any(not counts.get(w) for w in SPECIALS))
    ctx.state(tuple(zip(words, class_ids)), tuple(unigram), tuple(float(p) for p in probs))
    ctx.outcome(tuple(round(float(p), 9) for p in class_probs), tuple(round(float(p), 9) for p in probs))
    return unigram


def table(case):
    counts = {w: c for w, c in zip(WORDS, case['counts']) if c is not None}
    counts.update({w: c for w, c in zip(SPECIALS, case['spec']) if c is not None})
    if case.get('unlisted') is not None:
        counts['zz'] = case['unlisted']
    return {w: c * case.get('scale', 1) for w, c in counts.items()}


def make_vocab(case):
    from theanolm import Vocabulary
    lines, oos = [], []
    for word, place in zip(WORDS, case['place']):
        if place == 'O':
            oos.append(word)
        else:
            lines.append('{} {}'.format(word, {'X': 4, 'Y': 2}[place]))
    if case['special'] == 1:
        lines.append('<unk> 4')
    elif case['special'] == 2:
        lines.insert(0, '<s> 2')
        lines.insert(0, '<unk> 2')
        lines.append('</s> 4')
    return Vocabulary.from_file(io.StringIO('\n'.join(lines)), 'classes', oos_words=oos)


def run_case(case, ctx):
    from theanolm import Vocabulary
    if case['kind'] == 'corpus':
        return run_corpus(case, ctx)
    counts = table(case)
    before = dict(counts)
    if case['kind'] == 'from_counts':
        vocab = Vocabulary.from_word_counts(counts, case['num'])
        ctx.count('from_counts')
        ctx.step()
        check_probs(vocab, counts, ctx, None)
        return
    vocab = make_vocab(case)
    initial = [vocab.get_word_prob(i) for i in range(vocab.num_shortlist_words())]
    vocab.compute_probs(counts, update_class_probs=False)
    check_probs(vocab, counts, ctx, initial, 'without updating class probabilities: ')
    ctx.count('kept_class_probs')
    vocab.compute_probs(counts, update_class_probs=True)
    unigram = check_probs(vocab, counts, ctx, None)
    expect(counts == before, 'compute_probs changes the counts')
    ctx.step(2)
    ctx.count('unlisted', 'zz' in counts)
    if case['counts'][0] == 3 and case['counts'][3] == 2:
        # what a model file would hold
        import h5py
        with h5py.File('x', 'w', driver='core', backing_store=False) as state:
            vocab.get_state(state)
            saved = state['vocabulary']['unigram_probs'][()]
        expect(numpy.allclose(saved, unigram), 'saved unigram probabilities {} instead of {}', list(saved), unigram)
        ctx.count('saved')
        # recomputing from other counts leaves nothing of the old ones
        other = {'b': 1, 'd': 5, '</s>': 2}
        vocab.compute_probs(other)
        check_probs(vocab, other, ctx, None, 'recomputed: ')
        ctx.step()


def run_corpus(case, ctx):
    from theanolm import Vocabulary
    from theanolm.vocabulary import compute_word_counts, BigramStatistics
    texts = ['\n'.join(LINES[i] for i in part) for part in
             (case['lines'][:case['split']], case['lines'][case['split']:]) if part]
    make = (lambda t: io.BytesIO(t.encode('utf-8'))) if case['binary'] else io.StringIO
    files = [make(t) for t in texts]
    sentences = []
    for i in case['lines']:
        words = LINES[i].split()
        if words:
            sentences.append((['<s>'] if words[0] != '<s>' else []) + words +
                             (['</s>'] if words[-1] != '</s>' else []))
    unigrams, pairs = {}, {}
    for sentence in sentences:
        for word in sentence:
            unigrams[word] = unigrams.get(word, 0) + 1
    ctx.count('corpus')
    ctx.step(2)
    for repeat in (1, 2):
        got = compute_word_counts(files)
        expect(got == unigrams, 'word counts {} instead of {} (call {})', got, unigrams, repeat)
    vocab = Vocabulary.from_file(io.StringIO('b\na\n'), 'words', oos_words=['q'])
    for repeat in (1, 2):
        stats = BigramStatistics(files, vocab)
        num = vocab.num_words()
        want1, want2 = numpy.zeros(num, int), numpy.zeros((num, num), int)
        for sentence in sentences:
            ids = [vocab.word_to_id.get(w, vocab.word_to_id['<unk>']) for w in sentence]
            for i in ids:
                want1[i] += 1
            for i, j in zip(ids, ids[1:]):
                want2[i, j] += 1
        expect(numpy.array_equal(stats.unigram_counts, want1), 'unigram counts {} instead of {}',
               list(stats.unigram_counts), list(want1))
        expect(numpy.array_equal(stats.bigram_counts.toarray(), want2), 'bigram counts differ')
    ctx.state('corpus', tuple(case['lines']), case['split'])
    ctx.outcome('corpus', tuple(sorted(unigrams.items())))
