"""Reference model of class-based bigram statistics, computed from scratch from the corpus."""

import io
import itertools
import math

SPECIAL = ('<s>', '</s>', '<unk>')


def utterance(line):
    """Words of a line with sentence boundaries; empty for a line without words."""
    words = line.split()
    if not words:
        return []
    if words[0] != '<s>':
        words.insert(0, '<s>')
    if words[-1] != '</s>':
        words.append('</s>')
    return words


def statistics(lines, known):
    """Unigram and bigram counts of the words, unknown words counted as <unk>."""
    unigrams, bigrams = {}, {}
    for line in lines:
        words = [w if w in known or w in SPECIAL else '<unk>' for w in utterance(line)]
        for w in words:
            unigrams[w] = unigrams.get(w, 0) + 1
        for pair in zip(words, words[1:]):
            bigrams[pair] = bigrams.get(pair, 0) + 1
    return unigrams, bigrams


def xlogx(values):
    return math.fsum(v * math.log(v) for v in values if v)


def log_likelihood(stats, classes):
    """Sum of N(c,d) log N(c,d) - 2 sum of N(c) log N(c) + sum of N(w) log N(w)."""
    unigrams, bigrams = stats
    class_counts, pair_counts = {}, {}
    for w, n in unigrams.items():
        class_counts[classes[w]] = class_counts.get(classes[w], 0) + n
    for (v, w), n in bigrams.items():
        key = classes[v], classes[w]
        pair_counts[key] = pair_counts.get(key, 0) + n
    return xlogx(pair_counts.values()) - 2 * xlogx(class_counts.values()) + xlogx(unigrams.values())


def membership(stats, classes):
    unigrams = stats[0]
    class_counts = {}
    for w, c in classes.items():
        class_counts[c] = class_counts.get(c, 0) + unigrams.get(w, 0)
    return {w: unigrams.get(w, 0) / class_counts[c] if class_counts[c] else 0.0 for w, c in classes.items()}


def is_special(word):
    return word.startswith('<') and word.endswith('>')


def gains(stats, classes, word, normal):
    """Likelihood change of moving the word to every other regular class; empty if it may not move."""
    own = classes[word]
    if is_special(word) or sum(1 for c in classes.values() if c == own) < 2:
        return {}
    before = log_likelihood(stats, classes)
    result = {}
    for c in normal:
        if c != own:
            result[c] = log_likelihood(stats, dict(classes, **{word: c})) - before
    return result


def partitions(words, count):
    """All assignments of the words to exactly `count` classes, each class named by its order of appearance."""
    for names in itertools.product(range(count), repeat=len(words)):
        seen = []
        for n in names:
            if n not in seen:
                seen.append(n)
        if seen == list(range(count)):
            yield names


def vocabulary(words, names):
    from theanolm.vocabulary import Vocabulary
    text = ''.join('{} {}\n'.format(w, n + 1) for w, n in zip(words, names))
    return Vocabulary.from_file(io.StringIO(text), 'classes')


def optimizer(method, lines, vocab, files=1):
    from theanolm.vocabulary import BigramStatistics
    import wordclasses
    share = (len(lines) + files - 1) // files
    parts = [lines[i * share:(i + 1) * share] for i in range(files)]
    stats = BigramStatistics([io.StringIO(''.join(line + '\n' for line in part)) for part in parts], vocab)
    cls = {'numpy': wordclasses.NumpyBigramOptimizer, 'theano': wordclasses.TheanoBigramOptimizer}[method]
    return cls(stats, vocab)


def classes_of(opt):
    """Current class of every word, and its membership probability, as reported."""
    classes, probs = {}, {}
    for word, class_id, prob in opt.words():
        assert word not in classes
        classes[word] = int(class_id)
        probs[word] = float(prob)
    return classes, probs
