"""P10: all small texts through every way of scoring them."""

import io
import itertools

import numpy

from mc import netlib
from mc.core import Violation, expect

PROPERTY = 'P10'
TITLE = 'Text scores, line scores and perplexity agree and honour the exclusion rules'
MUST_COVER = ('oov', 'oos_share', 'oos_as_unk', 'excluded_unk', 'excluded_oos', 'zero_membership', 'no_unigrams',
              'empty_line', 'cut', 'several_batches', 'nothing_counted', 'rare', 'unk_in_class')
ASSUMPTIONS = ['unidirectional networks; relative tolerance 1e-9 in double precision']
BOUNDS = {
    'quick': '5 architectures x 3 vocabularies (2 with two more: very rare words, a class shared with <unk>) x shortlist on/off x <unk> included/excluded: every sentence of <=3 words '
             'over shortlist, zero-probability, out-of-shortlist (2), unknown and special words (word, sequence and line '
             'scores); every text of <=2 sentences and every multiset of 3 out of 7 x batch sizes 1,2,4 x sequence length limits none,2,4 '
             '(perplexity)',
    'thorough': 'as quick with all unidirectional architectures, sentences of <=4 words, texts of <=4 sentences',
}
ARCHS = ['lstm', 'two-inputs', 'glu', 'class-fc', 'hsoftmax9']
WORDS = {'words': ['a', 'c', 'o', 'p', 'zzz', '<unk>', '<s>'],
         'classes': ['a', 'z', 'd', 'o', 'p', 'zzz', '<unk>'],
         'tiny': ['b', 'c', 'o', 'z'],
         'unkclass': ['a', 'o', 'zzz', 'c'],
         'no-oos': ['a', 'b', 'zzz', '<unk>', '</s>']}
SENTENCES = {'words': ['a', 'c o b', 'zzz', 'o p zzz c d', '<unk> a', '', 'b a c'],
             'classes': ['a', 'z o b', 'zzz', 'o p zzz c d', '<unk> z', '', 'b a z'],
             'tiny': ['b', 'c o b', 'zzz', 'o p zzz c d', '<unk> z', '', 'b c z'],
             'unkclass': ['a', 'c o b', 'zzz', 'o p zzz c d', '<unk> b', '', 'b a c'],
             'no-oos': ['a', 'b zzz b', 'zzz', 'a b zzz b a', '<unk> a', '', 'b a a']}


def units(tier, seed):
    result = []
    archs = ARCHS if tier == 'quick' else netlib.CAUSAL
    for arch in archs:
        for vocab in WORDS:
            if arch.startswith('hsoftmax') and vocab != 'words' or \
                    vocab in ('tiny', 'unkclass') and arch not in ('lstm', 'class-fc'):
                continue
            for shortlist, exclude in itertools.product((False, True), repeat=2):
                if arch.startswith('hsoftmax') and exclude:
                    continue        # known finding of P07
                if vocab == 'unkclass' and exclude:
                    continue        # the class as a whole is excluded
                base = {'arch': arch, 'vocab': vocab, 'shortlist': shortlist, 'exclude': exclude}
                result.append(dict(base, kind='sentences', n=3 if tier == 'quick' else 4))
                result.append(dict(base, kind='texts', n=(2 if vocab in ('tiny', 'unkclass') else 3) if tier == 'quick' else 4))
    return result


def explore(unit, ctx):
    base = {k: unit[k] for k in ('arch', 'vocab', 'shortlist', 'exclude')}
    if unit['kind'] == 'sentences':
        words = WORDS[unit['vocab']]
        for n in range(1, unit['n'] + 1):
            for sentence in itertools.product(words, repeat=n):
                if '<s>' in sentence[1:] or '</s>' in sentence[:-1]:
                    continue
                ctx.run(dict(base, kind='sentence', sentence=list(sentence)))
        # all sentences in one mini-batch, and in all orders of three
        ctx.run(dict(base, kind='batch', n=unit['n']))
        for line in ('', '   ', '\n'):
            ctx.run(dict(base, kind='empty', line=line))
        return
    for n in range(1, unit['n'] + 1):
        for text in itertools.product(range(7), repeat=n):
            if n > 2 and ctx.tier == 'quick' and list(text) != sorted(text):
                continue
            for size in (1, 2, 4):
                if size > n and size != 4:
                    continue
                for limit in (None, 2, 4):
                    ctx.run(dict(base, kind='text', text=list(text), size=size, limit=limit))


def setup(case):
    net = netlib.network(case['arch'], case['vocab'], True, case['exclude'])
    return net, net.vocabulary, netlib.scorer(net, case['shortlist'], case['exclude'])


_DISTRIBUTION = {}


def distribution(case, history):
    """Next class distribution after the given word IDs (whole-sequence evaluation of the real network)."""
    key = (case['arch'], case['vocab'], case['exclude'], tuple(history))
    if key not in _DISTRIBUTION:
        if len(_DISTRIBUTION) > 50000:
            _DISTRIBUTION.clear()
        net, vocab, _ = setup(case)
        ids, mask = netlib.matrix([netlib.to_shortlist(vocab, history)])
        class_ids = vocab.word_id_to_class_id[ids]
        probs = netlib.output_function(net)(ids, class_ids, mask)[:, 0]
        for n in range(1, len(history) + 1):
            _DISTRIBUTION[key[:3] + (tuple(history[:n]),)] = probs[n - 1]
    return _DISTRIBUTION[key]


# relative counts of netlib.vocabulary()
MEMBERSHIP = {'classes': {'a': 5 / 7, 'b': 2 / 7, 'z': 0.0, 'c': 1 / 4, 'd': 3 / 4},
              'tiny': {'a': 2000000 / 2000003, 'b': 3 / 2000003, 'z': 0.0, 'c': 1e-6, 'd': 0.999999},
              'unkclass': {'a': 5 / 8, '<unk>': 3 / 8, 'c': 1 / 4, 'd': 3 / 4}}
SHARE = {'words': {'o': 3 / 4, 'p': 1 / 4}, 'classes': {'o': 3 / 4, 'p': 1 / 4}, 'unkclass': {'o': 3 / 4, 'p': 1 / 4},
         'tiny': {'o': 1e-7, 'p': 0.9999999}}


def reference(case, ids, ctx=None):
    """The property: score of every word of the ID sequence but the first (None = left out)."""
    _, vocab, _ = setup(case)
    unk = vocab.word_to_id['<unk>']
    result = []
    divided = case['shortlist'] and case['vocab'] != 'no-oos'
    for n in range(1, len(ids)):
        word_id = int(ids[n])
        word = vocab.id_to_word[word_id]
        oos = word_id >= vocab.num_shortlist_words()
        probs = distribution(case, ids[:n])
        prob = probs[vocab.word_id_to_class_id[unk if oos else word_id]]
        if case['vocab'] in MEMBERSHIP:
            prob = prob * MEMBERSHIP[case['vocab']].get('<unk>' if oos else word, 1.0)
        if word_id == unk:
            value = None if case['exclude'] or divided else numpy.log(prob)
        elif oos:
            if case['exclude']:
                value = None
            else:
                value = numpy.log(prob * (SHARE[case['vocab']][word] if divided else 1.0))
        else:
            with numpy.errstate(divide='ignore'):
                value = numpy.log(prob)
        result.append(value)
        if ctx is not None:
            ctx.count('oov', word_id == unk)
            ctx.count('oos_share', oos and divided and value is not None)
            ctx.count('oos_as_unk', oos and not divided and value is not None)
            ctx.count('excluded_unk', word_id == unk and value is None)
            ctx.count('excluded_oos', oos and value is None)
            ctx.count('zero_membership', word == 'z')
            ctx.count('unk_in_class', case['vocab'] == 'unkclass' and value is not None and (oos or word_id == unk))
            ctx.count('rare', case['vocab'] == 'tiny' and value is not None and (word in 'bc' or word == 'o' and divided))
            ctx.count('no_unigrams', case['vocab'] == 'no-oos')
    return result


def compare(got, wanted, what):
    expect(len(got) == len(wanted), '{}: {} scores instead of {}', what, len(got), len(wanted))
    for n, (g, w) in enumerate(zip(got, wanted)):
        if w is None or g is None:
            expect(g is None and w is None, '{}: word {} scored {} instead of {}', what, n + 1, g, w)
        elif numpy.isneginf(w):
            expect(numpy.isneginf(g), '{}: word {} scored {} instead of -inf', what, n + 1, g)
        else:
            expect(abs(g - w) <= 1e-9 * max(1, abs(w)), '{}: word {} scored {} instead of {}', what, n + 1, g, w)


def counted(scores):
    return [s for s in scores if s is not None and not numpy.isneginf(s)]


def ids_of(vocab, words):
    return [vocab.word_to_id.get(w, vocab.word_to_id['<unk>']) for w in words]


def closed(sentence):
    """Sentence markers are added where they are missing."""
    words = list(sentence)
    if words[0] != '<s>':
        words = ['<s>'] + words
    if words[-1] != '</s>':
        words.append('</s>')
    return words


def run_case(case, ctx):
    net, vocab, scorer = setup(case)
    where = '{} {} shortlist={} exclude={}'.format(case['arch'], case['vocab'], case['shortlist'], case['exclude'])
    if case['kind'] == 'empty':
        expect(scorer.score_line(case['line'], vocab) is None, 'an empty line has a score')
        ctx.count('empty_line')
        ctx.step()
        return
    if case['kind'] == 'batch':
        sentences = [closed(s) for n in range(1, case['n'] + 1)
                     for s in itertools.product(WORDS[case['vocab']][:5], repeat=n)
                     if '</s>' not in s[:-1]]
        ids, mask = netlib.matrix([ids_of(vocab, s) for s in sentences], pad=vocab.word_to_id['<unk>'])
        result = netlib.score_batch(scorer, vocab, ids, mask)
        expect(len(result) == len(sentences), 'scores for {} of {} sequences', len(result), len(sentences))
        for sentence, scores in zip(sentences, result):
            compare(scores, reference(case, ids_of(vocab, sentence)), where + ' ' + ' '.join(sentence))
            ctx.step(len(scores))
        return
    if case['kind'] == 'sentence':
        words = closed(case['sentence'])
        ids = ids_of(vocab, words)
        wanted = reference(case, ids, ctx)
        what = where + ' ' + ' '.join(words)
        matrix, mask = netlib.matrix([ids])
        compare(netlib.score_batch(scorer, vocab, matrix, mask)[0], wanted, what)
        total = sum(counted(wanted))
        class_ids, probs = vocab.get_class_memberships(numpy.array(ids))
        value = scorer.score_sequence(numpy.array(ids), list(class_ids), list(probs))
        expect(abs(value - total) <= 1e-9 * max(1, abs(total)), '{}: sequence score {} instead of {}', what, value, total)
        for line in (' '.join(case['sentence']), '  ' + '\t'.join(case['sentence']) + ' \n', ' '.join(words)):
            value = scorer.score_line(line, vocab)
            expect(abs(value - total) <= 1e-9 * max(1, abs(total)), '{}: score of line {!r} is {} instead of {}', what,
                   line, value, total)
        ctx.step(5 * len(ids))
        ctx.state(where, tuple(words))
        ctx.outcome(where, round(float(total), 9), tuple(x is None for x in wanted))
        return
    # perplexity of a text
    from theanolm.parsing import LinearBatchIterator
    text = [SENTENCES[case['vocab']][i] for i in case['text']]

    def iterator():
        return LinearBatchIterator([io.StringIO('\n'.join(text) + '\n')], vocab, batch_size=case['size'],
                                   max_sequence_length=case['limit'])
    scores = []
    for sentence in text:
        if not sentence.split():
            continue
        ids = ids_of(vocab, closed(sentence.split()))
        limit = case['limit'] or len(ids)
        ctx.count('cut', limit < len(ids))
        for start in range(0, len(ids), limit):
            piece = ids[start:start + limit]
            if len(piece) > 1:
                scores += reference(case, piece)
    ctx.count('several_batches', len(text) > case['size'])
    use = counted(scores)
    what = '{} text {} batch size {} limit {}'.format(where, text, case['size'], case['limit'])
    ctx.step(len(scores))
    ctx.state(where, tuple(case['text']), case['size'], case['limit'])
    if not use:
        ctx.count('nothing_counted')
        try:
            value = scorer.compute_perplexity(iterator())
        except ValueError:
            return
        raise Violation('{}: perplexity {} of nothing'.format(what, value))
    wanted = numpy.exp(-sum(use) / len(use))
    value = scorer.compute_perplexity(iterator())
    expect(abs(value - wanted) <= 1e-8 * wanted, '{}: perplexity {} instead of {}', what, value, wanted)
    ctx.outcome(where, round(float(value), 9))
