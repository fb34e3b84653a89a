"""P01: linear and scoring batch iteration over all small corpora."""

import io
import itertools
import mmap
import os
import tempfile

import numpy

from mc.core import Violation, expect

PROPERTY = 'P01'
TITLE = 'Linear reading delivers every token exactly once'
MUST_COVER = ('split_sentences', 'oov_tokens', 'oos_tokens', 'multi_file', 'dropped_single')
ASSUMPTIONS = ['files do not change while being read']

# Lines as they stand in the file (without newline).
LINES = ['', 'a', 'a \u00e4', ' o\tx  \u00e4 \r', '<s> a \u00e4 x </s>', '<s> \u00e4', '\u00e4 </s>', ' \r', 'a </s> <s> \u00e4']
BOUNDS = {
    'quick': 'corpora of <=3 lines over 9 line shapes (markers missing, present, inside a sentence), with/without final newline, all splits into 1-2 '
             'files, batch sizes 1-3, length limits none/1/2/3/4, linear (both OOS modes) and scoring reader, '
             'text/binary/memory-mapped input, op sequence pass, len, pass, pass and len before the first pass; 3/130/300 one-line files; sentences of 1-1000 words; vocabularies of 70000 words, in the shortlist and out of it',
    'thorough': 'as quick with corpora of <=4 lines and batch sizes 1-4, length limits none/1-5',
}


def vocab():
    global _VOCAB
    try:
        return _VOCAB
    except NameError:
        from theanolm import Vocabulary
        _VOCAB = Vocabulary.from_file(io.StringIO('a\n\u00e4\n'), 'words', oos_words=['o'])
        return _VOCAB


def units(tier, seed):
    depth = 3 if tier == 'quick' else 4
    result = []
    for n in range(depth + 1):
        if n == 0:
            result.append({'prefix': [], 'n': 0})
        else:
            for i in range(len(LINES)):
                if n >= 3:
                    for j in range(len(LINES)):
                        result.append({'prefix': [i, j], 'n': n})
                else:
                    result.append({'prefix': [i], 'n': n})
    result.reverse()
    result.append({'many': True})
    return result


def explore(unit, ctx):
    if 'many' in unit:
        # long and many-file corpora: file indices and counters beyond one byte
        for count in (3, 130, 300):
            for batch_size in (1, 2, 64, 1000):
                for limit in (None, 2, 7):
                    ctx.run({'lines': [1 + i % 5 for i in range(count)], 'newline': True,
                             'cut': 'each', 'reader': 'linear', 'source': 'text',
                             'batch': batch_size, 'limit': limit})
        for length in (1, 7, 126, 127, 128, 254, 255, 256, 1000):
            for batch_size in (1, 3):
                for limit in (None, 100, 200):
                    ctx.run({'length': length, 'batch': batch_size, 'limit': limit})
        ctx.run({'vocabulary': 70000})
        ctx.run({'vocabulary': 70000, 'shortlist': 5})
        return
    rest = unit['n'] - len(unit['prefix'])
    quick = ctx.tier == 'quick'
    for tail in itertools.product(range(len(LINES)), repeat=rest):
        lines = unit['prefix'] + list(tail)
        n = len(lines)
        for newline in (True, False):
            if n == 0 and not newline:
                continue
            # split into files: one file, or two files cut at every position
            for cut in [None] + list(range(n + 1)):
                if not newline and cut is not None and cut not in (1, n - 1):
                    continue
                for reader in ('linear', 'linear-unk', 'scoring'):
                    if cut is not None and reader == 'scoring' and n > 2:
                        continue
                    if not newline and reader == 'linear-unk':
                        continue
                    for source in ('text', 'bytes', 'mmap'):
                        if source != 'text' and (reader != 'linear' or cut is not None):
                            continue
                        if source == 'mmap' and (n > 2 or n == 0 or
                                                 (n == 1 and not newline and not LINES[lines[0]])):
                            continue
                        for batch_size in ((1, 2, 3) if quick else (1, 2, 3, 4)):
                            if batch_size > n + 2:
                                continue
                            for limit in ((None, 1, 2, 3, 4) if quick else (None, 1, 2, 3, 4, 5)):
                                ctx.run({'lines': lines, 'newline': newline,
                                         'cut': cut, 'reader': reader,
                                         'source': source,
                                         'batch': batch_size, 'limit': limit})


def model_sequences(files, limit):
    """Reference: list of pieces, each a list of (word, file index)."""
    pieces = []
    dropped = 0
    for file_index, lines in enumerate(files):
        for line in lines:
            words = line.split()
            if not words:
                continue
            if words[0] != '<s>':
                words = ['<s>'] + words
            if words[-1] != '</s>':
                words = words + ['</s>']
            step = len(words) if limit is None else limit
            for start in range(0, len(words), step):
                piece = words[start:start + step]
                if len(piece) >= 2:
                    pieces.append([(w, file_index) for w in piece])
                else:
                    dropped += 1
    return pieces, dropped


def open_source(lines, newline, source):
    text = '\n'.join(lines)
    if lines and newline:
        text += '\n'
    if source == 'text':
        return io.StringIO(text)
    if source == 'bytes':
        return io.BytesIO(text.encode('utf-8'))
    with tempfile.TemporaryFile() as handle:
        handle.write(text.encode('utf-8'))
        handle.flush()
        return mmap.mmap(handle.fileno(), 0, prot=mmap.PROT_READ)


def model_id(word, to_unk):
    v = vocab()
    unk = v.word_to_id['<unk>']
    if word not in ('a', '\u00e4', 'o', '<s>', '</s>', '<unk>'):
        return unk
    if to_unk and word == 'o':
        return unk
    return v.word_to_id[word]


def check_batch(batch, pieces, reader, ctx):
    to_unk = reader == 'linear-unk'
    if reader == 'scoring':
        word_ids, words, mask = batch
        file_ids = None
        expect([list(w) for w in words] == [[w for w, _ in p] for p in pieces],
               'scoring reader returned words {} instead of {}', words, pieces)
    else:
        word_ids, file_ids, mask = batch
    length = max(len(p) for p in pieces)
    expect(word_ids.shape == (length, len(pieces)),
           'mini-batch shape {} instead of {}', word_ids.shape, (length, len(pieces)))
    expect(mask.shape == word_ids.shape, 'mask shape differs')
    if file_ids is not None:
        expect(file_ids.shape == word_ids.shape, 'file index shape differs')
    for s, piece in enumerate(pieces):
        for t in range(length):
            if t < len(piece):
                word, file_index = piece[t]
                expect(mask[t, s] == 1, 'token {} of {} is masked out', t, piece)
                expect(word_ids[t, s] == model_id(word, to_unk),
                       'word {} has ID {}', word, word_ids[t, s])
                if file_ids is not None:
                    expect(file_ids[t, s] == file_index,
                           'word {} of file {} is attributed to file {}',
                           word, file_index, file_ids[t, s])
                if word == 'x':
                    ctx.count('oov_tokens')
                if word == 'o' and to_unk:
                    ctx.count('oos_tokens')
            else:
                expect(mask[t, s] == 0, 'padding after {} is not masked out', piece)


def run_long(case, ctx):
    """Sentences longer than any counter of one byte."""
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    lines = [' '.join('a\u00e4ox'[(i + k) % 4] for i in range(case['length'] - k)) for k in range(2)]
    pieces, _ = model_sequences([lines], case['limit'])
    size = case['batch']
    expected = [pieces[i:i + size] for i in range(0, len(pieces), size)]
    for reader, kind in (('linear', LinearBatchIterator), ('linear-unk', LinearBatchIterator),
                         ('scoring', ScoringBatchIterator)):
        iterator = kind(open_source(lines, True, 'text'), vocab(), batch_size=size, max_sequence_length=case['limit'],
                        map_oos_to_unk=(reader == 'linear-unk'))
        for _ in range(2):
            got = [batch for batch in iterator]
            expect(len(got) == len(expected), '{} mini-batches instead of {}', len(got), len(expected))
            for batch, wanted in zip(got, expected):
                check_batch(batch, wanted, reader, ctx)
                ctx.step()
        ctx.state('long', case['length'], size, case['limit'], reader)


def run_vocabulary(case, ctx):
    """Word IDs beyond one and two bytes."""
    from theanolm import Vocabulary
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    words = ['w{}'.format(i) for i in range(case['vocabulary'])]
    size = case.get('shortlist', len(words))
    v = Vocabulary.from_file(io.StringIO('\n'.join(words[:size])), 'words', oos_words=words[size:])
    numbers = [0, 1, 126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536, 69999]
    text = ' '.join(words[i] for i in numbers) + '\n'
    # word IDs of an out-of-shortlist word come after those of the shortlist
    numbers = [v.word_to_id[words[i]] for i in numbers]
    expect(len(set(numbers)) == len(numbers) and max(numbers) < len(words) + 3, 'word IDs {}', numbers)
    wanted = [v.word_to_id['<s>']] + numbers + [v.word_to_id['</s>']]
    for kind in (LinearBatchIterator, ScoringBatchIterator):
        for batch in kind(io.StringIO(text), v, batch_size=1):
            expect([int(x) for x in batch[0][:, 0]] == wanted, 'word IDs {} instead of {}', batch[0][:, 0], wanted)
            ctx.step()
            ctx.state('vocabulary', kind.__name__)


def run_case(case, ctx):
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    if 'length' in case:
        return run_long(case, ctx)
    if 'vocabulary' in case:
        return run_vocabulary(case, ctx)
    lines = [LINES[i] for i in case['lines']]
    cut = case['cut']
    if cut == 'each':
        files = [[line] for line in lines]
    else:
        files = [lines] if cut is None else [lines[:cut], lines[cut:]]
    handles = [open_source(f, case['newline'], case['source']) for f in files]
    arg = handles[0] if cut is None else handles
    reader = case['reader']
    kind = ScoringBatchIterator if reader == 'scoring' else LinearBatchIterator
    pieces, dropped = model_sequences(files, case['limit'])
    size = case['batch']
    expected = [pieces[i:i + size] for i in range(0, len(pieces), size)]
    if dropped:
        ctx.count('dropped_single')
    if len(files) > 1 and files[0] and files[1]:
        ctx.count('multi_file')
    if case['limit'] is not None and len(pieces) > len([l for l in lines if l.split()]):
        ctx.count('split_sentences')

    iterator = kind(arg, vocab(), batch_size=size,
                    max_sequence_length=case['limit'],
                    map_oos_to_unk=(reader == 'linear-unk'))
    for index, op in enumerate(('pass', 'len', 'pass', 'pass')):
        if op == 'len':
            number = len(iterator)
            expect(number == len(expected),
                   'announces {} mini-batches, delivers {}', number, len(expected))
            ctx.step()
            continue
        got = 0
        for batch in iterator:
            expect(got < len(expected), 'delivers more than {} mini-batches on pass {}',
                   len(expected), index)
            check_batch(batch, expected[got], reader, ctx)
            got += 1
            ctx.step()
            ctx.state(case['lines'], case['newline'], cut, case['source'], reader, size, case['limit'], got)
        expect(got == len(expected), 'delivered {} mini-batches instead of {} on pass {}',
               got, len(expected), index)
    # asking before the first pass
    iterator = kind(arg, vocab(), batch_size=size,
                    max_sequence_length=case['limit'])
    expect(len(iterator) == len(expected), 'wrong number of mini-batches before the first pass')
    ctx.outcome([[w for w, _ in p] for p in pieces], size, [[f for _, f in p] for p in pieces])
    if len(expected) > 1 and ctx.traces % 997 == 0:
        ctx.sample('{} batch={} limit={} -> {} batches'.format(files, size, case['limit'], len(expected)))
