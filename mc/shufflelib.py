"""Training file sets with self-identifying lines, shared by P02 and P03."""

import gzip
import io
import os
import tempfile

from mc.core import expect

MAX_LINES = 8


def vocab():
    global _VOCAB
    try:
        return _VOCAB
    except NameError:
        from theanolm import Vocabulary
        words = ['w{}\u00e5'.format(i) for i in range(MAX_LINES)]
        short = [chr(ord('a') + i) for i in range(MAX_LINES)]
        _VOCAB = Vocabulary.from_file(io.StringIO('\n'.join(words[1:] + short[1:]) + '\n'),
                                      'words', oos_words=[words[0], short[0]])
        return _VOCAB


class FileSet(object):
    """files: list of lists of line lengths (0 = empty line).

    Line number i (over all non-empty lines) consists of length copies of a
    word that occurs nowhere else; line 0 uses an out-of-shortlist word, which
    training readers map to <unk>.  With short=True the words are single
    characters, so that a line can be as short as one byte.  With gz=True
    the files are compressed.
    """

    def __init__(self, files, newline=True, crlf=False, short=False, gz=False):
        self.files = []
        self.packed = []
        self.lines = []          # (file index, words)
        number = 0
        for file_index, lengths in enumerate(files):
            texts = []
            for length in lengths:
                words = [chr(ord('a') + number) if short else 'w{}\u00e5'.format(number)] * length
                if length:
                    number += 1
                texts.append(' '.join(words))
                self.lines.append((file_index, words))
            end = '\r\n' if crlf else '\n'
            text = end.join(texts) + (end if newline else '')
            handle = tempfile.NamedTemporaryFile('w+b', prefix='mc', suffix='.gz' if gz else '', delete=True)
            handle.write(gzip.compress(text.encode('utf-8')) if gz else text.encode('utf-8'))
            handle.flush()
            handle.seek(0)
            if gz:
                from theanolm.backend import TextFileType
                self.packed.append(handle)
                handle = TextFileType('r')(handle.name)
            self.files.append(handle)
        self.sizes = [len(lengths) for lengths in files]

    def close(self):
        for handle in self.packed:
            handle.close()
        for handle in self.files:
            handle.close()

    def pieces(self, line_index, limit):
        file_index, words = self.lines[line_index]
        if not words:
            return []
        v = vocab()
        unk = v.word_to_id['<unk>']
        ids = [v.word_to_id['<s>']]
        for word in words:
            word_id = v.word_to_id[word]
            ids.append(word_id if v.in_shortlist(word_id) else unk)
        ids.append(v.word_to_id['</s>'])
        step = limit or len(ids)
        result = [tuple(ids[i:i + step]) for i in range(0, len(ids), step)]
        return [(piece, file_index) for piece in result if len(piece) > 1]

    def reader(self, sampling, batch_size, limit):
        from theanolm.parsing import ShufflingBatchIterator
        return ShufflingBatchIterator(self.files, sampling, vocab(),
                                      batch_size=batch_size,
                                      max_sequence_length=limit,
                                      map_oos_to_unk=True)


def batch_pieces(batch):
    """Decodes a mini-batch into its list of (word IDs, file index)."""
    word_ids, file_ids, mask = batch
    result = []
    for s in range(word_ids.shape[1]):
        length = int(mask[:, s].sum())
        expect(all(mask[t, s] == (1 if t < length else 0) for t in range(mask.shape[0])),
               'mask is not a prefix')
        files = set(int(f) for f in file_ids[:length, s])
        expect(len(files) == 1, 'tokens of one line attributed to several files')
        result.append((tuple(int(w) for w in word_ids[:length, s]), files.pop()))
    return result


def epoch(reader, batch_size, limit_batches=200):
    """Reads one epoch; returns list of batches as lists of pieces."""
    batches = []
    for batch in reader:
        pieces = batch_pieces(batch)
        batches.append(pieces)
        expect(len(batches) <= limit_batches, 'epoch does not end')
    for index, pieces in enumerate(batches):
        expect(0 < len(pieces) <= batch_size, 'mini-batch of {} sequences', len(pieces))
        expect(len(pieces) == batch_size or index == len(batches) - 1,
               'incomplete mini-batch inside the epoch')
    return batches


def lines_of(pieces, files, limit):
    """Parses a stream of pieces back to line indices."""
    table = {}
    for index in range(len(files.lines)):
        expected = files.pieces(index, limit)
        if expected:
            table[expected[0]] = (index, expected)
    result = []
    pos = 0
    while pos < len(pieces):
        key = pieces[pos]
        expect(key in table, 'a sequence {} that no line starts with', key)
        index, expected = table[key]
        expect(pieces[pos:pos + len(expected)] == expected,
               'line {} is delivered incompletely', index)
        result.append(index)
        pos += len(expected)
    return result


class BigFileSet(object):
    """One file of many distinct lines: line i spells its number digit by digit."""

    def __init__(self, size):
        self.size = size
        self.handle = tempfile.NamedTemporaryFile('w+b', prefix='mc', delete=True)
        self.handle.write(''.join(' '.join(str(i)) + '\n' for i in range(size)).encode('utf-8'))
        self.handle.flush()
        self.handle.seek(0)

    def close(self):
        self.handle.close()

    def reader(self, sampling, batch_size):
        from theanolm import Vocabulary
        from theanolm.parsing import ShufflingBatchIterator
        v = Vocabulary.from_file(io.StringIO('\n'.join('0123456789')), 'words')
        self.names = v.id_to_word
        return ShufflingBatchIterator([self.handle], sampling, v, batch_size=batch_size)

    def numbers(self, batches):
        """The line numbers of a list of mini-batches."""
        result = []
        for word_ids, _, mask in batches:
            for s in range(word_ids.shape[1]):
                words = [self.names[i] for i, m in zip(word_ids[:, s], mask[:, s]) if m]
                expect(words[0] == '<s>' and words[-1] == '</s>', 'incomplete line {}', words)
                result.append(int(''.join(words[1:-1])))
        return result
