"""Reference model of lattice decoding, on top of whole-sequence evaluation of the real network."""

import math

import numpy

from mc import latlib, netlib

DEFAULTS = {'nnlm_weight': 1.0, 'lm_scale': None, 'wi_penalty': None, 'unk_penalty': None, 'use_shortlist': False,
            'unk_from_lattice': False, 'linear_interpolation': False, 'max_tokens_per_node': None, 'beam': None,
            'recombination_order': None}

MEMBERSHIP = {'classes': {'a': 5 / 7, 'b': 2 / 7, 'z': 0.0, 'c': 1 / 4, 'd': 3 / 4},       # of netlib.vocabulary()
              'unkclass': {'a': 5 / 8, '<unk>': 3 / 8, 'c': 1 / 4, 'd': 3 / 4}}
SHARE = {'o': 3 / 4, 'p': 1 / 4}


def decoder(arch, vocab, options):
    def make():
        from theanolm.scoring import LatticeDecoder
        net = netlib.network(arch, vocab, False)
        return LatticeDecoder(net, dict(DEFAULTS, **options))
    return netlib.cached(('decoder', arch, vocab, repr(sorted(options.items()))), make)


_DIST = {}


def distribution(arch, vocab_name, ids):
    """Next class distribution after each prefix of the given shortlist word IDs."""
    key = (arch, vocab_name, tuple(ids))
    if key not in _DIST:
        if len(_DIST) > 100000:
            _DIST.clear()
        net = netlib.network(arch, vocab_name)
        matrix, mask = netlib.matrix([ids])
        probs = netlib.output_function(net)(matrix, net.vocabulary.word_id_to_class_id[matrix], mask)[:, 0]
        for n in range(1, len(ids) + 1):
            _DIST[key[:2] + (tuple(ids[:n]),)] = probs[n - 1]
    return _DIST[key]


def network_score(arch, vocab_name, history, word, lattice_score, options):
    """Log probability of a word (text) after <s> and the history (texts)."""
    options = dict(DEFAULTS, **options)
    vocab = netlib.network(arch, vocab_name).vocabulary
    unk = vocab.word_to_id['<unk>']
    limit = vocab.num_shortlist_words()

    def shortlist(w):
        word_id = vocab.word_to_id.get(w, unk)
        return word_id if word_id < limit else unk
    ids = [vocab.word_to_id['<s>']] + [shortlist(w) for w in history]
    target = shortlist(word)
    score = math.log(distribution(arch, vocab_name, ids)[vocab.word_id_to_class_id[target]])
    known = word in vocab.word_to_id
    listed = known and vocab.word_to_id[word] < limit
    score += math.log(MEMBERSHIP.get(vocab_name, {}).get(word if listed else '<unk>', 1.0))
    if listed:
        return score
    divided = options['use_shortlist'] and vocab.has_unigram_probs()
    if divided and known:
        return score + math.log(SHARE[word])
    if options['unk_from_lattice']:
        return lattice_score if lattice_score is not None else score
    if options['unk_penalty'] is not None:
        return options['unk_penalty']
    return score


def total(ac, lat, nn, length, spec, options):
    """Total score of a (partial) hypothesis of that many words and sentence ends."""
    options = dict(DEFAULTS, **options)
    weight = options['nnlm_weight']
    if options['linear_interpolation']:
        if weight == 1.0:
            lm = nn
        elif weight == 0.0:
            lm = lat
        else:
            lm = numpy.logaddexp(math.log(weight) + nn, math.log(1 - weight) + lat)
    else:
        lm = (weight * nn if weight else 0.0) + ((1 - weight) * lat if weight != 1.0 else 0.0)
    scale = options['lm_scale'] if options['lm_scale'] is not None else \
        (spec.get('lm_scale') if spec.get('lm_scale') is not None else 1.0)
    penalty = options['wi_penalty'] if options['wi_penalty'] is not None else (spec.get('wi_penalty') or 0.0)
    graph = scale * lm + penalty * length
    return ac + graph, graph


class Hypothesis(object):
    def __init__(self, words, ac, lat, nn, spec, options, closed=False):
        self.words, self.ac, self.lat, self.nn = words, ac, lat, nn
        self.total, self.graph = total(ac, lat, nn, len(words), spec, options)

    def __repr__(self):
        return '{} ac={:.6g} lat={:.6g} nn={:.6g} total={:.6g}'.format(' '.join(self.words), self.ac, self.lat, self.nn,
                                                                      self.total)


def extend(hyp, link, arch, vocab, spec, options):
    words, nn = hyp.words, hyp.nn
    if link[2] is not None:
        nn = nn + network_score(arch, vocab, words, link[2], link[4], options)
        words = words + (link[2],)
    return Hypothesis(words, hyp.ac + (link[3] or 0.0), hyp.lat + (link[4] or 0.0), nn, spec, options)


def finish(hyp, arch, vocab, spec, options):
    nn = hyp.nn + network_score(arch, vocab, hyp.words, '</s>', None, options)
    return Hypothesis(hyp.words + ('</s>',), hyp.ac, hyp.lat, nn, spec, options)


def all_hypotheses(spec, arch, vocab, options):
    """word sequence -> list of Hypothesis, one per path."""
    result = {}
    for path in latlib.paths(spec):
        hyp = Hypothesis((), 0.0, 0.0, 0.0, spec, options)
        for index in path:
            hyp = extend(hyp, spec['links'][index], arch, vocab, spec, options)
        hyp = finish(hyp, arch, vocab, spec, options)
        result.setdefault(hyp.words, []).append(hyp)
    return result


def decode(spec, arch, vocab, options):
    """Runs the real decoder; the returned tokens as Hypothesis-like tuples."""
    lattice = latlib.build(spec)
    tokens, dropped = decoder(arch, vocab, options).decode(lattice)
    vocabulary = netlib.network(arch, vocab, False).vocabulary
    rows = []
    for token in tokens:
        words = tuple(token.history_words(vocabulary))
        rows.append((words, float(token.ac_logprob), float(token.lat_lm_logprob), float(token.nn_lm_logprob),
                     float(token.graph_logprob), float(token.total_logprob)))
    return rows, tokens, dropped, lattice


def close(x, y, tolerance=1e-8):
    return x == y or abs(x - y) <= tolerance * max(1.0, abs(x), abs(y))


def matches(row, hyp):
    return row[0] == ('<s>',) + hyp.words and close(row[1], hyp.ac) and close(row[2], hyp.lat) and \
        close(row[3], hyp.nn) and close(row[4], hyp.graph) and close(row[5], hyp.total)


def pruned(spec, arch, vocab, options):
    """Reference of pruned decoding of a lattice whose processing order is the node order.

    Returns the final hypotheses, or None when the result depends on a tie.
    """
    options = dict(DEFAULTS, **options)
    beam, limit, order = options['beam'], options['max_tokens_per_node'], options['recombination_order']
    times = spec.get('times') or [None] * spec['nodes']
    final = set(spec.get('final', [spec['nodes'] - 1]))
    arrived = [[] for _ in range(spec['nodes'])]
    arrived[0].append(Hypothesis((), 0.0, 0.0, 0.0, spec, options))
    best = [None] * spec['nodes']
    best[0] = arrived[0][0].total
    result = []
    tie = [False]

    def recombine(hyps):
        kept = {}
        for hyp in sorted(hyps, key=lambda h: -h.total):
            history = ('<s>',) + hyp.words
            key = history if order is None else history[-order:]
            if key in kept:
                tie[0] |= close(kept[key].total, hyp.total, 1e-7)
            else:
                kept[key] = hyp
        return sorted(kept.values(), key=lambda h: -h.total)
    for node in range(spec['nodes']):
        hyps = recombine(arrived[node])
        if not hyps:
            raise ValueError('every node must be reachable')
        if beam is not None:
            if times[node] is None:
                later = range(node, spec['nodes'])
            else:
                later = range(min(i for i in range(spec['nodes']) if times[i] is not None and times[i] >= times[node]),
                              spec['nodes'])
            threshold = max(best[i] for i in later if best[i] is not None) - beam
            tie[0] |= any(close(h.total, threshold, 1e-7) for h in hyps)
            hyps = [h for i, h in enumerate(hyps) if i == 0 or h.total > threshold]
        if limit is not None:
            if len(hyps) > limit:
                tie[0] |= close(hyps[limit - 1].total, hyps[limit].total, 1e-7)
            hyps = hyps[:limit]
        if node in final:
            result += [finish(h, arch, vocab, spec, options) for h in hyps]
        for link in spec['links']:
            if link[0] == node:
                for h in hyps:
                    new = extend(h, link, arch, vocab, spec, options)
                    arrived[link[1]].append(new)
                    if best[link[1]] is None or new.total > best[link[1]]:
                        best[link[1]] = new.total
    result = recombine(result)
    return None if tie[0] else result
