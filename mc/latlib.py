"""Small word lattices for the checks of the lattice code."""

import itertools


def build(spec):
    """Lattice object described by a plain dictionary.

    nodes: number of nodes, links: [start, end, word, ac, lm, transitions],
    start: initial node, final: list of nodes, times: list or None
    """
    from theanolm.scoring.lattice import Lattice
    lattice = Lattice()
    lattice.nodes = [Lattice.Node(i) for i in range(spec['nodes'])]
    for node, time in zip(lattice.nodes, spec.get('times') or []):
        node.time = time
    for link in spec['links']:
        link = list(link) + [None] * (5 - len(link))
        start, end = lattice.nodes[link[0]], lattice.nodes[link[1]]
        obj = Lattice.Link(start, end, link[2], link[3], link[4], link[5] if len(link) > 5 else '')
        lattice.links.append(obj)
        start.out_links.append(obj)
        end.in_links.append(obj)
    lattice.initial_node = lattice.nodes[spec.get('start', 0)]
    for index in spec.get('final', [spec['nodes'] - 1]):
        lattice.nodes[index].final = True
    lattice.utterance_id = spec.get('id', 'utt')
    lattice.lm_scale = spec.get('lm_scale')
    lattice.wi_penalty = spec.get('wi_penalty')
    return lattice


def topologies(nodes, links, connected=True):
    """All multisets of that many forward links over that many nodes, in which
    every node lies on a path from the first to the last."""
    pairs = list(itertools.combinations(range(nodes), 2))
    for chosen in itertools.combinations_with_replacement(pairs, links):
        if connected:
            reach, back = {0}, {nodes - 1}
            for s, e in sorted(chosen):
                if s in reach:
                    reach.add(e)
            for s, e in sorted(chosen, reverse=True, key=lambda x: x[::-1]):
                if e in back:
                    back.add(s)
            if len(reach) < nodes or len(back) < nodes:
                continue
        yield list(chosen)


def paths(spec):
    """All paths (lists of link indices) from the start to a final node."""
    out = {}
    for index, link in enumerate(spec['links']):
        out.setdefault(link[0], []).append(index)
    final = set(spec.get('final', [spec['nodes'] - 1]))
    result = []

    def walk(node, path):
        if node in final:
            result.append(list(path))
        for index in out.get(node, ()):
            path.append(index)
            walk(spec['links'][index][1], path)
            path.pop()
    walk(spec.get('start', 0), [])
    return result
