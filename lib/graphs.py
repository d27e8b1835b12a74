"""Graphs: building networkx graphs from abstract ones, observing them, and the graph helpers as events."""
import os, re
from fractions import Fraction
import networkx as nx
import metaknowledge as mk
from mbv import enc, num, outcome
NONE = -1000000


def nid(n):
    return enc(n)


def unid(s):
    return int(s[2:]) if s.startswith('i:') else s[2:]


def build(o, cname='count', wname='weight', scale=1):
    """o: {directed, multi, nodes: [{id, c, at}], edges: [{a, b, key, w, at}]} with tagged ids; at: list of [name, value]"""
    G = {(False, False): nx.Graph, (True, False): nx.DiGraph, (False, True): nx.MultiGraph, (True, True): nx.MultiDiGraph}[(o['directed'], o['multi'])]()
    for n in o['nodes']:
        d = dict((k, unid(v)) for k, v in n['at'])
        if n['c'] != NONE:
            d[cname] = n['c'] * scale
        G.add_node(unid(n['id']), **d)
    for e in o['edges']:
        d = dict((k, unid(v)) for k, v in e['at'])
        if e['w'] != NONE:
            d[wname] = e['w'] * scale
        G.add_edge(unid(e['a']), unid(e['b']), **dict(d, **({'key': unid(e['key'])} if o['multi'] else {})))
    return G


def value(d, name, scale=1):
    if name not in d:
        return NONE
    if scale == 1 or isinstance(d[name], str):
        return num(d[name])
    x = d[name] / scale
    return num(int(x)) if x == int(x) else num(None)


def observe(G, cname='count', wname='weight', scale=1):
    nodes = [{'id': nid(n), 'c': value(d, cname, scale), 'at': [[k, enc(v)] for k, v in sorted(d.items()) if k != cname]} for n, d in G.nodes(data=True)]
    edges = []
    it = G.edges(keys=True, data=True) if G.is_multigraph() else ((a, b, None, d) for a, b, d in G.edges(data=True))
    for a, b, k, d in it:
        a, b = nid(a), nid(b)
        if not G.is_directed() and a > b:
            a, b = b, a
        edges.append({'a': a, 'b': b, 'key': '' if k is None else enc(k), 'w': value(d, wname, scale), 'at': [[x, enc(v)] for x, v in sorted(d.items()) if x != wname]})
    return {'directed': G.is_directed(), 'multi': G.is_multigraph(), 'nodes': nodes, 'edges': edges}


def canon(o):
    """abstract graph in the recorder's normal form"""
    return observe(build(o))


INF = float('inf')


def bounds(r, lo, hi, names):
    k = {}
    if lo != NONE:
        k[names[0]] = lo
    elif r.random() < .2:
        k[names[0]] = -INF
    if hi != NONE:
        k[names[1]] = hi
    elif r.random() < .2:
        k[names[1]] = INF
    return k


def drop(ck, ev, G, v, o, cname, wname, scale=1):
    """o: op, lo, hi, lenient, loops, useWeight; scale: the real weights and counts are the abstract ones times it"""
    r = ck.rng
    unit = 1 if o['op'] == 'degree' and not o['useWeight'] else scale
    low, high = (x if x == NONE else x * unit for x in (o['lo'], o['hi']))
    if o['op'] == 'edges':
        k = bounds(r, low, high, ('minWeight', 'maxWeight'))
        k.update(ignoreUnweighted=o['lenient'], dropSelfLoops=o['loops'])
        if wname != 'weight':
            k['parameterName'] = wname
        out, res = outcome(mk.dropEdges, G, **{a: b for a, b in k.items() if b is not False or r.random() < .5})
    elif o['op'] == 'degree':
        k = bounds(r, low, high, ('minDegree', 'maxDegree'))
        k.update(useWeight=o['useWeight'], includeUnweighted=o['lenient'])
        if wname != 'weight':
            k['parameterName'] = wname
        out, res = outcome(mk.dropNodesByDegree, G, **{a: b for a, b in k.items() if b is not True or r.random() < .5})
    else:
        k = bounds(r, low, high, ('minCount', 'maxCount'))
        k['ignoreMissing'] = o['lenient']
        if cname != 'count':
            k['parameterName'] = cname
        out, res = outcome(mk.dropNodesByCount, G, **{a: b for a, b in k.items() if b is not False or r.random() < .5})
    ev.append(dict(o, v=v, out='ok' if out == 'ok' else res, g=observe(G, cname, wname, scale)))


def fraction(x):
    f = Fraction(x).limit_denominator(300)
    return [f.numerator, f.denominator] if abs(float(f) - x) <= 1e-5 * max(1, abs(x)) and abs(f.numerator) < 10**6 else [-1, 1]


WORDS = {'Nodes': 'nodes', 'Edges': 'edges', 'Isolates': 'isolates', 'Self loops': 'loops', 'Density': 'density', 'Transitivity': 'transitivity'}
ALL = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity')


def stats(ck, ev, G, v, asked, form):
    k = {} if asked == list(ALL) and ck.rng.random() < .5 else {'stats': tuple(asked) if ck.rng.random() < .5 else list(asked)}
    if form == 'tuple':
        res = mk.graphStats(G, makeString=False, **k)
        assert len(res) == len(asked)
        got = list(zip(asked, [float(x) for x in res]))
    elif form == 'lines':
        s = mk.graphStats(G, **k)
        got = [(WORDS[x.split(': ')[0]], float(x.split(': ')[1])) for x in s.split('\n')] if asked else []
    else:
        s = mk.graphStats(G, sentenceString=True, **k)
        assert s.startswith('The graph has ')
        got = []
        for x in re.split(', | and ', s[len('The graph has '):]) if asked else []:
            m = re.match(r'^(?:a )?(density|transitivity) of (\S+)$', x)
            if m:
                got.append((m.group(1), float(m.group(2))))
            else:
                n, w = x.split(' ', 1)
                got.append(({'self loops': 'loops'}.get(w, w), float(n)))
    ev.append({'op': 'stats', 'v': v, 'asked': list(asked), 'form': form, 'got': [[a] + fraction(b) for a, b in got]})


def table(ck, ev, G, v, weighted, way, wname):
    from metaknowledge.graphHelpers import getNodeDegrees, getDegreeDistribution
    w = wname if weighted else False
    given = lambda k: {a: b for a, b in k.items() if b not in ('bi', 'weight') or ck.rng.random() < .5}
    d = getNodeDegrees(G, **given({'weightString': w, 'edgeType': way}))
    dist = getDegreeDistribution(G, **given({'weightParameter': w, 'directionalType': way})) if len(G) else []
    ev.append({'op': 'table', 'v': v, 'weighted': weighted, 'way': way, 'table': [[nid(n), num(x)] for n, x in d.items()], 'dist': [num(x) for x in dist]})


# ---- random abstract graphs
NAMES = ['s:a', 's:b', 's:C c', 's:d, e', 's:"q"', 'i:7', 's:é', 's:7x', 's:Lee, 1999']


def random_graph(r, directed=None, multi=None, names=NAMES, weights=(1, 2, 3, 5), missing=.15, attrs=True, cmiss=.1, nmax=7):
    directed = r.random() < .4 if directed is None else directed
    multi = r.random() < .2 if multi is None else multi
    ids = r.sample(names, r.randint(0, min(nmax, len(names))))
    val = lambda: r.choice(['s:x', 's:y, z', 's:', 'i:1999', 's:-'])
    def at(names):
        return [[k, val()] for k in names if attrs and r.random() < .4]
    nodes = [{'id': x, 'c': NONE if r.random() < cmiss else r.choice(weights), 'at': at(['info', 'type'])} for x in ids]
    edges, seen = [], set()
    p = r.choice([.1, .3, .6])
    for a in ids:
        for b in ids:
            if not directed and a > b:
                continue
            for key in (['s:k', 'i:2', 's:m'] if multi else ['']):
                if r.random() < p * (.5 if a == b else 1):
                    edges.append({'a': a, 'b': b, 'key': key, 'w': NONE if r.random() < missing else r.choice(weights), 'at': at(['yearDiff'])})
    return canon({'directed': directed, 'multi': multi, 'nodes': nodes, 'edges': edges})
