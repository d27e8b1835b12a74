"""C20: graph files."""
import os
import networkx as nx
import metaknowledge as mk
import graphs
from mbv import outcome

NAMES = ['a', 'b', 'Lee, K, 1999', 'say "x"', 'é ü', 'two\nlines', '7', ' pad', "o'b", '#x', 'Zed|Q', 'NA', 'cr\rx', 'ж']
VALS = ['x', 'y, z', '', 'q"q', '1999', 'l1\nl2', 'é']


def text(G):
    nodes = [{'id': str(n), 'at': [[k, str(v)] for k, v in d.items()]} for n, d in G.nodes(data=True)]
    edges = [{'a': str(a), 'b': str(b), 'at': [[k, str(v)] for k, v in d.items()]} for a, b, d in G.edges(data=True)]
    return {'directed': G.is_directed(), 'nodes': nodes, 'edges': edges}


def random_graph(r, names, multi=False, directed=None):
    directed = r.random() < .4 if directed is None else directed
    G = {(False, False): nx.Graph, (True, False): nx.DiGraph, (False, True): nx.MultiGraph, (True, True): nx.MultiDiGraph}[(directed, multi)]()
    ids = r.sample(names, r.randint(0, min(5, len(names))))
    uniform = r.random() < .5
    nk, ek = r.sample(['count', 'info', 'MK-ID', 'a b', 'x,y'], r.choice([0, 1, 2])), r.sample(['weight', 'yearDiff', 'w"q'], r.choice([0, 1, 1, 2]))
    def at(ks):
        return {k: (r.choice([1, 2, 10]) if k in ('count', 'weight') else r.choice([3, 2.5, True, None]) if r.random() < .15 else r.choice(VALS)) for k in ks if uniform or r.random() < .7}
    for x in ids:
        G.add_node(int(x) if x == '7' and r.random() < .5 else x, **at(nk))
    ids = list(G)
    p = r.choice([0, .3, .6])
    for i, a in enumerate(ids):
        for b in ids if directed else ids[i:]:
            for _ in range(r.choice([1, 2]) if multi else 1):
                if r.random() < p:
                    G.add_edge(a, b, **at(ek))
    return G


def read(p):
    with open(p, encoding='utf-8', newline='') as f:
        return f.read()


def none_as_empty(t):
    """csv writes None as an empty cell"""
    for x in t['nodes'] + t['edges']:
        x['at'] = [[k, '' if v == 'None' else v] for k, v in x['at']]
    return t


def write(ck, ev, G, d):
    r = ck.rng
    os.makedirs(d)
    name, suffix = r.choice(['net', 'my graph', 'n.v1']), r.choice(['csv', 'csv', 'txt', 'dat.csv'])
    typing, info, allSame = r.random() < .4, r.random() < .8, r.random() < .3
    k = dict(edgeInfo=info, typing=typing, suffix=suffix, allSameAttribute=allSame)
    k = {a: b for a, b in k.items() if r.random() < .6 or b != {'edgeInfo': True, 'typing': False, 'suffix': 'csv', 'allSameAttribute': False}[a]}
    g = none_as_empty(text(G))
    prefix = os.path.join(d, name) if r.random() < .7 else os.path.relpath(os.path.join(d, name))
    if r.random() < .2:
        for f in ('_edgeList', '_nodeAttributes'):
            with open(prefix + f + '.csv', 'w') as h:
                h.write('old\n' * 50)
    for f in os.listdir(d):
        if not ('_edgeList' + ({True: '_directed', False: '_undirected'}[G.is_directed()] if typing else '') + '.' + suffix in f or
                '_nodeAttributes' + ({True: '_directed', False: '_undirected'}[G.is_directed()] if typing else '') + '.' + suffix in f):
            os.remove(os.path.join(d, f))
    out, res = outcome(mk.writeGraph, G, prefix, **k)
    files = sorted(os.listdir(d))
    e = {'op': 'write', 'g': g, 'after': none_as_empty(text(G)), 'name': name, 'suffix': suffix, 'typing': typing, 'info': info, 'allSame': allSame, 'out': 'ok' if out == 'ok' else res,
         'files': files, 'edgeText': '', 'nodeText': '', 'asDirected': False, 'withNodes': True, 'read': g}
    if out == 'ok':
        ef = [f for f in files if '_edgeList' in f]
        nf = [f for f in files if '_nodeAttributes' in f]
        assert len(ef) == 1 and len(nf) == 1, files
        ef, nf = os.path.join(d, ef[0]), os.path.join(d, nf[0])
        e['edgeText'], e['nodeText'] = read(ef), read(nf)
        pairs = [frozenset(x) for x in G.edges()]
        e['asDirected'] = G.is_directed() if len(set(pairs)) < len(pairs) else r.random() < .5
        e['withNodes'] = r.random() < .8
        if r.random() < .5:
            R = mk.readGraph(ef, nf if e['withNodes'] else None, directed=e['asDirected'])
        else:
            R = mk.readGraph(edgeList=ef, directed=e['asDirected'], **({'nodeList': nf} if e['withNodes'] else {}))
        e['read'] = text(R)
    ev.append(e)


def keep(ck, ev, G, d):
    r = ck.rng
    os.makedirs(d)
    typing = r.random() < .4
    kind = ('_directed' if G.is_directed() else '_undirected') if typing else ''
    names = ['net_edgeList%s.csv' % kind, 'net_nodeAttributes%s.csv' % kind, 'net_edgeList.txt', 'other.csv']
    existing = [f for f in names if r.random() < .4]
    for f in existing:
        with open(os.path.join(d, f), 'w') as h:
            h.write('old')
    out, res = outcome(mk.writeGraph, G, os.path.join(d, 'net'), overwrite=False, typing=typing)
    ev.append({'op': 'keep', 'g': none_as_empty(text(G)), 'name': 'net', 'suffix': 'csv', 'typing': typing, 'existing': existing, 'out': 'ok' if out == 'ok' else res,
               'contents': [read(os.path.join(d, f)) for f in existing], 'files': sorted(os.listdir(d))})


def lists(ck, ev, G, d):
    """the edge list or node list on its own, also of graphs with parallel edges"""
    os.makedirs(d)
    p = os.path.join(d, 'list.csv')
    g = none_as_empty(text(G))
    if ck.rng.random() < .6:
        info = ck.rng.random() < .7
        mk.writeEdgeList(G, p, extraInfo=info)
        ev.append({'op': 'edges', 'g': g, 'info': info, 'edgeText': read(p)})
    else:
        mk.writeNodeAttributeFile(G, p)
        ev.append({'op': 'nodes', 'g': g, 'nodeText': read(p)})


def tnet(ck, ev, d):
    r = ck.rng
    os.makedirs(d)
    timed = r.random() < .3
    directed = r.random() < .3
    G = {(False, False): nx.Graph, (True, False): nx.DiGraph, (False, True): nx.MultiGraph, (True, True): nx.MultiDiGraph}[(directed, timed)]()
    attr, widx = r.choice(['type', 'mode']), r.choice(['tnet-ID', 'idx'])
    wname = r.choice(['weight', 'w'])
    ids = r.sample(NAMES, r.randint(1, 7))
    modes = r.choice([['A', 'B'], ['A', 'B'], ['A', 'B'], ['A'], ['A', 'B', 'C'], ['A', 'B', None]])
    for x in ids:
        m = r.choice(modes)
        G.add_node(x, **({} if m is None else {attr: m}))
    within = r.random() < .15
    for i, a in enumerate(ids):
        for b in ids if directed else ids[i:]:
            if (G.nodes[a].get(attr) != G.nodes[b].get(attr) or within) and r.random() < .5:
                for key in (r.sample(['1999-01-01 00:00:00', '2000', 5], r.choice([1, 2])) if timed else [None]):
                    G.add_edge(a, b, **dict({wname: r.choice([1, 2, 7])}, **({'key': key} if timed else {})))
    source = r.choice(['', '', 'A', 'B'])
    weighted = r.random() < .6
    p = os.path.join(d, 'net.tnet')
    k = dict(weighted=weighted, timeString='key' if timed else None, nodeIndexString=widx, weightString=wname, sourceMode=source or None)
    k = {a: b for a, b in k.items() if r.random() < .6 or b != {'weighted': False, 'timeString': None, 'nodeIndexString': 'tnet-ID', 'weightString': 'weight', 'sourceMode': None}[a]}
    out, res = outcome(mk.writeTnetFile, G, p, attr, **k)
    nodes = [{'id': n, 'mode': x.get(attr, ''), 'index': x.get(widx, 0)} for n, x in G.nodes(data=True)]
    it = G.edges(keys=True, data=True) if timed else ((a, b, '', x) for a, b, x in G.edges(data=True))
    edges = [{'a': a, 'b': b, 'time': str(t), 'w': str(x[wname])} for a, b, t, x in it]
    ev.append({'op': 'tnet', 'g': {'nodes': nodes, 'edges': edges}, 'source': source, 'weighted': weighted, 'timed': timed, 'out': 'ok' if out == 'ok' else res,
               'text': read(p) if out == 'ok' else ''})


def big(ck, ev, d):
    """more edges and nodes than any reporting interval, with attributes on a few of them only"""
    r = ck.rng
    os.makedirs(d)
    G = r.choice([nx.Graph, nx.DiGraph])()
    n = r.choice([55, 70, 130])
    for i in range(n):
        G.add_node('n%d' % i, **({'count': i % 4} if r.random() < .9 else {}))
    m = r.choice([1001, 1010, 1205])
    pairs = [(a, b) for a in range(n) for b in range(n if G.is_directed() else a) if a != b]
    for a, b in r.sample(pairs, m):
        G.add_edge('n%d' % a, 'n%d' % b, weight=1 + (a * b) % 5)
    order = list(G.edges())
    for k in {0, 1, 98, 99, 100, 499, 500, 998, 999, 1000, m - 1, r.randrange(m)}:
        G.edges[order[k]]['rare%d' % k] = r.choice(VALS[:2])
    some = list(G.nodes())
    for k in {0, n - 1, 48, 49, 50, r.randrange(n)} | ({98, 99, 100} if n > 100 else set()):
        G.nodes[some[k]]['only%d' % k] = 'x'
    g = text(G)
    mk.writeGraph(G, os.path.join(d, 'net'))
    ef, nf = [[f for f in os.listdir(d) if w in f] for w in ('_edgeList', '_nodeAttributes')]
    ef, nf = os.path.join(d, ef[0]), os.path.join(d, nf[0])
    R = mk.readGraph(ef, nf, directed=G.is_directed())
    lines = lambda p: read(p).replace('\r\n', '\n').rstrip('\n').split('\n')
    ev.append({'op': 'big', 'g': g, 'edgeLines': lines(ef), 'nodeLines': lines(nf), 'read': text(R)})


def main(ck):
    r = ck.rng
    ck.mc('MC_Csv', invariants=['RoundTrip'], constants={'MaxLen': 9 if ck.thorough else 7})
    ck.mc('MC_GraphIO', invariants=['RoundTrip'])
    for n in range(ck.n(700, 8000)):
        G = random_graph(r, NAMES)
        d = os.path.join(ck.tmp, 'w%d' % n)
        ck.case('W%d' % n, 'round trip', lambda ev: write(ck, ev, G, d))
    for n in range(ck.n(150, 1500)):
        G = random_graph(r, NAMES)
        d = os.path.join(ck.tmp, 'k%d' % n)
        ck.case('K%d' % n, 'overwrite', lambda ev: keep(ck, ev, G, d))
    for n in range(ck.n(200, 2000)):
        G = random_graph(r, NAMES, multi=r.random() < .6)
        d = os.path.join(ck.tmp, 'l%d' % n)
        ck.case('L%d' % n, 'lists', lambda ev: lists(ck, ev, G, d))
    for n in range(ck.n(500, 5000)):
        d = os.path.join(ck.tmp, 't%d' % n)
        ck.case('N%d' % n, 'tnet', lambda ev: tnet(ck, ev, d))
    for n in range(ck.n(2, 12)):
        d = os.path.join(ck.tmp, 'b%d' % n)
        ck.case('B%d' % n, 'large', lambda ev: big(ck, ev, d), limit=60)
    ck.validate('Trace_GraphIO')
