"""C22: the diffusion graph."""
import networkx as nx
import metaknowledge as mk
import recs
import diffusion as df
LISTS = ['AF', 'AU', 'DE', 'WC', 'CR', 'citations', 'authorsFull', 'authKeywords', 'SC']
LABELS = ['PY', 'year', 'AF', 'DE', 'WC', 'SO', 'UT', 'LA', 'SC', 'py', 'authorsFull', 'TI', 'J9']
FULL = {'py': 'PY'}


def main(ck):
    r = ck.rng
    ck.mc('MC_Diffusion', invariants=['Additive', 'OrderFree', 'WeightsSum', 'LabelsSplit'],
          constants={'MaxTargets': 2, 'MaxCites': 1 if not ck.thorough else 2})

    def graph(ev, S, T, tag, ttag, weighted, label):
        G = mk.diffusionGraph(S, T, sourceType=tag, targetType=ttag, weighted=weighted, **({'labelEdgesBy': label} if label else {}))
        e = {'op': 'graph', 'tag': tag, 'ttag': ttag, 'extra': FULL.get(label, label), 'map': 'str', 'weighted': weighted, 'multi': G.is_multigraph(), 'all': False}
        e['nodes'] = [{'v': df.key(x), 's': a.get('source') is True, 't': a.get('target') is True} for x, a in G.nodes(data=True)]
        if not all(set(a) == {'source', 'target'} and a['source'] in (True, False) and a['target'] in (True, False) for _, a in G.nodes(data=True)):
            e['nodes'].append({'v': 'bad attributes', 's': False, 't': False})
        edges = G.edges(data=True, keys=True) if G.is_multigraph() else ((a, b, '', d) for a, b, d in G.edges(data=True))
        e['edges'] = [{'a': df.key(a), 'b': df.key(b), 'x': df.key(k) if label else '', 'w': 1 if not weighted and not d else df.num(d.get('weight'))} for a, b, k, d in edges]
        if not G.is_directed():
            e['edges'].append({'a': 'undirected', 'b': '', 'x': '', 'w': 0})
        ev.append(e)
    for n in range(ck.n(260, 4000)):
        p = df.pool(r, r.choice([1, 2, 3, 4, 5]), r.choice([.3, .6, .9]))
        ix = list(range(len(p)))
        s = r.sample(ix, r.randrange(0 if r.random() < .1 else 1, len(ix) + 1))
        t = r.sample(ix, r.randrange(0, len(ix) + 1)) if r.random() < .8 else s

        def go(ev):
            real = [recs.make('W', f) for f in p]
            copies = real if r.random() < .5 else [recs.make('W', f) for f in p]
            S = mk.RecordCollection([real[i] for i in s], name='S')
            T = mk.RecordCollection([copies[i] for i in t], name='T')
            before = df.snapshot(S, T)
            for _ in range(3):
                tag = r.choice(LISTS)
                graph(ev, S, T, tag, tag if r.random() < .5 else r.choice(LISTS), r.random() < .7, r.choice(LABELS) if r.random() < .5 else '')
            ev.append({'op': 'after', 'same': before == df.snapshot(S, T)})
        ck.case('G%d' % n, 'diffusion graph', go, pool=[{'src': 'W', 'f': f} for f in p], sources=[i + 1 for i in s], targets=[i + 1 for i in t])
    # values that are no lists: recorded findings
    p = [[{'t': 'UT', 'v': ['WOS:1']}, {'t': 'AU', 'v': ['Lee, K']}, {'t': 'PY', 'v': ['2000']}, {'t': 'J9', 'v': ['J X']}],
         [{'t': 'UT', 'v': ['WOS:2']}, {'t': 'PY', 'v': ['2001']}, {'t': 'CR', 'v': ['Lee K, 2000, J X']}]]
    for tag in ('raw', 'UT', 'PY'):
        ck.case('KF-' + tag, 'known', lambda ev: graph(ev, mk.RecordCollection([recs.make('W', p[0])]), mk.RecordCollection([recs.make('W', p[1])]), tag, tag, True, ''),
                pool=[{'src': 'W', 'f': f} for f in p], sources=[1], targets=[2])
    # what is refused
    C, R = mk.RecordCollection([mk.WOS.WOSRecord({'PT': ['J'], 'UT': ['WOS:1'], 'AU': ['Lee, K'], 'PY': ['1999']})]), mk.RecordCollection([])
    for n, f in enumerate((lambda: mk.diffusionGraph(C, C, sourceType='nothing'), lambda: mk.diffusionGraph(C, C, targetType='nothing'), lambda: mk.diffusionGraph(C, C, sourceType='Raw'), lambda: mk.diffusionGraph(C, C, 'raw', 7), lambda: mk.diffusionGraph(C, R, labelEdgesBy='nothing'))):
        def refused(ev):
            try:
                f()
                out = 'ok'
            except Exception as x:
                out = 'exc:' + type(x).__name__
            ev.append({'op': 'refused', 'out': out})
        ck.case('X%d' % n, 'refused', refused, pool=[], sources=[], targets=[])
    ck.validate('Trace_Diffusion')
