"""C19: merging graphs."""
import copy
import metaknowledge as mk
import graphs, net, netcase, tags
from graphs import NONE


def merge(ck, ev, Gs, t, s, cname, wname, incN=True, incE=True):
    k = {}
    if cname != 'count' or not incN:
        k['incrementedNodeVal'] = cname if incN else ck.rng.choice([None, False, ''])
    if wname != 'weight' or not incE:
        k['incrementedEdgeVal'] = wname if incE else ck.rng.choice([None, False, ''])
    mk.mergeGraphs(Gs[t - 1], Gs[s - 1], **k)
    ev.append({'op': 'merge', 't': t, 's': s, 'incN': incN, 'incE': incE, 'g': graphs.observe(Gs[t - 1], cname, wname), 'other': graphs.observe(Gs[s - 1], cname, wname)})


def main(ck):
    r = ck.rng
    inv = ['WF', 'Comm', 'Assoc', 'Unit', 'Covers']
    ck.mc('MC_Merge', invariants=inv, constants={'Weights': '{1}', 'Directed': 'FALSE', 'Missing': 'TRUE', 'NoCount': 'TRUE' if ck.thorough else 'FALSE'})
    ck.mc('MC_Merge', invariants=inv, constants={'Weights': '{1}', 'Directed': 'TRUE' if ck.thorough else 'FALSE', 'Missing': 'FALSE', 'NoCount': 'TRUE'})
    ts = []
    for d in ('FALSE', 'TRUE'):
        ts += ck.simulate('MC_Merge', ck.n(200, 2000), 6, 'T', spec='SpecEmit', constants={'Weights': '{1, 2}', 'Directed': d, 'Missing': 'TRUE', 'NoCount': 'TRUE'})
    for n, t in enumerate(ts):
        gs = [graphs.canon({'directed': x['directed'], 'multi': False, 'nodes': [{'id': 's:n%d' % m['id'], 'c': m['c'], 'at': []} for m in x['nodes']],
                            'edges': [{'a': 's:n%d' % e['a'], 'b': 's:n%d' % e['b'], 'key': '', 'w': e['w'], 'at': []} for e in x['edges']]}) for x in t]
        def run(ev):
            Gs = [graphs.build(g) for g in gs]
            order = r.choice([[(1, 2), (1, 3)], [(2, 3), (1, 2)], [(3, 1), (3, 2), (1, 3)], [(2, 1), (2, 3)]])
            for a, b in order:
                merge(ck, ev, Gs, a, b, 'count', 'weight', r.random() < .9, r.random() < .9)
            for i in (1, 2, 3):
                ev.append({'op': 'unchanged', 'v': i, 'g': graphs.observe(Gs[i - 1])})
        ck.case('T%d' % n, 'model', run, graphs=gs)
    for n in range(ck.n(800, 10000)):
        directed, multi = r.random() < .4, r.random() < .25
        cname, wname = r.choice(['count', 'count', 'n']), r.choice(['weight', 'weight', 'w'])
        gs = [graphs.random_graph(r, directed, multi, missing=.08, cmiss=.08) for _ in range(3)]
        def run(ev):
            Gs = [graphs.build(g, cname, wname) for g in gs]
            for _ in range(r.choice([1, 2, 3])):
                a, b = r.sample([1, 2, 3], 2)
                merge(ck, ev, Gs, a, b, cname, wname, r.random() < .85, r.random() < .85)
            for i in (1, 2, 3):
                ev.append({'op': 'unchanged', 'v': i, 'g': graphs.observe(Gs[i - 1], cname, wname)})
        ck.case('R%d' % n, 'random', run, graphs=gs)
    ck.validate('Trace_Graph')

    # the network of a collection is the merge of the networks of its parts
    def parts(k, C):
        rs = list(C)
        r.shuffle(rs)
        return [mk.RecordCollection(rs[i::k]) for i in range(k)]

    def merged(k, C, f):
        Gs = [f(c) for c in parts(k, C)]
        G = Gs[0]
        for H in Gs[1:]:
            mk.mergeGraphs(G, H)
        return G
    for n in range(ck.n(350, 4000)):
        recs = net.random_records(r, r.choice([2, 3, 5, 8]))
        mode = ['cocite', 'cite', 'coauth'][n % 3]
        o = netcase.fill(r, netcase.random_opts(r))
        o.update(coreOnly=False, core=[], coreAttr=False, addCR=False)
        k = r.choice([2, 2, 3])
        if mode == 'coauth':
            oc = {'nonJ': o['nonJ'], 'short': r.random() < .3, 'weighted': o['weighted'], 'count': o['count'], 'profile': False, 'detail': []}
        def run(ev):
            net.use_journals()
            C = net.collection(recs, r)
            if mode == 'coauth':
                f = lambda c: c.networkCoAuthor(detailedInfo=False, dropNonJournals=oc['nonJ'], useShortNames=oc['short'], weighted=oc['weighted'], count=oc['count'])
                ev.append({'op': 'coauth', 'o': oc, 'g': net.graph(merged(k, C, f), attrs=())})
            else:
                kw = netcase.kwargs(r, o, mode)
                f = lambda c: (c.networkCoCitation if mode == 'cocite' else c.networkCitation)(**kw)
                ev.append({'op': mode, 'o': o, 'g': net.graph(merged(k, C, f))})
        ck.case('P%d' % n, 'parts ' + mode, run, recs=net.abstract(recs), jdict=netcase.jdlist(), repro=o)
    ck.validate('Trace_Network')
    import c17
    for n in range(ck.n(300, 4000)):
        recs = tags.random_records(r, r.choice([2, 3, 5, 8]))
        op = r.choice(['level', 'modes'])
        names = r.sample(['AF', 'DE', 'PY', 'LA', 'SC', 'TI', 'id'], r.choice([1, 2, 3]) if op == 'level' else r.choice([2, 2, 3]))
        o = c17.options(r, names, r.choice(['none', 'lower', 'first']), op)
        o['nodeAttr'] = ''
        k = r.choice([2, 3])
        def run(ev):
            class Parts:
                def __init__(self, C):
                    self.C = C
                def __getattr__(self, name):
                    return lambda *a, **kw: merged(k, self.C, lambda c: getattr(c, name)(*a, **kw))
            tags.network(ck, ev, Parts(tags.collection(recs, r)), o)
        ck.case('Q%d' % n, 'parts tags', run, recs=c17.textkeys(o, [a['vals'] for a in recs]), repro=o)
    ck.validate('Trace_Tags')
