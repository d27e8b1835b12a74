"""C18: graph edits and statistics."""
import graphs
from graphs import NONE


def main(ck):
    r = ck.rng
    inv = ['WF', 'Shrinks', 'CombinedEdges', 'CombinedCounts', 'Holds', 'Ends', 'Handshake', 'Stats']
    for d in ('FALSE', 'TRUE'):
        ck.mc('MC_Graph', invariants=inv, constants={'N': 2, 'Weights': '{1, 2, 3}' if ck.thorough else '{1, 2}', 'Steps': 2, 'Directed': d, 'MaxBound': 3 if ck.thorough else 2})
    if ck.thorough:
        ck.mc('MC_Graph', invariants=inv, constants={'N': 3, 'Weights': '{1, 2}', 'Steps': 2, 'Directed': 'FALSE', 'MaxBound': 2})
    ts = []
    for d in ('FALSE', 'TRUE'):
        ts += ck.simulate('MC_Graph', ck.n(250 if d == 'FALSE' else 100, 3000), 16, 'T', spec='SpecEmit', constants={'N': 3, 'Weights': '{1, 2, 3}', 'Steps': 3, 'Directed': d, 'MaxBound': 3})
    for n, t in enumerate(ts):
        g = graphs.canon({'directed': t['directed'], 'multi': False, 'nodes': [{'id': 's:n%d' % x['id'], 'c': x['c'], 'at': []} for x in t['nodes']],
                          'edges': [{'a': 's:n%d' % x['a'], 'b': 's:n%d' % x['b'], 'key': '', 'w': x['w'], 'at': []} for x in t['edges']]})
        def run(ev):
            G = graphs.build(g)
            for h in t['hist']:
                o = {'op': {'number': 'degree', 'loops': 'edges'}.get(h['op'], h['op']), 'lo': h['lo'], 'hi': h['hi'], 'lenient': r.random() < .5,
                     'loops': h['op'] == 'loops', 'useWeight': h['op'] != 'number'}
                graphs.drop(ck, ev, G, 1, o, 'count', 'weight')
            graphs.stats(ck, ev, G, 1, list(graphs.ALL[:5] if g['directed'] else graphs.ALL), r.choice(['tuple', 'lines', 'words']))
        ck.case('T%d' % n, 'model', run, graphs=[g], repro=t)
    for n in range(ck.n(900, 12000)):
        neg = r.random() < .15
        # real weights and counts: the abstract ones times a factor (edges without a weight count as 1, so none then)
        scale = r.choice([.5, .25, .5, 4]) if r.random() < .3 else 1
        g = graphs.random_graph(r, weights=(0, 1, 2, 3, 5) if not neg else (-2, 0, 1, 4), missing=.15 if scale == 1 else 0)
        cname, wname = r.choice(['count', 'count', 'n']), r.choice(['weight', 'weight', 'w'])
        def run(ev):
            G = graphs.build(g, cname, wname, scale)
            for _ in range(r.choice([1, 2, 3, 5])):
                x = r.random()
                if x < .6:
                    lo, hi = (r.choice([NONE, NONE, -1, 0, 1, 2, 3, 4]) for _ in (0, 1))
                    o = {'op': r.choice(['edges', 'edges', 'degree', 'count']), 'lo': lo, 'hi': hi, 'lenient': r.random() < .6, 'loops': r.random() < .25, 'useWeight': r.random() < .6}
                    graphs.drop(ck, ev, G, 1, o, cname, wname, scale)
                elif x < .85:
                    ok = list(graphs.ALL[:5]) + ([] if g['directed'] or g['multi'] else ['transitivity'])
                    asked = ok if r.random() < .5 else [r.choice(ok) for _ in range(r.choice([1, 2, 3]))]
                    graphs.stats(ck, ev, G, 1, asked, r.choice(['tuple', 'lines', 'words']))
                elif not neg and scale == 1:
                    graphs.table(ck, ev, G, 1, r.random() < .7, r.choice(['bi', 'in', 'out']) if g['directed'] else 'bi', wname)
                ev.append({'op': 'unchanged', 'v': 1, 'g': graphs.observe(G, cname, wname, scale)})
        ck.case('R%d' % n, 'random', run, graphs=[g], repro=[cname, wname, scale])
    ck.validate('Trace_Graph')
