"""C21: diffusion counts."""
import metaknowledge as mk
import recs
import diffusion as df
MAPS = {'none': None, 'const': lambda x: 'all', 'str': str}


def main(ck):
    r = ck.rng
    ck.mc('MC_Diffusion', invariants=['Additive', 'OrderFree', 'Bounded', 'Zero', 'Parts', 'WeightsSum', 'LabelsSplit'],
          constants={'MaxTargets': 2, 'MaxCites': 1 if not ck.thorough else 2})
    for n in range(ck.n(260, 4000)):
        p = df.pool(r, r.choice([1, 2, 3, 4, 6]), r.choice([.3, .6, .9]))
        ix = list(range(len(p)))
        s = r.sample(ix, r.randrange(0 if r.random() < .1 else 1, len(ix) + 1))
        t = r.sample(ix, r.randrange(0, len(ix) + 1)) if r.random() < .8 else s
        same = r.random() < .5

        def go(ev):
            real = [recs.make('W', f) for f in p]
            copies = real if same else [recs.make('W', f) for f in p]
            S = mk.RecordCollection([real[i] for i in s], name='S')
            T = S if t is s and same else mk.RecordCollection([copies[i] for i in t], name='T')
            before = df.snapshot(S, T)
            for _ in range(3):
                tag = r.choice(['raw', 'raw', 'AF', 'AU', 'DE', 'WC', 'UT', 'TI', 'SO', 'PY', 'year', 'CR', 'citations', 'selfCitation', 'authorsFull', 'id', 'SC'])
                extra = r.choice(['', '', 'PY', 'year', 'AF', 'DE', 'WC', 'SO', 'UT', 'LA', 'SC'])
                if extra == tag:
                    extra = ''
                how = r.choice(['none', 'none', 'const', 'str']) if extra else 'none'
                allA, local, nauth = r.random() < .6, r.random() < .4, r.random() < .7
                k = dict(sourceType=tag, compareCounts=local, useAllAuthors=allA)
                if extra:
                    k['extraValue'] = extra
                    if how != 'none':
                        k['extraMapping'] = MAPS[how]
                e = {'tag': tag, 'extra': extra, 'map': how, 'all': allA, 'local': local, 'nauth': nauth}
                what = r.choice(['count', 'table'])
                # a table without the identifiers could not be told apart
                if what == 'table' and not (tag == 'raw' and (extra == 'UT')) and len(s):
                    d = mk.diffusionCount(S, T, pandasFriendly=True, numAuthors=nauth, **k)
                    e.update(op='table', **df.table(d, tag, extra, local, nauth))
                else:
                    d = mk.diffusionCount(S, T, **k)
                    e.update(op='count', got=df.entries(d, 0 if local else None), loc=df.entries(d, 1) if local else [])
                ev.append(e)
            # counts on the nodes of a network of the sources
            tag = r.choice(['citations', 'citations', 'AF', 'DE', 'PY', 'WC', 'SO'])
            G = S.networkCoCitation() if tag == 'citations' else S.networkOneMode(tag)
            extra = r.choice(['', '', 'PY', 'AF', 'WC', 'year'])
            keys = r.choice([[], [1999, 2000] if extra in ('PY', 'year') else ['Ecology', 'Lee, K full']]) if extra else []
            old = {x: dict(a) for x, a in G.nodes(data=True)}
            oldE = sorted(map(repr, G.edges(data=True)))
            label = r.choice(['DiffusionCount', 'q'])
            given = r.random() < .3
            k = dict(nodeType=tag)
            if given:
                k['countsDict'] = mk.diffusionCount(S, T, sourceType=tag, extraValue=extra or None)
                saved = df.entries(k['countsDict'])
            if extra:
                k['extraType'] = extra
            if keys:
                k['extraKeys'] = list(keys)
            if label != 'DiffusionCount':
                k['diffusionLabel'] = label
            mk.diffusionAddCountsFromSource(G, S, T, **k)
            nodes, kept = [], set(old) == set(G.nodes()) and oldE == sorted(map(repr, G.edges(data=True)))
            for x, a in G.nodes(data=True):
                more = {y: v for y, v in a.items() if y not in old.get(x, {})}
                kept = kept and all(y in a and a[y] == v for y, v in old.get(x, {}).items())
                nodes.append({'node': df.key(x), 'n': df.num(more.pop(label, None)), 'by': [{'x': df.key(y), 'n': df.num(v)} for y, v in more.items()]})
            if given:
                kept = kept and saved == df.entries(k['countsDict'])
            ev.append({'op': 'add', 'tag': tag, 'extra': extra, 'map': 'none', 'nodes': nodes, 'keys': [df.key(x) for x in keys], 'kept': kept})
            ev.append({'op': 'after', 'same': before == df.snapshot(S, T)})
        ck.case('D%d' % n, 'diffusion', go, pool=[{'src': 'W', 'f': f} for f in p], sources=[i + 1 for i in s], targets=[i + 1 for i in t])
    # what is refused
    C, R = mk.RecordCollection([mk.WOS.WOSRecord({'PT': ['J'], 'UT': ['WOS:1'], 'AU': ['Lee, K'], 'PY': ['1999']})]), mk.RecordCollection([])
    for n, f in enumerate((lambda: mk.diffusionCount(C, [1]), lambda: mk.diffusionCount(list(C), C), lambda: mk.diffusionCount(C, C, sourceType=3), lambda: mk.diffusionCount(R, R, extraValue=7), lambda: mk.diffusionCount(C, None), lambda: mk.diffusionCount(None, C), lambda: mk.diffusionCount(C, list(R)), lambda: mk.diffusionCount(C, C, extraValue=['PY']))):
        def refused(ev):
            try:
                f()
                out = 'ok'
            except Exception as x:
                out = 'exc:' + type(x).__name__
            ev.append({'op': 'refused', 'out': out})
        ck.case('X%d' % n, 'refused', refused, pool=[], sources=[], targets=[])
    ck.validate('Trace_Diffusion')
