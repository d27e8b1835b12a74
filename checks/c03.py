"""C03: a record is a consistent mapping whatever was looked up before."""
import copy, pickle
import recs

HOW = {'copy': lambda R: R.copy(), 'shallow': copy.copy, 'deep': copy.deepcopy, 'pickle': lambda R: pickle.loads(pickle.dumps(R))}


def main(ck):
    r = ck.rng
    ck.mc('MC_Record', invariants=['Stable', 'MemoRight', 'Independent'], constants={'Design': '"own memory"', 'MaxHandles': 2 if not ck.thorough else 3, 'MaxHist': 0})
    ck.mc_fails('MC_Record', 'Independent', constants={'Design': '"shared memory"', 'MaxHandles': 2, 'MaxHist': 0})
    hists = ck.simulate('MC_Record', ck.n(250, 3000), 40, 'H', invariants=['EmitHist', 'Stable'], constants={'Design': '"own memory"', 'MaxHandles': 4, 'MaxHist': 18})
    ck.notes['model_histories'] = len(hists)

    def rawval(v):
        return [recs.text(s) for s in ([v] if isinstance(v, str) else v)]

    def do(ev, hs, op, h, key=None):
        R = hs[h - 1]
        e = {'op': op, 'h': h}
        if op in HOW:
            hs.append(HOW[op](R))
            e['op'] = 'copy'
        elif op == 'index':
            e.update(key=key, v=recs.look(R, key))
        elif op == 'get':
            miss = object()
            v = R.get(key, miss)
            e.update(key=key, v={'k': 'a', 'v': ''} if v is miss else recs.val(v))
        elif op == 'sub':
            v = R.subDict([key, 'UT'])[key]
            e.update(key=key, v={'k': 'a', 'v': ''} if v is None else recs.val(v))
        elif op == 'has':
            e.update(key=key, has=key in R)
        elif op == 'raw':
            e.update(key=key, v=rawval(R.get(key, [], raw=True)))
        elif op == 'iter':
            e.update(tags=[recs.text(t) for t in R], n=len(R), ks=[recs.text(t) for t in R.keys()])
        elif op == 'items':
            e.update(tags=[recs.text(t) for t, v in R.items()], vs=[recs.val(v) for t, v in R.items()],
                     rtags=[recs.text(t) for t, v in R.items(raw=True)], rvs=[rawval(v) for t, v in R.items(raw=True)])
        elif op == 'values':
            e.update(vs=[recs.val(v) for v in R.values()], rvs=[rawval(v) for v in R.values(raw=True)])
        elif op == 'change':
            # the value itself, when it is not the stored one, which shallow copies share
            v = R.get(key)
            if not isinstance(v, (list, dict)) or any(v is x for x in R.values(raw=True)):
                return
            v.clear() if isinstance(v, dict) or r.random() < .5 else v.append('spoiled')
        elif op == 'same':
            g = r.randrange(len(hs)) + 1
            S = hs[g - 1]
            e.update(g=g, eq=R == S, ne=R != S, hash=hash(R) == hash(S))
        ev.append(e)

    def keys_of(src, f):
        alt = recs.names(src)
        named = [x['t'] for x in f if x['t'] in alt]
        stored = [x['t'] for x in f]
        tag = r.choice(named or stored)
        gone = [t for t in recs.ALL[src] if t not in stored]
        agone = r.choice([t for t in gone if t in alt] or gone)
        return {'tag': tag, 'name': alt.get(tag, tag), 'common': r.choice(recs.SPECIALS), 'single': r.choice(stored), 'absent tag': agone, 'absent name': alt.get(agone, 'nothing'),
                'odd': r.choice(recs.ODD)}

    def base(n):
        out, fs = [], []
        for i in range(n):
            src = r.choice('WWMMSP') if i == 0 or r.random() < .4 else out[-1]['src']
            f = recs.raw(r, src, '%d' % r.choice([1, 1, 2]))
            out.append({'src': src, 'f': recs.ascii_fields(f), 'id': [x['v'][0] for x in f if x['t'] == recs.ID[src]][0], 'good': True})
            fs.append((src, f))
        return out, fs
    for n, h in enumerate(hists):
        b, fs = base(1)
        ks = keys_of(*fs[0])

        def go(ev):
            hs = [recs.make(*x) for x in fs]
            for o in h:
                do(ev, hs, o['op'], o['h'], ks[o['k']])
        ck.case('H%d' % n, 'model history', go, base=b, repro={'keys': ks})
    for n in range(ck.n(350, 5000)):
        b, fs = base(r.choice([1, 2, 3]))

        def go(ev):
            hs = [recs.make(*x) for x in fs]
            kk = [(list(k) + [r.choice(recs.SPECIALS + recs.ODD) for _ in range(4)]) for k in [[k for _ in range(3) for k in keys_of(*x).values()] for x in fs]]
            of = list(range(len(hs)))
            for _ in range(r.choice([8, 20, 40])):
                h = r.randrange(len(hs)) + 1
                op = r.choice(['index', 'index', 'get', 'has', 'has', 'sub', 'raw', 'iter', 'items', 'values', 'change', 'same', 'same', 'copy', 'shallow', 'deep', 'pickle'])
                if op in HOW:
                    if len(hs) > 6:
                        continue
                    of.append(of[h - 1])
                do(ev, hs, op, h, r.choice(kk[of[h - 1]]))
        ck.case('R%d' % n, 'random history', go, base=b)
    ck.validate('Trace_Record')
