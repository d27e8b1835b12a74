"""C31: analyses never modify what they analyse."""
import time, types
import metaknowledge as mk
import metaknowledge.progressBar as pb
import recs
import grants
import diffusion as df
import net
import metaknowledge.genders.nameGender as ng
import analyses as an


def main(ck):
    r = ck.rng
    if hasattr(pb, 'time') and hasattr(pb.time, 'sleep'):
        # the display sleeps a tenth of a second between pictures
        pb.time = types.SimpleNamespace(time=time.time, sleep=lambda s: time.sleep(.002))
    ng.mappingDict = {'Lee': 'Male', 'A': 'Female', 'Oh': 'Unknown', 'K': 'Male'}
    net.use_journals()
    k = {'MaxHist': 0, 'MaxSteps': 5 if not ck.thorough else 7}
    inv = ['Right', 'Untouched', 'Repeatable']
    ck.mc('MC_Analyses', invariants=inv, constants=dict(k, Design='"pure"'))
    for d, i in (('hands out what it remembers', 'Repeatable'), ('uses the arguments up', 'Untouched'), ('uses what it reads up', 'Right'), ('display costs a field', 'Repeatable')):
        ck.mc_fails('MC_Analyses', i, constants=dict(k, Design='"%s"' % d))
    hists = ck.simulate('MC_Analyses', ck.n(170, 2500), 60, 'H', invariants=['EmitHist', 'Right', 'Untouched'], constants={'Design': '"pure"', 'MaxHist': 20, 'MaxSteps': 14})
    asked = {}
    names = sorted(an.OPS)
    for n, h in enumerate(hists):
        kind = 'records' if r.random() < .85 else 'grants'
        if kind == 'records':
            if r.random() < .75:
                fs = [('W', f) for f in df.pool(r, r.choice([2, 4, 6, 9]), .4)]
                for i, x in enumerate(fs):
                    if r.random() < .3:
                        x[1].append({'t': 'AB', 'v': [recs.words(r, 8) + r.choice(['', '. (C) 2001 Elsevier'])]})
            else:
                src = r.choice('WMSP')
                fs = [(src if r.random() < .8 else r.choice('WMSP'),) for i in range(r.choice([2, 4, 6]))]
                fs = [(s[0], recs.raw(r, s[0], '%d' % i)) for i, s in enumerate(fs)]
            cut = r.randrange(len(fs) + 1)
            parts = [fs[:max(cut, 1)], fs[cut:]]

            def build():
                made = {id(x[1]): recs.make(*x) for x in fs}
                return [mk.RecordCollection([made[id(x[1])] for x in p], name='C%d' % i) for i, p in enumerate(parts)]
        else:
            gs, seen = [], set()
            for i in range(r.choice([2, 4, 6])):
                g = grants.random_grant(r, i)
                gs.append(g)
            cut = r.randrange(len(gs) + 1)

            def build():
                made = [grants.build(g['kind'], g['f'], i) for i, g in enumerate(gs)]
                return [mk.GrantCollection(made[:max(cut, 1)], name='C0'), mk.GrantCollection(made[cut:], name='C1')]
        ops = {}
        for a in sorted({o['a'] for o in h if o['op'] == 'run'}):
            name = None
            if kind == 'records':
                # each analysis in turn
                name = names[len(asked) % len(names)] if len(asked) < len(names) else None
                asked[len(asked)] = name
            ops[a] = an.choose(r, kind, name)

        def go(ev):
            mk.VERBOSE_MODE = False
            for o in ops.values():
                cs = build()
                ev.append({'op': 'alone', 'key': o['key'], 'got': an.run(o, *cs)[0]})
            ev.append({'op': 'alone', 'key': 'decoded', 'got': an.decoded(*build())})
            cs = build()
            last = {}
            try:
                for x in h:
                    if x['op'] == 'show':
                        mk.VERBOSE_MODE = not mk.VERBOSE_MODE
                        ev.append({'op': 'show', 'on': mk.VERBOSE_MODE})
                    elif x['op'] == 'look':
                        ev.append({'op': 'look', 'got': an.decoded(*cs)})
                    elif x['op'] == 'run':
                        o = ops[x['a']]
                        d, args, last[x['a']] = an.run(o, *cs)
                        ev.append({'op': 'run', 'key': o['key'], 'got': d, 'args': args, 'stored': an.stored(*cs)})
                    elif x['a'] in last:
                        an.change(r, last[x['a']])
                        ev.append({'op': 'change', 'key': ops[x['a']]['key'], 'stored': an.stored(*cs)})
                ev.append({'op': 'look', 'got': an.decoded(*cs)})
            finally:
                mk.VERBOSE_MODE = False
        ck.case('H%d' % n, kind, go, stored=an.stored(*build()), repro={'fields': repr(fs) if kind == 'records' else gs})
    ck.notes['analyses'] = len(an.OPS) + len(an.GRANTS)
    ck.validate('Trace_Analyses')
