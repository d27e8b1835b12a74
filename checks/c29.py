"""C29: co-investigator and co-institution networks."""
import grants


def main(ck):
    r = ck.rng
    c = {'Slots': '{1, 2}' if not ck.thorough else '{1, 2, 3}'}
    ck.mc('MC_Tags', invariants=['CountClosed', 'LevelClosed'], constants=c)
    ts = ck.mc('MC_Tags', spec='SpecEmit', emit='T', workers=1, constants=c)
    ck.notes['model_scenarios'] = len(ts)
    F = [[], ['a'], ['a', 'B'], ['B', 'a', 'B']]
    G = [[], ['a'], ['c', 'a']]
    for n, t in enumerate(r.sample(ts, min(len(ts), ck.n(700, 8000)))):
        gs = []
        for i, x in enumerate(t['recs']):
            kind = r.choice(['NSERC', 'NSF', 'CIHR', 'Fallback'])
            f, g = F[x['f'] - 1], G[x['g'] - 1]
            fs = [grants.T({'NSERC': 'Cle', 'NSF': 'AwardID', 'CIHR': 'PI Names', 'Fallback': 'n'}[kind], 'u%d' % i)]
            if f:
                fs.append(grants.L('Investigator', [v + '; x' for v in f]) if kind == 'NSF' else grants.T('Co-Name-Nom', ';'.join(f)))
            if g:
                fs.append(grants.T('OtherInstitution', '; '.join(g)))
            gs.append(grants.agrant(kind, fs))
        tags = r.choice([[], ['OtherInstitution'], ['Co-Name-Nom'], ['OtherInstitution', 'Co-Name-Nom']])
        level = r.choice(['people', 'places'])
        ck.case('T%d' % n, 'model', lambda ev: grants.network(ck, ev, gs, tags, ';', level, r.random() < .75, r.random() < .75), grants=gs, repro=tags)
    for n in range(ck.n(700, 10000)):
        pool = r.sample(grants.PEOPLE, r.choice([2, 4, 7]))
        gs = [grants.random_grant(r, i, pool) for i in range(r.choice([0, 1, 2, 3, 6]))]
        ks = sorted({f['k'] for g in gs for f in g['f']} | {'Missing'})
        tags = r.sample(ks, min(len(ks), r.choice([0, 0, 1, 2])))
        level = r.choice(['people', 'places'])
        sep = r.choice([';', ';', ',', '; '])
        ck.case('R%d' % n, 'random', lambda ev: grants.network(ck, ev, gs, tags, sep, level, r.random() < .75, r.random() < .75), grants=gs, repro=[tags, sep])
    ck.validate('Trace_Grants')
