"""Shared by the network checks: model scenarios and random collections as cases."""
import net
from metaknowledge.constants import *  # noqa
TEXT = ["Own A, 1999, NATURE", "Own B, 2000, BOOK TITLE", "[Anonymous], 1999, J PHYS",
        "Zed Q, 1999, NATURE, V1, P2", "ZED Q, 1999, NATURE, V9", "Anon X, 2001", "Mab, NATURE, P3"]
CITEKINDS = [[], [4], [4, 5], [1, 2, 4], [2, 3, 6], [5, 7, 7, 3], [4, 4, 1], [3, 1]]
AUTHKINDS = [[], ["A"], ["A", "B"], ["B", "C", "A"], ["A", "A"], ["C"], ["C", "B"], ["D", "A", "D"]]
OWN = [dict(au=['Own, A'], py=1999, j9='NATURE'), dict(au=['Own B'], py=2000, ti='BOOK TITLE', j9=None), dict(au=['[Anonymous]'], py=1999, j9='J PHYS')]


def model_records(t, mode):
    recs = []
    for i, k in enumerate(t['kinds']):
        kw = dict(OWN[i])
        kw.setdefault('ti', 'The %d title, wrapped' % i)
        kw.update(so='Some Journal', cites=[TEXT[c - 1] for c in CITEKINDS[k - 1]])
        if mode == 'coauth':
            kw['af'] = AUTHKINDS[k - 1]
        recs.append(net.arec('WOS:%d' % i, **kw))
    return recs


CORES = [['id', 'authorsFull', 'year', 'title', 'journal', 'volume', 'beginningPage'], [], ['TI'], ['PY', 'AF', 'SO'], ['BP', 'AU', 'TI'], ['CR', 'PY'], ['TI', 'CR']]


def fill(r, o, core=True):
    o = dict(o)
    o['nodeInfo'] = r.random() < .8
    o['fullInfo'] = r.random() < .4
    o['weighted'] = r.random() < .75
    o['count'] = r.random() < .75
    o['core'] = r.choice([CORES[0], CORES[0]] + CORES[1:])
    o['coreAttr'] = r.random() < .25
    o['addCR'] = r.random() < .25
    return o


LONGOPT = {'TI': 'title', 'PY': 'year', 'AF': 'authorsFull', 'SO': 'journal', 'BP': 'beginningPage', 'AU': 'authorsShort', 'CR': 'citations'}


def kwargs(r, o, mode):
    k = dict(nodeType=o['type'], dropAnon=o['dropAnon'], dropNonJournals=o['nonJ'], coreOnly=o['coreOnly'], nodeInfo=o['nodeInfo'], fullInfo=o['fullInfo'],
             weighted=o['weighted'], count=o['count'], detailedCoreAttributes=o['coreAttr'], addCR=o['addCR'])
    kw = o['kw']
    k['keyWords'] = None if not kw else kw[0] if len(kw) == 1 and r.random() < .5 else list(kw)
    c = o['core']
    k['detailedCore'] = True if c == CORES[0] else False if not c else [LONGOPT[t] if r.random() < .4 else t for t in c]
    if mode == 'cite':
        k['directed'] = o['directed']
        k['recordToCite'] = o['toCite']
    if r.random() < .2:   # defaults left out
        for name, d in (('fullInfo', False), ('weighted', True), ('count', True), ('addCR', False), ('dropNonJournals', False), ('coreOnly', False), ('nodeInfo', True)):
            if k[name] == d:
                del k[name]
    return k


def run_cite(ck, ev, recs, o, mode):
    jd = net.use_journals()
    C = net.collection(recs, ck.rng)
    k = kwargs(ck.rng, o, mode)
    G = (C.networkCoCitation if mode == 'cocite' else C.networkCitation)(**k)
    g = net.graph(G, attrs=o['core'] if o['coreAttr'] else ())
    ev.append({'op': mode, 'o': o, 'g': g})
    if o['type'] in ('full', 'original', 'author') and (o.get('expand') or ck.rng.random() < .4):
        X = (C.networkCoCitation if mode == 'cocite' else C.networkCitation)(expandedCore=True, **k)
        ev.append({'op': 'expanded', 'o': o, 'g': g, 'x': net.graph(X, attrs=o['core'] if o['coreAttr'] else ())})


def jdlist():
    return [[k, v] for k, v in net.JD.items()]


def random_opts(r):
    return {'type': r.choice(['full', 'full', 'original', 'author', 'journal', 'year']), 'dropAnon': r.random() < .4, 'nonJ': r.random() < .25,
            'coreOnly': r.random() < .2, 'kw': r.choice([[], [], ['zed'], ['1999', 'j P'], ['V12']]), 'directed': r.random() < .7, 'toCite': r.random() < .7}


def cases(ck, mode, inv, nmodel, nrandom, runner=None):
    r = ck.rng
    slots = '{1, 2, 3}' if ck.thorough or mode in ('bib', 'coauth') else '{1, 2}'
    m = {'Slots': slots, 'Mode': '"%s"' % mode}
    ck.mc('MC_Network', invariants=inv, constants=dict(m, Wide='TRUE' if mode == 'cocite' or ck.thorough else 'FALSE'))
    if mode in ('cocite', 'cite'):
        x = {'Skip': 'FALSE', 'Directed': 'TRUE' if mode == 'cite' else 'FALSE', 'Records': 3 if ck.thorough else 2}
        ck.mc('MC_Expand', invariants=['Promised'], constants=x)
        ck.mc_fails('MC_Expand', 'Promised', constants=dict(x, Skip='TRUE'))
    m['Wide'] = 'TRUE'
    ts = ck.mc('MC_Network', spec='SpecEmit', emit='T', workers=1, constants=m)
    ck.notes['model_scenarios'] = len(ts)
    runner = runner or (lambda ev, recs, o: run_cite(ck, ev, recs, o, mode))
    for n, t in enumerate(r.sample(ts, min(nmodel, len(ts)))):
        recs = model_records(t, mode)
        o = fill(r, t['o'])
        ck.case('T%d' % n, 'model', lambda ev: runner(ev, recs, o), recs=net.abstract(recs), jdict=jdlist(), repro=t)
    if mode in ('cocite', 'cite'):      # works of several authors, cited under any of them
        for n in range(nrandom // 6):
            first = [net.arec('WOS:%d' % i, au=r.sample(['Ab, A', 'Cd, C', 'Ef, E', 'Gh, G'], r.choice([1, 2, 2, 3])), py=1990 + r.choice([0, 0, i]), j9='NATURE') for i in range(r.choice([2, 3, 4]))]
            pool = [t for a in first for t in a['authors']] + ['Out O, 1980, J PHYS']
            if len({net.ident(a['own']) for a in first}) < len(first):
                continue
            recs = [net.arec(a['id'], au=a['short'], py=int(a['raw']['PY'][0]), j9='NATURE', cites=r.sample(pool, r.choice([1, 1, 1, 2]))) for a in first]
            o = fill(r, dict(random_opts(r), type=r.choice(['full', 'author', 'original']), dropAnon=False, nonJ=False, kw=[], coreOnly=False))
            o['expand'] = True
            ck.case('E%d' % n, 'expanded', lambda ev: runner(ev, recs, o), recs=net.abstract(recs), jdict=jdlist())
    for n in range(nrandom):
        recs = net.random_records(r, r.choice([1, 2, 3, 5, 8]))
        o = fill(r, random_opts(r))
        ck.case('R%d' % n, 'random', lambda ev: runner(ev, recs, o), recs=net.abstract(recs), jdict=jdlist())
    if mode in ('cocite', 'cite'):
        # kinds of nodes there are not
        for n in range(12):
            recs = net.random_records(r, r.choice([0, 1, 3]))
            t = r.choice(['title', 'Full', '', 'authors', 'full ', None, 3, 'journals', 'YEAR'])

            def go(ev):
                C = net.collection(recs, r)
                try:
                    C.networkCoCitation(nodeType=t) if mode == 'cocite' else C.networkCitation(nodeType=t)
                    out = 'accepted'
                except Exception as x:
                    out = type(x).__name__
                ev.append({'op': 'refused', 'out': out})
            ck.case('K%d' % n, 'refused', go, recs=net.abstract(recs), jdict=jdlist())
