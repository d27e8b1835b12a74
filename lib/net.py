"""Record collections for the network checks, and graphs as trace events."""
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord
import metaknowledge.citation as mkcit
from mbv import num

LONG = {'AF': 'authorsFull', 'PY': 'year', 'TI': 'title', 'SO': 'journal', 'VL': 'volume', 'BP': 'beginningPage', 'UT': 'id',
        'AU': 'authorsShort', 'J9': 'j9', 'CR': 'citations'}
JD = {'NATURE': 'Nature', 'J PHYS': 'Journal of Physics', 'BOOK TITLE': '', 'SCIENTOMETRICS': 'Scientometrics'}


def use_journals(d=JD):
    mkcit.abbrevDict = {k: [v] for k, v in d.items()}
    return [[k, v] for k, v in d.items()]


def arec(uid, au=(), af=None, py=None, j9=None, ti=None, so=None, vl=None, bp=None, cites=(), **more):
    """abstract record: stored tags plus what they mean (text only)"""
    raw = {}
    if au:
        raw['AU'] = list(au)
    if af if af is not None else au:
        raw['AF'] = list(af if af is not None else au)
    for t, v in (('PY', py), ('J9', j9), ('TI', ti), ('SO', so), ('VL', vl), ('BP', bp)):
        if v is not None:
            raw[t] = [str(v)]
    if cites:
        raw['CR'] = list(cites)
    raw.update(more)
    p = []
    if au:
        p.append(au[0].replace(',', ''))
    if py is not None:
        p.append(str(py))
    if j9 is not None:
        p.append(j9)
    elif ti is not None:
        p.append(ti)
    if vl is not None:
        p.append('V' + str(vl))
    if bp is not None:
        p.append('P' + str(bp))
    vals = {}
    for s, l in LONG.items():
        vals[s] = vals[l] = raw.get(s, [])
    vals['UT'] = vals['id'] = [uid]
    vals['SO'] = vals['journal'] = [x.upper() for x in raw.get('SO', [])]   # names of journals are upper case
    rest = p[1:] if au else p
    return {'id': uid, 'raw': raw, 'own': ', '.join(p), 'authors': [', '.join([a.replace(',', '')] + rest) for a in au], 'cites': list(cites), 'full': raw.get('AF', []), 'short': raw.get('AU', []), 'vals': vals}


def build(a):
    d = {'PT': ['J'], 'UT': [a['id']]}
    d.update({k: list(v) for k, v in a['raw'].items()})
    return WOSRecord(d)


def collection(recs, rng=None):
    real = [build(a) for a in recs]
    if rng:
        rng.shuffle(real)
    return mk.RecordCollection(real)


def abstract(recs):
    return [{k: v for k, v in a.items() if k != 'raw'} for a in recs]


def nid(n):
    if isinstance(n, bool) or not isinstance(n, int):
        return 's:' + n if isinstance(n, str) else 'o:%s:%s' % (type(n).__name__, n)
    return 'i:%d' % n


def text(v):
    return '~' if v is ABSENT else v if isinstance(v, str) else str(v)


ABSENT = object()


def graph(G, attrs=(), ignore=()):
    """nodes and edges of a networkx graph as trace fields"""
    nodes = []
    known = {'count', 'info', 'MK-ID', 'inCore', 'citations', 'fullCite', 'citeProfileCites', 'citeProfileCounts'} | set(attrs) | set(ignore)
    for n, d in G.nodes(data=True):
        pc, pn = d.get('citeProfileCites', ABSENT), d.get('citeProfileCounts', ABSENT)
        nodes.append({'id': nid(n), 'count': num(d['count']) if 'count' in d else -1, 'info': text(d.get('info', ABSENT)),
                      'mkid': text(d.get('MK-ID', ABSENT)), 'incore': text(d.get('inCore', ABSENT)), 'cites': text(d.get('citations', ABSENT)),
                      'full': text(d.get('fullCite', ABSENT)), 'attrs': [str(d[a]) for a in attrs if a in d],
                      'pcites': ['~'] if pc is ABSENT else pc.split('|') if pc or pn else [],
                      'pcounts': [] if pn is ABSENT else [int(x) for x in pn.split('|')] if pn else [],
                      'extra': sorted(k for k in d if k not in known)})
    edges = []
    for a, b, d in G.edges(data=True):
        edges.append({'a': nid(a), 'b': nid(b), 'w': num(d['weight']) if 'weight' in d else -1,
                      'yd': '~' if 'yearDiff' not in d else 'n:' if d['yearDiff'] is None else 'i:%s' % d['yearDiff'],
                      'extra': sorted(k for k in d if k not in ('weight', 'yearDiff'))})
    return {'directed': G.is_directed(), 'nodes': nodes, 'edges': edges}


# ---- random collections whose records cite one another and outside works
AUTH = ['Own A', 'Lee, K', 'Zed, Q', 'Mab, X Y', 'Oh-Y, A', 'Vos, L', 'Tum, P']
OUT_A = ['Zed Q', 'ZED Q', 'Mab', '[Anonymous]', '*WHO', 'Kim J.', 'Lee K']
OUT_J = ['NATURE', 'J PHYS', 'BOOK TITLE', 'SCIENTOMETRICS', 'UNHEARD J', 'nature']


def random_cite(r):
    p = [r.choice(OUT_A), str(r.choice([1999, 2000, 2001, 1875, 2010])), r.choice(OUT_J)]
    if r.random() < .2:
        del p[r.randrange(3)]
    return ', '.join(p + r.choice([[], [], ['V1'], ['V12', 'P3'], ['P34'], ['V2', 'P4', 'ARTN 7'], ['V1', 'DOI 10.1/V1'], ['UNPUB']]))


def random_records(r, k, dupauth=True, distinct=True):
    recs, owns = [], set()
    for i in range(k):
        au = [r.choice(AUTH) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        if not dupauth:
            au = list(dict.fromkeys(au))
        af = None if r.random() < .6 else [a + 'full' if r.random() < .5 else a for a in au][:r.choice([0, 9, 9])]
        kw = dict(au=au, af=af, py=r.choice([None, 1999, 2000, 2001, 2010, 2010]), j9=r.choice([None, 'NATURE', 'J PHYS', 'BOOK TITLE', 'UNHEARD J']),
                  ti=r.choice(['Title %d of it' % i, 'A study, in %d parts' % i, 'T%d' % i, None]), so=r.choice([None, 'Nature', 'Journal, of Physics']),
                  vl=r.choice([None, '3', '12']), bp=r.choice([None, '5', 'E17']))
        a = arec('WOS:%04d' % i, **kw)
        if i == 1 and r.random() < .1:
            kw.update(au=[], af=None, py=None, j9=None, ti=None, vl=None, bp=None)
            a = arec('WOS:%04d' % i, **kw)
        if distinct and ident(a['own']) in owns:
            kw['au'] = ['Solo%s, Z' % 'abcdefghijklmnopqrstuvwxyz'[i]]
            kw['af'] = None
            a = arec('WOS:%04d' % i, **kw)
            if ident(a['own']) in owns:
                continue
        owns.add(ident(a['own']))
        a['kw'] = kw
        recs.append(a)
    res = []
    pool = [random_cite(r) for _ in range(k * 2 + 2)]
    for a in recs:
        cites = []
        for _ in range(r.choice([0, 0, 1, 2, 3, 5, 8])):
            x = r.random()
            if x < .35:
                b = r.choice(recs)
                c = b['own'] if r.random() < .75 or not b['authors'] else r.choice(b['authors'])
                if r.random() < .3:
                    c = c.lower()
            elif x < .85:
                c = r.choice(pool)
            else:
                c = random_cite(r)
            cites.append(c)
        kw = a['kw']
        res.append(arec(a['id'], cites=cites, **kw))
    return res


def ident(text):
    return mk.Citation(text).ID()
