"""Collections that cite each other, and what the diffusion functions say about them."""
import metaknowledge as mk
from metaknowledge import Citation
import recs
from mbv import num

AUTH = ['Lee, K', 'Oh, A', 'Smith, J', 'Poe, EA', 'Li, X', 'Wu, Q', 'Roe, R', 'de Vries, H', 'ZZ, T']
KEYS = ['alpha', 'beta one', 'gamma', 'x-y', 'Delta', 'eps', 'zeta']
CATS = ['Sociology', 'Physics, Applied', 'Ecology']


def pool(r, n, dense=.5):
    """Raw records; every one has its own journal or title, so that a citation is of one record at most."""
    out, own = [], []
    for i in range(n):
        au = r.sample(AUTH, r.choice([0, 1, 1, 2, 3]) if r.random() < .9 else r.choice([6, 8, 9])) if r.random() < .95 else []
        f, texts = [], []
        y = r.choice([1999, 2000, 2001]) if r.random() < .9 else None
        j = 'J %s%d' % (r.choice('XY'), i) if r.random() < .85 else None
        t = 'Title %d' % i
        if au:
            f.append({'t': 'AU', 'v': au})
            if r.random() < .7:
                f.append({'t': 'AF', 'v': [a + ' full' for a in au]})
        if y:
            f.append({'t': 'PY', 'v': [str(y)]})
        if j:
            f.append({'t': 'J9', 'v': [j]})
        if not j or r.random() < .6:
            f.append({'t': 'TI', 'v': [t] if r.random() < .7 else ['Title', '%d' % i]})
        if r.random() < .5:
            f.append({'t': 'VL', 'v': [str(r.randrange(20))]})
        if r.random() < .5:
            f.append({'t': 'BP', 'v': [str(r.randrange(300))]})
        if r.random() < .2:
            f.append({'t': 'DI', 'v': ['10.1/%d' % i]})
        if r.random() < .6:
            f.append({'t': 'DE', 'v': ['; '.join(r.sample(KEYS, r.choice([1, 2, 3, 3, 6])))]})
        if r.random() < .5:
            f.append({'t': 'WC', 'v': ['; '.join(r.sample(CATS, r.choice([1, 2])))]})
        if r.random() < .5:
            f.append({'t': 'SO', 'v': [r.choice(['NATURE', 'PLOS ONE', 'J X'])]})
        if r.random() < .3:
            f.append({'t': 'LA', 'v': [r.choice(['English', 'French'])]})
        f.append({'t': 'UT', 'v': ['WOS:%d' % i]})
        out.append(f)
        own.append([[a.replace(',', '')] + ([str(y)] if y else []) + [j or t] for a in au] or [([str(y)] if y else []) + [j or t]])
    for i, f in enumerate(out):
        cites = []
        for k in range(n):
            if r.random() < dense:
                for _ in range(r.choice([1, 1, 1, 2])):
                    c = list(r.choice(own[k]) if r.random() < .6 else own[k][0])
                    if r.random() < .5:
                        c.append('V%d' % r.randrange(9))
                    if r.random() < .3:
                        c.append('P%d' % r.randrange(99))
                    s = ', '.join(c)
                    cites.append(s.upper() if r.random() < .2 else s)
        for _ in range(r.choice([0, 0, 1, 2])):
            cites.append(r.choice(['Foreign A, 1990, ELSEWHERE', 'Lee K, 1999, J Q9', 'junk', 'Oh A, 2000']))
        r.shuffle(cites)
        if cites and r.random() < .9:
            f.append({'t': 'CR', 'v': cites})
        r.shuffle(f)
    return out


def key(v):
    if isinstance(v, mk.Record):
        return 'r:' + str(v.id)
    if isinstance(v, Citation):
        return 't:' + v.ID()
    if isinstance(v, bool) or not isinstance(v, (int, str)):
        return 'o:' + repr(v)
    return ('i:%d' if isinstance(v, int) else 's:%s') % v


def entries(d, pick=None):
    out = []
    for k, v in d.items():
        if pick is not None:
            v = v[pick]
        if isinstance(v, dict):
            out.append({'key': key(k), 'n': num(v['TargetCount']), 'by': [{'x': key(x), 'n': num(n)} for x, n in v.items() if x != 'TargetCount']})
        else:
            out.append({'key': key(k), 'n': num(v), 'by': []})
    return out


def table(d, tag, extra, local, nauth):
    n = len(d['TargetCount'])
    rows = []
    even = all(len(c) == n for c in d.values())
    own = [c for c in d if c not in ('TargetCount', 'SourceCount', 'numAuthors')]
    for i in range(n if even else 0):
        rows.append({'key': 'r:' + str(d['UT'][i]) if tag == 'raw' else key(d[tag][i]), 'n': num(d['TargetCount'][i]),
                     'extra': key(d[extra][i]) if extra else '', 'loc': num(d['SourceCount'][i]) if local else -1,
                     'nauth': num(d['numAuthors'][i]) if tag == 'raw' and nauth else -1,
                     'cells': [{'t': c, 'v': {'k': 'a', 'v': ''} if d[c][i] is None else recs.val(d[c][i])} for c in own if c != extra] if tag == 'raw' else []})
    return {'rows': rows, 'even': even, 'cols': list(d)}


def snapshot(*cs):
    return [[(R.id, [(t, list(v)) for t, v in R.items(raw=True)]) for R in sorted(C, key=lambda x: x.id)] + [C.name, C.bad, len(C)] for C in cs]
