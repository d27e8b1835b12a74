"""Abstract Medline blocks and files."""
import os
import metaknowledge as mk
from metaknowledge.medline import MedlineRecord
TAGS = ['OWN', 'STAT', 'DCOM', 'LR', 'IS', 'VI', 'IP', 'DP', 'TI', 'PG', 'LID', 'AB', 'CN', 'LA', 'GR', 'PT', 'PL', 'TA', 'JT', 'JID', 'MH', 'OT', 'EDAT', 'MHDA', 'AID',
        'PST', 'SO', 'IR', 'FIR', 'IRAD', 'CRDT', 'X', 'RN', 'SB', 'GN']
WORDS = ['alpha', 'Beta', 'PMID- 9', 'TI  - z', 'gamma.', 'caf\u00e9', '\u00a3', 'a : b', '"q"', '10.1/x [doi]', 'Univ. of X,', '      six', '-', 'AU', '\u00ff', 'tab\there', 'NEL\u0085x']


def text(r, one=False):
    if r.random() < .05:
        return ''
    s = ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 5])))
    if r.random() < .05:
        s = ' ' + s + ' '
    if not one:
        while r.random() < .25:
            s += '\n' + ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 2])))
    return s


def lines_of(r, pid, nauth=None):
    """Lines of a random block, without the empty line that ends it."""
    out = ['PMID- ' + pid]

    def add(t, v):
        for i, x in enumerate(v.split('\n')):
            out.append((t + ' ' * (4 - len(t)) + '- ' if i == 0 else '      ') + x)
    if r.random() < .1:
        for _ in range(r.choice([1, 2])):
            add(r.choice(['AD', 'AUID']), text(r))
    parts = []
    for t in r.sample(TAGS, r.randrange(0, 7)):
        for _ in range(r.choice([1, 1, 2, 3])):
            parts.append([(t, text(r))])
    names = r.sample(['Lee K', 'Oh A', 'Lee', 'O\'Neil-Baker XY', 'M\u00fcller J', 'van der A B', 'Li', 'WHO', 'Lee K J'], nauth if nauth is not None else r.choice([0, 1, 1, 2, 3, 5]))
    auths = []
    for a in names:
        p = []
        if r.random() < .6:
            p.append(('FAU', a + ', full'))
        p.append(('AU', a if r.random() < .97 else a + '\nJr'))
        if r.random() < .2:
            p.append(('FAU', a + ', later'))
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            p.append((r.choice(['AD', 'AD', 'AUID']), text(r)))
        auths.append(p)
    k = r.random()
    if k < .6:
        i = r.randrange(len(parts) + 1)
        parts = parts[:i] + auths + parts[i:]
    else:
        for p in auths:
            parts.insert(r.randrange(len(parts) + 1), p)
        if k > .8:
            # an address or two away from its author
            parts.insert(r.randrange(len(parts) + 1), [('AD', text(r))])
    for p in parts:
        for t, v in p:
            add(t, v)
    return out


def fields(R):
    return [{'t': t, 'v': list(v)} for t, v in R.items(raw=True)]


def write(path, ls, newline=True):
    with open(path, 'w', encoding='latin-1', newline='') as f:
        f.write('\n'.join(ls) + ('\n' if newline and ls else ''))


def read(ev, path, **k):
    e = {'op': 'read', 'out': 'ok', 'bad': False, 'errs': [], 'recs': [], 'srcok': True}
    C = None
    try:
        C = mk.RecordCollection(path)
        rp = os.path.realpath(path)
        e['bad'] = bool(C.bad)
        e['errs'] = ['F' if x == rp else 'other' for x in C.errors]
        e['recs'] = [{'bad': bool(R.bad), 'f': [] if R.bad else fields(R), 'at': R.sourceLine} for R in C]
        e['srcok'] = all(R.sourceFile == rp and isinstance(R, MedlineRecord) for R in C)
    except Exception as x:
        e['out'] = 'exc:' + type(x).__name__
    e.update(k)
    ev.append(e)
    return C
