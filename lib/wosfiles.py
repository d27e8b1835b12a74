"""Abstract Web of Science blocks, their files, and what reading them gives."""
import os, random
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord

HEAD = ['FN Thomson Reuters Web of Science\u2122', 'VR 1.0']
TAGS = ['PT', 'AU', 'AF', 'TI', 'SO', 'LA', 'DT', 'DE', 'ID', 'AB', 'C1', 'RP', 'EM', 'CR', 'NR', 'TC', 'Z9', 'PU', 'SN', 'J9', 'JI', 'PD', 'PY', 'VL',
        'IS', 'BP', 'EP', 'DI', 'PG', 'WC', 'SC', 'GA', 'FU', 'FX', 'PM', 'RI', 'OI', 'SU', 'CT', 'HO', 'BN', 'Q7', 'e1']
WORDS = ['alpha', 'Beta', 'ER', 'EF', 'UT WOS:9', 'VR 1.0', 'gamma,', 'd; e', '"quoted"', 'caf\u00e9', '\u4e2d\u6587', '\U0001f600x', 'tab\there', '(1999)',
         '10.1/x', 'ER ', '\\n', '{}', 'naïve', 'line\u2028sep', 'nel\u0085x', 'vt\x0bx', 'ff\x0cx', 'fs\x1cx', 'PT J', '%s']


def text(r):
    k = r.random()
    if k < .06:
        return ''
    s = ' '.join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3, 6])))
    if k < .12:
        s = ' ' + s
    if k < .18:
        s += ' '
    if k > .97:
        s = s * 40
    return s


def block(r, uid, n=None):
    n = r.randrange(0, 9) if n is None else n
    tags = r.sample(TAGS, n)
    tags.insert(r.choice([0, len(tags), r.randrange(len(tags) + 1)]), 'UT')
    return [{'t': t, 'v': [uid] + [text(r) for _ in range(r.choice([0, 0, 0, 2]))] if t == 'UT' else [text(r) for _ in range(r.choice([1, 1, 1, 2, 4]))]} for t in tags]


def lines(b):
    out = []
    for f in b:
        for i, v in enumerate(f['v']):
            out.append((f['t'] + ' ' if i == 0 else '   ') + v)
    return out + ['ER']


def record(b):
    return WOSRecord({f['t']: list(f['v']) for f in b})


def fields(R):
    return [{'t': t, 'v': list(v)} for t, v in R.items(raw=True)]


def write(path, ls, newline=True, head=HEAD, bom=True):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(('\ufeff' if bom else '') + '\n'.join(head + ls) + ('\n' if newline else ''))


def observe(e, C, path):
    e['bad'] = bool(C.bad)
    e['errs'] = ['F' if k == os.path.realpath(path) else 'other:' + str(k) for k in C.errors]
    e['recs'] = [{'bad': bool(R.bad), 'f': [] if R.bad else fields(R), 'at': R.sourceLine} for R in C]
    e['srcok'] = all(R.sourceFile == os.path.realpath(path) for R in C)


def read(ev, path, **k):
    e = {'op': 'read', 'out': 'ok', 'bad': False, 'errs': [], 'recs': [], 'srcok': True}
    C = None
    try:
        C = mk.RecordCollection(path)
        observe(e, C, path)
    except Exception as x:
        e['out'] = 'exc:' + type(x).__name__
    e.update(k)
    ev.append(e)
    return C
