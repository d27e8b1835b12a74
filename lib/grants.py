"""Grants: abstract tables, awards and names, and what the real code made of them."""
import csv, io, os
import metaknowledge as mk
from metaknowledge.grants.nsercGrant import NSERCGrant
from metaknowledge.grants.nsfGrant import NSFGrant
from metaknowledge.grants.cihrGrant import CIHRGrant
from metaknowledge.grants.baseGrant import FallbackGrant
from mbv import enc, num


def fields(G):
    res = []
    for k in G:
        v = G[k]
        if v is None:
            res.append({'k': str(k), 'kind': 'none', 'v': []})
        elif isinstance(v, list):
            res.append({'k': str(k), 'kind': 'list', 'v': [str(x) for x in v]})
        else:
            assert isinstance(v, str), v
            res.append({'k': str(k), 'kind': 'text', 'v': [v]})
    return res


def seen(G):
    return {'cls': type(G).__name__, 'id': str(G.id), 'bad': bool(G.bad), 'err': 'n:' if G.error is None else type(G.error).__name__, 'f': fields(G)}


def collection(C):
    return {'got': [seen(G) for G in C], 'bad': bool(C.bad), 'nerr': len(C.errors), 'types': sorted(C._collectedTypes)}


# ---- files
def table_text(r, header, rows, kind):
    buf = io.StringIO()
    term = r.choice(['\n', '\n', '\r\n'])
    w = csv.writer(buf, lineterminator=term, quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
    if kind == 'CIHR':
        buf.write('Search Criteria: x,,,,,,,,,' + term + 'All,,,,,,,,,' + term + ',,,,,,,,,' + term)
    w.writerow(header)
    for row in rows:
        w.writerow(row)
        if r.random() < .05:
            buf.write(term)      # a blank line is no row
    return buf.getvalue()


NAMES = {'NSERC': 'NSERC_%s.csv', 'CIHR': 'cihr_%s.csv', 'Fallback': 'other_%s.csv'}


def write(d, r, files):
    for f in files:
        with open(os.path.join(d, f['name']), 'w', encoding='latin-1', newline='') as h:
            h.write(table_text(r, f['header'], f['rows'], f['kind']))


def tables(ck, ev, files, d):
    """files: [{name, kind, header, rows}]: read the file, or the directory they are in"""
    os.makedirs(d)
    write(d, ck.rng, files)
    if len(files) == 1 and ck.rng.random() < .6:
        C = mk.GrantCollection(os.path.join(d, files[0]['name']), extension=ck.rng.choice(['', '.csv']))
    else:
        C = mk.GrantCollection(d, extension=ck.rng.choice(['', '.csv']))
    ev.append(dict({'op': 'tables', 'files': files}, **collection(C)))


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def xml(e, ind, pretty):
    pad = ('\n' + '  ' * ind) if pretty else ''
    if not e['sub']:
        return pad + ('<%s>%s</%s>' % (e['tag'], esc(e['text']), e['tag']) if e['text'] else '<%s/>' % e['tag'])
    return pad + '<%s>' % e['tag'] + ''.join(xml(s, ind + 1, pretty) for s in e['sub']) + pad + '</%s>' % e['tag']


def award(ck, ev, elements, name, d):
    os.makedirs(d)
    p = os.path.join(d, name)
    pretty = ck.rng.random() < .5
    with open(p, 'w', encoding='utf-8') as h:
        h.write('<?xml version="1.0" encoding="UTF-8"?>\n<rootTag><Award>%s</Award></rootTag>' % ''.join(xml(e, 1, pretty) for e in elements))
    C = mk.GrantCollection(p if ck.rng.random() < .5 else d, extension=ck.rng.choice(['', 'xml']))
    ev.append(dict({'op': 'award', 'award': elements, 'file': name}, **collection(C)))


# ---- grants as sequences of fields
CLS = {'NSERC': NSERCGrant, 'CIHR': CIHRGrant, 'NSF': NSFGrant, 'Fallback': FallbackGrant}


def build(kind, fs, i):
    d = {f['k']: (None if f['kind'] == 'none' else list(f['v']) if f['kind'] == 'list' else f['v'][0]) for f in fs}
    if kind == 'NSF':
        return NSFGrant(d, 'file%d.xml' % i)
    return CLS[kind]('line %d' % i, d, 'file.csv', i)


def agrant(kind, fs):
    return {'kind': kind, 'f': fs}


def T(k, v):
    return {'k': k, 'kind': 'text', 'v': [v]}


def L(k, v):
    return {'k': k, 'kind': 'list', 'v': list(v)}


def request(r, tags):
    """the ways a caller may ask for tags"""
    if not tags:
        return r.choice([None, []])
    return tags[0] if len(tags) == 1 and r.random() < .5 else list(tags)


def names(ck, ev, kind, fs, tags, sep, level):
    G = build(kind, fs, 1)
    f = G.getInvestigators if level == 'people' else G.getInstitutions
    k = {} if sep == ';' and ck.rng.random() < .5 else {'seperator': sep}
    ev.append({'op': 'names', 'level': level, 'tags': list(tags), 'sep': sep, 'got': [str(x) for x in f(request(ck.rng, tags), **k)]})


def graph(G):
    nodes = [{'id': str(n), 'count': num(d['count']) if 'count' in d else -1, 'type': str(d.get('field', '~')),
              'extra': sorted(k for k in d if k not in ('count', 'field'))} for n, d in G.nodes(data=True)]
    edges = [{'a': str(a), 'b': str(b), 'w': num(d['weight']) if 'weight' in d else -1, 'extra': sorted(k for k in d if k != 'weight')}
             for a, b, d in G.edges(data=True)]
    return {'directed': G.is_directed(), 'nodes': nodes, 'edges': edges}


def network(ck, ev, gs, tags, sep, level, count, weight):
    real = [build(g['kind'], g['f'], i) for i, g in enumerate(gs)]
    ck.rng.shuffle(real)
    C = mk.GrantCollection(real)
    assert len(C) == len(gs), 'grants coincide'
    f = C.networkCoInvestigator if level == 'people' else C.networkCoInvestigatorInstitution
    k = {'targetTags': request(ck.rng, tags), 'tagSeperator': sep, 'count': count, 'weighted': weight}
    k = {a: b for a, b in k.items() if not (b in (None, ';', True) and ck.rng.random() < .4)}
    ev.append({'op': 'network', 'level': level, 'tags': list(tags), 'sep': sep, 'count': count, 'weight': weight, 'g': graph(f(**k))})


PEOPLE = ['Ann Lee', 'Bo', 'C. Ø', 'Ann lee', ' D ', 'Bo, Q', '']


def random_grant(r, i, pool=PEOPLE, kinds=('NSERC', 'NSERC', 'NSF', 'NSF', 'CIHR', 'Fallback')):
    kind = r.choice(kinds)
    def text(k, sep=';'):
        return T(k, sep.join(r.choice(pool) for _ in range(r.choice([1, 1, 2, 3]))))
    fs = []
    if kind == 'NSERC':
        fs = [T('Cle', 'k%d' % i)]
        for k in ('Name-Nom', 'Co-Researcher Name-Nom', 'Institution-Établissement', 'PartnerInstitution', 'Amount', 'Project Lead Name-Projet'):
            if r.random() < .5:
                fs.append(text(k, r.choice([';', '; ', ','])))
    elif kind == 'NSF':
        fs = [T('AwardID', 'a%d' % i)]
        if r.random() < .8:
            fs.append(L('Investigator', [r.choice(pool) + r.choice(['', '; x@y.z', '; PI, x']) for _ in range(r.choice([1, 2, 3]))]))
        if r.random() < .7:
            fs.append(L('Institution', [r.choice(pool) + r.choice(['', '; City; 12']) for _ in range(r.choice([1, 1, 2]))]))
        if r.random() < .4:
            fs.append(r.choice([T('Amount', r.choice(pool) or '3'), {'k': 'Amount', 'kind': 'none', 'v': []}]))
    else:
        fs = [text('PI Names', r.choice([';', '; '])) if r.random() < .8 else T('PI Names', 'z')]
        for k in ('Amount', 'Name-x', 'Institution'):
            if r.random() < .4:
                fs.append(text(k))
        if kind == 'CIHR' and fs[0]['v'][0] == '':
            fs[0]['v'] = ['Ann Lee']
    return agrant(kind, fs)
