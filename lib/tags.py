"""Records as fields of tagged values, and the tag networks and series as trace events."""
import csv, os
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord
from mbv import enc, num

# field name used -> (WOS tag, kind)
FIELDS = {'AF': ('AF', 'lines'), 'authorsFull': ('AF', 'lines'), 'DE': ('DE', 'semilow'), 'authKeywords': ('DE', 'semilow'), 'LA': ('LA', 'one'), 'language': ('LA', 'one'),
          'PY': ('PY', 'int'), 'year': ('PY', 'int'), 'TI': ('TI', 'one'), 'title': ('TI', 'one'), 'UT': ('UT', 'one'), 'id': ('UT', 'one'),
          'TC': ('TC', 'int'), 'wosTimesCited': ('TC', 'int'), 'PG': ('PG', 'int'), 'SC': ('SC', 'semi'), 'CR': ('CR', 'cites'), 'citations': ('CR', 'cites')}


def arec(uid, **tags):
    """tags: WOS tag -> list of values (text; one for single-valued tags)"""
    raw = {'UT': [uid]}
    vals = {}
    for t, v in tags.items():
        if not v:
            continue
        kind = [k for n, (a, k) in FIELDS.items() if n == t][0]
        raw[t] = ['; '.join(v)] if kind.startswith('semi') else [str(x) for x in v]
    for n, (t, kind) in FIELDS.items():
        v = [uid] if t == 'UT' else tags.get(t) or []
        vals[n] = ['i:%d' % int(x) for x in v] if kind == 'int' else ['s:' + (x.lower() if kind == 'semilow' else x) for x in v]
    return {'raw': raw, 'vals': vals}


def collection(recs, rng=None):
    real = [WOSRecord(dict({'PT': ['J']}, **{k: list(v) for k, v in a['raw'].items()})) for a in recs]
    if rng:
        rng.shuffle(real)
    return mk.RecordCollection(real)


def tagged(v):
    if isinstance(v, mk.Citation):
        return 's:' + str(v)
    if isinstance(v, mk.Record) or hasattr(v, 'id'):
        return 's:' + str(v.id)
    return enc(v)


def graph(G, nodeAttr='', node=None):
    node = node or (lambda n: 's:' + n if isinstance(n, str) else tagged(n))
    nodes, edges = [], []
    for n, d in G.nodes(data=True):
        a = d.get(nodeAttr, '~') if nodeAttr else '~'
        nodes.append({'id': node(n), 'count': num(d['count']) if 'count' in d else -1, 'type': str(d.get('type', '~')),
                      'attr': ([str(x) for x in a] if isinstance(a, list) else [str(a)]),
                      'extra': sorted(k for k in d if k not in ('count', 'type', nodeAttr))})
    if G.is_multigraph():
        it = G.edges(data=True, keys=True)
    else:
        it = ((a, b, '~', d) for a, b, d in G.edges(data=True))
    for a, b, k, d in it:
        edges.append({'a': node(a), 'b': node(b), 'key': k if k == '~' else 's:' + str(k), 'w': num(d['weight']) if 'weight' in d else -1,
                      'extra': sorted(x for x in d if x not in ('weight',))})
    return {'directed': G.is_directed(), 'nodes': nodes, 'edges': edges}


STEM = {'none': None, 'lower': str.lower, 'first': lambda s: s[:1]}


def network(ck, ev, C, o, textedge=None):
    """o: op level/modes, tags, stems, directed, count, weight, recordType, edgeAttr, nodeAttr"""
    r = ck.rng
    tags = o['tags']
    k = dict(nodeCount=o['count'], edgeWeight=o['weight'], edgeAttribute=o['edgeAttr'] or None)
    k = {a: b for a, b in k.items() if not (b in (True, None) and r.random() < .4)}
    st = STEM[o['stems'][0]]
    if o['op'] == 'level':
        if o['nodeAttr']:
            k['nodeAttribute'] = o['nodeAttr']
        if len(tags) == 1 and r.random() < .6:
            G = C.networkOneMode(tags[0], stemmer=st, **k)
        else:
            G = C.networkMultiLevel(*tags, stemmer=st, **k)
    elif o.get('two'):
        G = C.networkTwoMode(tags[0], tags[1], directed=o['directed'], recordType=o['recordType'], stemmerTag1=st, stemmerTag2=STEM[o['stems'][1]], **k)
    else:
        G = C.networkMultiMode(*([list(tags)] if r.random() < .3 else tags), recordType=o['recordType'], stemmer=st, **k)
    ev.append(dict(o, g=graph(G, o['nodeAttr'])))


def readcsv(p):
    with open(p, newline='') as f:
        return list(csv.reader(f))


def ranked(ck, ev, C, tag, limit, greatest, form, tofile):
    path = os.path.join(ck.tmp, 'series.csv')
    k = dict(pandasMode=form == 'pandas', giveCounts=form in ('pandas', 'counts'), giveRanks=form == 'ranks', greatestFirst=greatest)
    if limit:
        k['limitTo'] = limit[1]
    if tofile:
        k['outputFile'] = path
    # what is given by default may be left out
    std = {'pandasMode': True, 'giveCounts': True, 'giveRanks': False, 'greatestFirst': True}
    k = {a: b for a, b in k.items() if not (std.get(a) is b and ck.rng.random() < .5)}
    res = C.rankedSeries(tag, **k)
    e = {'op': 'ranked', 'tag': tag, 'limit': limit[0] if limit else [], 'greatest': greatest, 'form': form, 'count': [], 'rank': [], 'hasFile': tofile, 'file': [], 'header': []}
    if form == 'pandas':
        assert set(res) == {'entry', 'count', 'rank'}
        e.update(entry=[tagged(x) for x in res['entry']], count=[num(x) for x in res['count']], rank=[num(x) for x in res['rank']])
    elif form == 'entries':
        e['entry'] = [tagged(x) for x in res]
    else:
        e['entry'] = [tagged(x[0]) for x in res]
        e['count' if form == 'counts' else 'rank'] = [num(x[1]) for x in res]
    if tofile:
        rows = readcsv(path)
        e['header'] = rows[0]
        e['file'] = [[a, int(b)] for a, b in rows[1:]]
    ev.append(e)


def times(ck, ev, C, tag, limit, greatest, form, tofile):
    path = os.path.join(ck.tmp, 'times.csv')
    k = dict(pandasMode=form == 'pandas', giveYears=form != 'entries', greatestFirst=greatest)
    if limit:
        k['limitTo'] = limit[1]
    tofile = tofile and bool(tag)
    if tofile:
        k['outputFile'] = path
    std = {'pandasMode': True, 'giveYears': True, 'greatestFirst': True}
    k = {a: b for a, b in k.items() if not (std.get(a) is b and ck.rng.random() < .5)}
    res = C.timeSeries(tag or None, **k)
    e = {'op': 'time', 'tag': tag, 'limit': limit[0] if limit else [], 'greatest': greatest, 'form': form, 'count': [], 'year': [], 'hasFile': tofile, 'file': []}
    if form == 'pandas':
        assert set(res) == {'entry', 'count', 'year'}
        e.update(entry=[tagged(x) for x in res['entry']], count=[num(x) for x in res['count']], year=[tagged(x) for x in res['year']])
    elif form == 'entries':
        e['entry'] = [tagged(x) for x in res]
    else:
        e['entry'] = [tagged(x[0]) for x in res]
        e['year'] = [tagged(x[1]) for x in res]
    if tofile:
        rows = readcsv(path)
        assert rows[0] == [tag, 'years']
        e['file'] = rows[1:]
    ev.append(e)


def cooc(ck, ev, C, tag, tags):
    d = C.cooccurrenceCounts(tag, *tags)
    ev.append({'op': 'cooc', 'tag': tag, 'tags': list(tags), 'keys': [tagged(k) for k in d],
               'table': [[tagged(k), tagged(v), num(c)] for k, x in d.items() for v, c in x.items()]})


# ---- model scenarios and random records
F = [[], ['a'], ['a', 'B'], ['B', 'a', 'B']]
G = [[], ['a'], ['c', 'a']]
Y = [[], [1999], [2000]]


def model_records(t):
    return [arec('WOS:%d' % (i + 1), AF=F[x['f'] - 1], DE=G[x['g'] - 1], PY=Y[x['y'] - 1]) for i, x in enumerate(t['recs'])]


NAMES = ['a', 'B', 'b', 'c', 'A', 'Lee, K', 'Zed, Q', '1999', 'x y']


def random_records(r, k):
    recs = []
    pool = r.sample(NAMES, r.choice([2, 4, 9]))
    for i in range(k):
        recs.append(arec('WOS:%03d' % i, AF=[r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))],
                         DE=[r.choice(pool) for _ in range(r.choice([0, 0, 1, 2, 4]))], PY=r.choice([[], [1999], [2000], [2001], [2010]]),
                         LA=r.choice([[], ['English'], ['a'], ['French']]), TI=r.choice([[], ['Title %d' % (i % 3)], ['Of the b %d' % i]]),
                         SC=[r.choice(['Phys', 'Chem', 'a']) for _ in range(r.choice([0, 1, 2]))],
                         TC=r.choice([[], [0], [0], [1], [12], [1999]]), PG=r.choice([[], [0], [7]])))
    return recs
