"""C28: reading grant files, merging split grants, grant strings and names."""
import copy, os, pickle
import grants
from grants import T, L
import metaknowledge as mk
from metaknowledge.grants.medlineGrant import MedlineGrant
from metaknowledge.grants.scopusGrant import ScopusGrant
from metaknowledge.medline import MedlineRecord
from metaknowledge.scopus import ScopusRecord

TEXT = ['', '', 'x', 'Ann Lee', 'a, b', 'say "hi"', 'Université', 'two\nlines', '12', ';', ' padded ', 'a;b']


def cell(r):
    return r.choice(TEXT) if r.random() < .8 else ''.join(r.choice('ab, ;"\n1é-') for _ in range(r.randint(1, 12)))


def random_files(r):
    files = []
    kinds = r.choice([['NSERC'], ['NSERC', 'NSERC'], ['NSERC', 'NSERC', 'NSERC'], ['Fallback'], ['CIHR'], ['NSERC', 'CIHR', 'Fallback', 'NSERC'], ['Fallback', 'Fallback']])
    extra = r.sample(['Name-Nom', 'Institution-É', 'Title, long', 'Amount', 'Co "x" Name-'], r.choice([1, 2, 3]))
    nserc = (['Cle'] if r.random() < .9 else []) + extra
    r.shuffle(nserc)
    for i, kind in enumerate(kinds):
        if kind == 'NSERC':
            header = r.sample(nserc, len(nserc))
        elif kind == 'CIHR':
            header = ['PI Names'] + extra
        else:
            header = extra + ['n']
        rows = []
        for j in range(r.choice([1, 2, 4, 8])):
            row = [cell(r) for _ in header]
            if 'Cle' in header:
                row[header.index('Cle')] = r.choice(['', 'A', 'A', 'B', 'C1'])
            if row and row[-1] in ('', '12') and r.random() < .3 and len(row) > 2 and 'PI Names' not in header:
                row = row[:-1]          # cut short
            if kind == 'CIHR' and row[0] == '':
                row[1] = 'w%d-%d' % (i, j)      # damaged rows of equal content coincide
            if kind == 'NSERC' and ('Cle' not in header or not (row + [''] * 9)[header.index('Cle')]):
                row[0 if header[0] != 'Cle' else 1] = 'u%d-%d' % (i, j)     # damaged rows are told apart by their content
                row = [x.replace('\n', ' ') for x in row]                     # (the last line of the row)
            if all(x == '' for x in row):
                row[0] = 'v%d' % j
            rows.append(row)
        files.append({'name': grants.NAMES[kind] % i, 'kind': kind, 'header': header, 'rows': rows})
    return files


def element(tag, text='', sub=()):
    return {'tag': tag, 'text': text, 'sub': list(sub)}


def random_award(r):
    t = lambda: r.choice(['', 'x', 'Ann', 'A & B <c>', '2015', 'É', 'one; two', 'a/b'])
    es = [element('AwardID', r.choice(['', '1103037', '77']))] if r.random() < .9 else []
    for tag in ('AwardTitle', 'AwardEffectiveDate', 'AbstractNarration', 'MinAmdLetterDate'):
        if r.random() < .5:
            es.append(element(tag, t()))
    for _ in range(r.choice([0, 1, 2, 3])):
        es.append(element('Investigator', sub=[element(k, t()) for k in r.choice([['FirstName', 'LastName', 'EmailAddress', 'RoleCode'], ['LastName', 'FirstName', 'StartDate'], ['FirstName', 'EmailAddress', 'FirstName', 'LastName'], ['RoleCode']])]))
    for _ in range(r.choice([0, 1, 1, 2])):
        sub = [element('Code', t())]
        if r.random() < .8:
            sub.append(element('Directorate', sub=[element('LongName', t()), element('Abbrev', t())][:r.choice([1, 2])]))
        if r.random() < .8:
            sub.append(element('Division', sub=[element('LongName', t())]))
        es.append(element('Organization', sub=sub))
    for tag in ('ProgramElement', 'Institution', 'ProgramReference'):
        for _ in range(r.choice([0, 1, 2])):
            es.append(element(tag, sub=[element('Code', t()), element('Text', t())]) if r.random() < .8 else element(tag))
    if not [e for e in es if e['tag'] not in ('Organization',)]:
        es.append(element('AwardTitle', 'only'))
    r.shuffle(es)
    return es


KEYS = ['Cle', 'Name', 'x', '', 'Name-2']
VALS = ['', 'v', 'w; v', 'Ann']


def mapping(r, ev, kinds, maps, n):
    G = [grants.build(k, [T(a, b) for a, b in m], i) for i, (k, m) in enumerate(zip(kinds, maps))]
    ids = [(g.id, hash(g)) for g in G]
    for _ in range(n):
        i = r.randrange(len(G))
        e = {'op': r.choice(['put', 'put', 'put', 'del', 'pop', 'popd', 'get', 'getd', 'default', 'update', 'update', 'copy', 'clear']), 'i': i + 1, 'j': 0, 'k': r.choice(KEYS), 'v': r.choice(VALS),
             'text': True, 'got': '', 'out': 'ok'}
        g, k, v = G[i], e['k'], e['v']
        if e['op'] == 'clear' and r.random() < .7:
            e['op'] = 'get'
        try:
            if e['op'] == 'put':
                if r.random() < .15:
                    e['text'] = False
                    g[r.choice([1, None, ('a',), b'x', 2.5])] = v
                else:
                    g[k] = v
            elif e['op'] == 'del':
                del g[k]
            elif e['op'] == 'pop':
                e['got'] = g.pop(k)
            elif e['op'] == 'popd':
                e['got'] = g.pop(k, '!none')
            elif e['op'] == 'get':
                e['got'] = g[k]
            elif e['op'] == 'getd':
                e['got'] = g.get(k, '!none')
            elif e['op'] == 'default':
                e['got'] = g.setdefault(k, v)
            elif e['op'] == 'update':
                js = [j for j in range(len(G)) if type(G[j]) is type(g) and j != i]
                if js:
                    e['j'] = r.choice(js) + 1
                    g.update(G[e['j'] - 1])
                else:
                    e['op'] = 'look'
            elif e['op'] == 'clear':
                g.clear()
            elif e['op'] == 'copy':
                if len(G) < 6:
                    G.append(r.choice([copy.copy, copy.deepcopy, lambda x: x.copy(), lambda x: pickle.loads(pickle.dumps(x))])(g))
                    ids.append(ids[i])
                    assert G[-1] == g
                else:
                    e['op'] = 'look'
        except Exception as x:
            e['out'] = 'exc:' + type(x).__name__
        e['views'] = [[[str(a), b] for a, b in x.items()] for x in G]
        e['keep'] = all(len(x) == len(list(x)) and all(a in x and isinstance(a, str) for a in x) and 'missing' not in x and (x.id, hash(x)) == h and not x.bad for x, h in zip(G, ids))
        ev.append(e)


def main(ck):
    r = ck.rng
    c = {'Rows': 4 if ck.thorough else 3}
    ck.mc('MC_Grants', invariants=['MergeClosed', 'NothingLost', 'Local'], constants=c)
    ts = ck.mc('MC_Grants', spec='SpecEmit', emit='T', workers=1, constants=c)
    ck.mc('MC_GrantText', invariants=['Slashed', 'Commas', 'Fields'], constants={'Len1': 5 if ck.thorough else 4})
    gs = ck.mc('MC_GrantText', spec='SpecEmit', emit='T', workers=1, constants={'Len1': 5 if ck.thorough else 4})
    ck.notes['model_scenarios'] = len(ts) + len(gs)
    for n, t in enumerate(r.sample(ts, min(len(ts), ck.n(500, 6000)))):
        rows = t
        files = []
        for f in (1, 2):
            q = [x for x in rows if x['f'] == f]
            if q:
                cols = r.choice([['Cle', 'Value', 'no'], ['Value', 'no', 'Cle']])
                files.append({'name': 'NSERC_%d.csv' % f, 'kind': 'NSERC', 'header': cols,
                              'rows': [[{'Cle': x['k'], 'Value': x['v'], 'no': '%d' % rows.index(x) if 0 else 'r%d' % i}[k] for k in cols] for i, x in ((rows.index(x) * 7 + f, x) for x in q)]})
        # equal rows are told apart by their number
        k = 0
        for f in files:
            for row in f['rows']:
                k += 1
                row[f['header'].index('no')] = 'r%d' % k
        d = os.path.join(ck.tmp, 'm%d' % n)
        ck.case('T%d' % n, 'merge', lambda ev: grants.tables(ck, ev, files, d), grants=[], repro=files)
    for n in range(ck.n(500, 6000)):
        files = random_files(r)
        d = os.path.join(ck.tmp, 'r%d' % n)
        ck.case('R%d' % n, 'tables', lambda ev: grants.tables(ck, ev, files, d), grants=[], repro=files)
    for n in range(ck.n(300, 4000)):
        es = random_award(r)
        name = 'award%d.xml' % n
        d = os.path.join(ck.tmp, 'x%d' % n)
        ck.case('X%d' % n, 'award', lambda ev: grants.award(ck, ev, es, name, d), grants=[], repro=es)

    def string(ev, op, s, G):
        ev.append({'op': op, 'text': s, 'bad': bool(G.bad), 'f': grants.fields(G)})

    def strings(ev, m):
        for op, sep, cls in (('medline', '/', MedlineGrant), ('scopus', ', ', ScopusGrant)):
            s = sep.join(m)
            string(ev, op, s, cls(s))
        # through a record: the strings of the field in order
        s = '/'.join(m)
        if s.strip() == s and s:
            R = MedlineRecord({'PMID': ['1'], 'GR': [s, 'other/x/y', s]})
            for a, G in zip([s, 'other/x/y', s], R['GR']):
                string(ev, 'medline', a, G)
            assert len(R['GR']) == 3 and len(R['grants']) == 3
        s = ', '.join(m)
        if '; ' not in s and s:
            R = ScopusRecord({'EID': 'e', 'Funding Details': s + '; second, one'})
            assert len(R['Funding Details']) == 2
            string(ev, 'scopus', s, R['Funding Details'][0])
            string(ev, 'scopus', 'second, one', R['Funding Details'][1])
    for n, m in enumerate(gs if ck.thorough else r.sample(gs, min(len(gs), 500))):
        ck.case('G%d' % n, 'string', lambda ev: strings(ev, m), grants=[], repro=m)
    for n in range(ck.n(500, 5000)):
        g = grants.random_grant(r, n)
        ks = [f['k'] for f in g['f']] + ['Missing']
        tags = r.sample(ks, r.choice([0, 0, 1, min(2, len(ks))]))
        def both(ev):
            for level in ('people', 'places'):
                grants.names(ck, ev, g['kind'], g['f'], tags, r.choice([';', ';', ',', ' ', '; ']), level)
        ck.case('N%d' % n, 'names', both, grants=[g], repro=[g, tags])
    ck.validate('Trace_Grants')
    # grants as mappings that change
    c = {'K': '{"a", "b"}', 'V': '{"", "x", "yz"}', 'Depth': 3 if ck.thorough else 2, 'Design': '"right"'}
    ps = ['Frame', 'Kept', 'Replaced']
    ck.mc('MC_Mapping', invariants=['OneValue'], properties=ps, constants=c)
    ck.mc_fails('MC_Mapping', 'Kept', action=True, constants=dict(c, Design='"replace"'))
    ck.mc_fails('MC_Mapping', 'Frame', action=True, constants=dict(c, Design='"shared"'))
    for n in range(ck.n(200, 3000)):
        kinds = [r.choice(['NSERC', 'NSERC', 'CIHR', 'Fallback']) for _ in range(r.choice([1, 2, 3]))]
        maps = []
        for i, k in enumerate(kinds):
            m = [['Cle', 'K%d' % i], ['PI Names', 'P'], ['Title', 't']] + [[a, r.choice(VALS)] for a in r.sample(KEYS[1:], r.choice([0, 1, 2]))]
            maps.append(m)
        ck.case('D%d' % n, 'mapping', lambda ev: mapping(r, ev, kinds, maps, r.choice([3, 8, 15])), kinds=kinds, maps=maps, repro=[kinds, maps])
    ck.validate('Trace_Mapping')
