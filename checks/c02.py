"""C02: selecting, splitting and filtering collections."""
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord
from metaknowledge.scopus import ScopusRecord
import citing
import wos
NOYEAR = -100000
T1 = "Smith J, 1999, NATURE, V1, P2, DOI 10.1/x"
T2 = "SMITH J, 1999, NATURE, V7"
T3 = "[Anonymous], 2000, J APPL PHYS, V12, P34, ARTN 9"
T4 = "lee k, nature"
KINDS = [None, (1999, 'J', False, [T1]), (2000, 'J', False, [T3, T2]), (2001, 'B', False, []), (NOYEAR, 'J', False, [T4]),
         (2000, '', False, [T3, T4, T1]), (1999, 'B', True, [T2])]


def build(a):
    """abstract record -> real one"""
    if a['src'] == 'S':
        d = {'EID': a['id'], 'Title': 'title of ' + a['id'], 'Authors': 'Own A.', 'Year': str(a['year'])}
        if a['cites']:
            d['References'] = '; '.join(c['text'] if c['k'] == 'B' else citing.stext(c['parts']) for c in a['cites'])
        return ScopusRecord(d)
    d = {}
    if a['pt']:
        d['PT'] = [a['pt']]
    if not a['bad']:
        d['UT'] = [a['id']]
    d['TI'] = ['title of ' + a['id']]
    d['AU'] = [a['au']]
    if a['year'] != NOYEAR:
        d['PY'] = [str(a['year'])]
    d['J9'] = [a['j9']]
    if a['cites']:
        d['CR'] = list(a['cites'])
    return WOSRecord(d)


def arec(i, year, pt, bad, cites, j9='J OWN', au=None):
    au = au or 'Own%s, A' % i
    ay = [au.replace(',', '')] + ([str(year)] if year != NOYEAR else []) + [j9]
    return {'src': 'W', 'id': 'R%s' % i, 'year': year, 'pt': pt, 'bad': bad, 'cites': cites, 'j9': j9, 'au': au, 'own': ', '.join(ay)}


def perform(ck, ev, recs, ops):
    real = [build(a) for a in recs]
    label = {}
    for R, a in zip(real, recs):
        label[id(R)] = a['id']
    ck.rng.shuffle(real)
    C = mk.RecordCollection(real)

    def lab(R):
        return label.get(id(R), 'title ' + str(R.get('title')) + ' foreign')

    def ids(X):
        return sorted((R.get('title', '?').split()[-1] for R in X))
    for o in ops:
        op = o['op']
        e = dict(o)
        e['out'] = 'ok'
        same = True
        try:
            if op in ('chunk', 'split'):
                pieces = getattr(C, op)(o['n'])
                e['pieces'] = [ids(p) for p in pieces]
                same = all(id(R) in label for p in pieces for R in p) and all(isinstance(p, mk.RecordCollection) for p in pieces)
            else:
                if op == 'year':
                    X = C.yearSplit(o['lo'], o['hi']) if o['drop'] and ck.rng.random() < .5 else C.yearSplit(o['lo'], o['hi'], dropMissingYears=o['drop'])
                elif op == 'journals':
                    C.dropNonJournals(ptVal=o['pt'], dropBad=o['drop'], invert=o['invert'])
                    X = C
                elif op == 'filter':
                    key = o['key']
                    if o['field'] == 'year' and key and ck.rng.random() < .5:
                        key = int(key)
                    X = C.citeFilter(key, o['field'], reverse=o['reverse'], caseSensitive=o['cs'])
                elif op == 'citesof':
                    X = C.localCitesOf(mk.Citation(o['text']) if ck.rng.random() < .5 else o['text'])
                elif op == 'citesofrec':
                    R = [R for R in C if ids([R]) == [o['rec']]][0]
                    X = C.localCitesOf(R if ck.rng.random() < .5 else R.id)
                elif op == 'badentries':
                    X = C.badEntries()
                elif op == 'dropbad':
                    C.dropBadEntries()
                    X = C
                e['got'] = ids(X)
                same = all(id(R) in label for R in X)
        except Exception as x:
            e['out'] = 'exc:' + type(x).__name__
            e.setdefault('pieces', [])
            e.setdefault('got', [])
        e['after'] = ids(C)
        e['same'] = same
        ev.append(e)


def main(ck):
    r = ck.rng
    trans = ck.mc('MC_Select', spec='SpecEmit', emit='T', workers=1, constants={'Ids': '{1, 2}' if not ck.thorough else '{1, 2, 3}', 'NoneKinds': 0})
    ck.mc('MC_Select', invariants=['YearLaw', 'YearEmpty', 'FilterLaw', 'CaseLaw', 'JournalLaw'], constants={'Ids': '{1, 2}' if not ck.thorough else '{1, 2, 3}', 'NoneKinds': 0})
    ck.notes['model_transitions'] = len(trans)
    pick = r.sample(trans, min(len(trans), ck.n(2500, 40000)))
    for n, t in enumerate(pick):
        kinds = t['kinds'] if isinstance(t['kinds'], list) else [t['kinds'][k] for k in sorted(t['kinds'])]
        recs = [arec(i + 1, *KINDS[k]) for i, k in enumerate(kinds) if k]
        ck.case('T%d' % n, t['o']['op'], lambda ev: perform(ck, ev, recs, [t['o']]), recs=recs, repro=t)
    # larger random collections, several operations in a row
    auth = ['Smith J', 'SMITH J', 'Lee, K', '[Anonymous]', 'Oh-Y A', '*WHO', 'Smithson B']
    jour = ['NATURE', 'J APPL PHYS', 'nature phys', 'OWN']
    for n in range(ck.n(160, 3000)):
        k = r.randrange(0, 12) if r.random() < .85 else r.randrange(12, 40)
        recs = []
        for i in range(k):
            recs.append(arec(i, r.choice([NOYEAR, 1998, 1999, 2000, 2000, 2001, 2010]), r.choice(['J', 'J', 'B', 'S', '']), r.random() < .1, [],
                             j9=r.choice(['NATURE', 'J OWN', 'PHYS Z']), au='Own%d, A' % i))
        for a in recs:
            for _ in range(r.choice([0, 1, 2, 4, 6])):
                x = r.random()
                if x < .4 and recs:
                    b = r.choice(recs)
                    c = b['own'] + r.choice(['', ', V3', ', V3, P5', ', DOI 10.1/z'])
                else:
                    p = [r.choice(auth), str(r.choice([1998, 1999, 2000, 1875])), r.choice(jour)]
                    if r.random() < .15:
                        del p[r.randrange(3)]
                    p += r.choice([[], ['V1'], ['V12', 'P3'], ['P34'], ['V2', 'P4', 'ARTN 7'], ['DOI 10.1/V1'], ['UNPUB']])
                    c = ', '.join(p)
                a['cites'].append(c)
        ops = []
        for _ in range(r.choice([1, 2, 4])):
            w = r.random()
            if w < .15:
                ops.append({'op': 'chunk', 'n': r.choice([1, 2, 3, 4, 5, max(k, 1), k + 1, max(k - 1, 1)])})
            elif w < .3:
                lo = r.choice([1990, 1998, 1999, 2000, 2010])
                ops.append({'op': 'year', 'lo': lo, 'hi': lo + r.choice([-1, 0, 1, 2, 50]), 'drop': r.random() < .8})
            elif w < .38:
                ops.append({'op': 'journals', 'pt': r.choice(['J', 'b', 'B', 's', 'Q']), 'drop': r.random() < .5, 'invert': r.random() < .4})
            elif w < .7:
                f = r.choice(['all', 'all', 'author', 'journal', 'year', 'V', 'P', 'misc', 'anonymous', 'bad'])
                key = r.choice({'all': ['smith', 'Smith', '1999, N', 'V1', 'doi', '', 'NATURE'], 'author': ['smith', 'SMITH J', 'who', '', '[anon'],
                                'journal': ['nature', 'PHYS', '', 'J OWN'], 'year': ['1999', '1875', '', '5'], 'V': ['V1', 'v3', '12', ''],
                                'P': ['P3', '5', ''], 'misc': ['artn', '7', ''], 'anonymous': [''], 'bad': ['']}[f])
                ops.append({'op': 'filter', 'key': key, 'field': f, 'reverse': r.random() < .35, 'cs': r.random() < .3})
            elif w < .85 and recs:
                good = [a for a in recs if not a['bad']]
                cs = [c for a in recs for c in a['cites']]
                if r.random() < .5 and good:
                    ops.append({'op': 'citesofrec', 'rec': r.choice(good)['id']})
                elif cs:
                    ops.append({'op': 'citesof', 'text': r.choice(cs)})
            elif w < .9:
                ops.append({'op': 'badentries'})
            elif w < .95:
                ops.append({'op': 'dropbad'})
            else:
                ops.append({'op': 'split', 'n': r.choice([1, 2, 3, 5, 7, 11, max(k, 1)])})
        # a record looked up by an operation must still be there when it runs
        done, left = [], ops
        for o in left:
            if o['op'] == 'citesofrec' and any(x['op'] in ('journals', 'dropbad', 'split') for x in done):
                continue
            done.append(o)
        ck.case('R%d' % n, 'random', lambda ev: perform(ck, ev, recs, done), recs=recs, repro=done)
    # records of Scopus among those of Web of Science
    for n in range(ck.n(60, 900)):
        parts = [citing.sparts(r, [1999, 2000, 1875]) for _ in range(5)]
        recs = []
        for i in range(r.choice([1, 2, 4, 8])):
            if r.random() < .3:
                recs.append(arec(i, r.choice([NOYEAR, 1999, 2001]), 'J', False, r.sample([T1, T2, T3, T4], r.choice([0, 1, 2])), au='Own%d, A' % i))
            else:
                q = [{'k': 'B', 'text': r.choice(citing.S_ODD)} if r.random() < .25 else {'k': 'S', 'parts': r.choice(parts)} for _ in range(r.choice([0, 1, 2, 4]))]
                recs.append({'src': 'S', 'id': 'R%d' % i, 'year': r.choice([1999, 2000, 2001]), 'pt': '', 'bad': False, 'cites': q, 'j9': '', 'au': '', 'own': ''})
        ops = []
        for _ in range(4):
            f = r.choice(['all', 'author', 'journal', 'year', 'V', 'P', 'misc', 'anonymous', 'bad'])
            key = r.choice({'all': ['smith', 'Smith', ', 12', 'year', 'doe', '', 'NATURE', 'pp. 3'], 'author': ['smith', 'LEE, K', 'vries', '', 'doe'], 'journal': ['nature', 'PHYS', '', 'J. Ph'],
                            'year': ['1999', '1875', '', '5'], 'V': ['12', 'V1', ''], 'P': ['34', '-5', ''], 'misc': ['artn'], 'anonymous': [''], 'bad': ['']}[f])
            ops.append(r.choice([{'op': 'filter', 'key': key, 'field': f, 'reverse': r.random() < .35, 'cs': r.random() < .3}] * 5 +
                                [{'op': 'citesof', 'text': r.choice([T1, T4])}, {'op': 'year', 'lo': 1999, 'hi': r.choice([1999, 2000]), 'drop': True}, {'op': 'chunk', 'n': 2}]))
        ck.case('S%d' % n, 'scopus', lambda ev: perform(ck, ev, recs, ops), recs=recs, repro=ops)
    # many records, split by sizes of every kind
    for n in range(ck.n(60, 600)):
        k = r.randrange(8, 60)
        recs = [arec(i, r.choice([1999, 2000, NOYEAR]), r.choice(['J', 'B']), r.random() < .05, [], au='Own%d, A' % i) for i in range(k)]
        ops = [{'op': r.choice(['chunk', 'split']), 'n': r.choice([2, 3, 4, 5, 6, 7, 9, 12, 20, k - 1, k, k + 1])}]
        ck.case('L%d' % n, 'pieces', lambda ev: perform(ck, ev, recs, ops), recs=recs, repro=ops)
    ck.validate('Trace_Select')
