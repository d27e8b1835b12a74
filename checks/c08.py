"""C08: Scopus CSV files read, written and read back."""
import io
import os
import metaknowledge as mk
from metaknowledge.scopus import ScopusRecord
from metaknowledge.scopus.recordScopus import scopusHeader
from mbv import enc
H = list(scopusHeader)
WORDS = ['alpha', 'Beta', 'x, y', 'caf\u00e9', '\u4e2d\u6587', '""q""', '""', ',', ',,', ' ', '(1999)', 'a; b', 'Lee K., Oh A.', 'NIH, 12, US', '""quoted, text""', "'", 'nel\u0085x', '\\', ';', '"",""', 'vt\x0bx']


def cell(r, quoted):
    k = r.random()
    if k < .05:
        return ' '
    s = ''.join(r.choice(WORDS) + r.choice(['', ' ', ' ']) for _ in range(r.choice([1, 1, 2, 4])))
    if not quoted:
        s = s.replace('"', '').replace(',', '').replace(';', '')
    return s


def table_row(r, eid, dens, header):
    """raw cells (quotes doubled) and the text of the row"""
    out, txt = {}, []
    for h in header:
        q = r.random() < .6
        x = ''
        if h == 'EID':
            x = eid
        elif h == 'Authors':
            x = r.choice(['', 'Lee K.', 'Lee K., Oh A.', 'Lee K., M\u00fcller J.-P., O\'Neil B.'])
        elif h in ('Year', 'Page count', 'Cited by'):
            x = r.choice(['', '1999', '7', '2010'])
        elif h == 'Conference code':
            x = r.choice(['', '12'])
        elif h == 'References':
            x = r.choice(['', 'Lee, K., A title of it (1999) J Appl Phys, 12 (3), pp. 1-9; Oh, A., Another, here (2001) Nature, 5, p. 3', 'No citation at all', 'Kim, B., Why (2005) Book'])
        elif h == 'Funding Details':
            x = r.choice(['', 'NIH, 12, US', 'NSF, , ABC; EU', 'A, B, C, D'])
        elif r.random() < dens:
            x = cell(r, q)
        if ',' in x or '"' in x:
            q = True
        if x:
            out[h] = x
        txt.append('"%s"' % x if q else x)
    return out, ','.join(txt)


def flds(d):
    return [{'c': k, 'x': v} for k, v in d.items()]


def observe(ev, path, **k):
    e = {'op': 'read', 'out': 'ok', 'bad': False, 'errs': [], 'recs': [], 'srcok': True}
    C = None
    try:
        C = mk.RecordCollection(path)
        rp = os.path.realpath(path)
        e['bad'] = bool(C.bad)
        e['errs'] = ['F' if x == rp else 'other' for x in C.errors]
        e['recs'] = [{'bad': bool(R.bad), 'f': flds(dict(R.items(raw=True))) if not R.bad else [], 'at': R.sourceLine} for R in C]
        e['srcok'] = all(R.sourceFile == rp and isinstance(R, ScopusRecord) for R in C)
    except Exception as x:
        e['out'] = 'exc:' + type(x).__name__
    e.update(k)
    ev.append(e)
    return C


def decoded(R):
    res = []
    for t in ['authorsShort', 'authorsFull', 'citations', 'References', 'Funding Details', 'year', 'title', 'keywords', 'journal', 'abstract', 'Index Keywords', 'Cited by', 'volume', 'beginningPage']:
        v = R.get(t)
        if t in ('citations', 'References') and v is not None:
            v = [(c.original, c.ID(), c.bad, getattr(c, 'author', None), getattr(c, 'year', None), getattr(c, 'journal', None)) for c in v]
        elif t == 'Funding Details' and v is not None:
            v = [sorted((k, str(x)) for k, x in g.items()) for g in v]
        res.append((t, enc(v)))
    return res


def put(path, header, rows, newline=True, bom=True):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(('\ufeff' if bom else '') + '\n'.join([','.join(header)] + rows) + ('\n' if newline else ''))


def main(ck):
    r = ck.rng
    rows = ck.mc('MC_Scopus', spec='SpecEmit', emit='R', workers=1, constraint='Emit', constants={'MaxLen': 4 if not ck.thorough else 5})
    ck.mc('MC_Scopus', invariants=['Faithful', 'RoundTrip', 'Permuted'], constants={'MaxLen': 5 if not ck.thorough else 6})
    rows = sorted({x['row'] for x in rows})
    ck.notes['model_rows'] = len(rows)
    for n, row in enumerate(r.sample(rows, min(len(rows), ck.n(1200, 20000)))):
        def go(ev):
            k = r.random()
            R = ScopusRecord(row + ('\n' if r.random() < .5 else ''), header=['A', 'EID', 'B'], sFile='F', sLine=2)
            ev.append({'op': 'read', 'out': 'ok', 'bad': False, 'errs': [], 'srcok': True,
                       'recs': [{'bad': bool(R.bad), 'f': [] if R.bad else flds(dict(R.items(raw=True))), 'at': R.sourceLine}]})
        ck.case('M%d' % n, 'row', go, h=['A', 'EID', 'B'], lines=[row])
    for n in range(ck.n(220, 4000)):
        header = list(H)
        k = r.random()
        if k < .35:
            r.shuffle(header)
        elif k < .5:
            header.remove(r.choice([h for h in header if h != 'EID']))
        elif k < .6:
            header.insert(r.randrange(len(header) + 1), 'Extra column')
        elif k < .7:
            i = r.choice([i for i in range(len(H)) if H[i] != 'EID'])
            header[i] = 'Renamed'
        dens = r.choice([.1, .4, .9])
        rs = [table_row(r, '2-s2.0-%d' % (i if r.random() < .95 else 0), dens, header)[1] for i in range(r.choice([0, 1, 2, 4, 7]))]
        kind = r.choice(['whole', 'whole', 'more', 'fewer', 'noeid', 'blank', 'junk', 'cut', 'break'])
        newline = r.random() < .7
        if rs:
            i = r.randrange(len(rs))
            if kind == 'more':
                rs[i] += r.choice([',', ',"z"', ',z'])
            elif kind == 'fewer':
                rs[i] = 'a,b,"c,d"'
            elif kind == 'noeid':
                x = table_row(r, '', .5, header)[1]
                rs[i] = x
            elif kind == 'blank':
                rs.insert(i, '')
            elif kind == 'junk':
                rs.insert(i, r.choice(['no row', ',', '""', ',' * (len(header) - 1), '#' * 50]))
            elif kind == 'cut':
                # a row of which the end is missing, at a column boundary
                x = [cell(r, False) for _ in range(r.randrange(1, len(header)))]
                rs = rs[:i] + [','.join(x)]
            elif kind == 'break':
                a = 'x,' * 5 + '"broken in'
                rs[i:i + 1] = [','.join(['x'] * 5), 'two']
        if not newline and rs and rs[-1] == '':
            rs.pop()
        p = 'f%d.csv' % n
        put(p, header, rs, newline)
        if kind != 'whole' or rs or True:
            ck.case('F%d' % n, 'read', lambda ev: observe(ev, p), h=header, lines=list(rs), repro={'kind': kind})

    def trip(ev, cid, C, rounds):
        before = {R.id: decoded(R) for R in C} if r.random() < .5 else None
        first = None
        for k in range(rounds):
            p = '%s-%d.csv' % (cid, k)
            e = {'op': 'write', 'out': 'ok', 'header': [], 'lines': []}
            try:
                C.writeFile(p)
                with open(p, encoding='utf-8', newline='') as f:
                    t = f.read()
                if t.startswith('\ufeff') and t.endswith('\n'):
                    t = t[1:-1].split('\n')
                    e['header'], e['lines'] = t[0].split(','), t[1:]
            except Exception as x:
                e['out'] = 'exc:' + type(x).__name__
            ev.append(e)
            ev.append({'op': 'kept', 'recs': [{'f': flds(dict(R.items(raw=True)))} for R in C]})
            D = observe(ev, p, equal=False, decoded=True)
            if D is None:
                return
            ev[-1]['equal'] = D == C and len(D) == len(C) and hash(D) == hash(C)
            before = before or {R.id: decoded(R) for R in C}
            ev[-1]['decoded'] = {R.id: decoded(R) for R in D} == before
            C = D
    for n in range(ck.n(200, 4000)):
        dens = r.choice([.1, .4, .9])
        ds = [table_row(r, '2-s2.0-%d' % i, dens, H) for i in range(r.choice([1, 1, 2, 4]))]

        def go(ev):
            recs = []
            for d, t in ds:
                if r.random() < .5:
                    recs.append(ScopusRecord(dict(d)))
                else:
                    recs.append(ScopusRecord(t))
            trip(ev, 'T%d' % n, mk.RecordCollection(recs), r.choice([1, 2]))
        ck.case('T%d' % n, 'trip', go, h=H, recs=[flds(d) for d, t in ds])
    for n in range(ck.n(20, 100)):
        def go(ev):
            bad = ScopusRecord({'Title': 'x'}) if r.random() < .5 else ScopusRecord('a,b')
            C = mk.RecordCollection([bad] + [ScopusRecord(table_row(r, 'e%d' % i, .5, H)[0]) for i in range(r.choice([0, 2]))])
            for what in ('file', 'record'):
                out = 'ok'
                try:
                    C.writeFile('bad-%d' % n) if what == 'file' else bad.writeRecord(io.StringIO())
                except Exception as x:
                    out = 'exc:' + type(x).__name__
                ev.append({'op': 'refuse', 'out': out})
        ck.case('B%d' % n, 'trip', go, h=H, recs=[])
    # a column the standard header lacks: a recorded finding
    d = {'EID': '1', 'Title': 't', 'Author(s) ID': '55'}
    ck.case('KF-extra-column', 'trip', lambda ev: trip(ev, 'kf', mk.RecordCollection([ScopusRecord(d)]), 1), h=H, recs=[flds(d)])
    ck.validate('Trace_Scopus')
