"""C07: Medline files read, written and read back."""
import io
import metaknowledge as mk
from metaknowledge.medline import MedlineRecord
import medfiles as mf


def main(ck):
    r = ck.rng
    seqs = ck.mc('MC_Medline', spec='SpecEmit', emit='L', workers=1, constants={'MaxLines': 4 if not ck.thorough else 5})
    ck.mc('MC_Medline', invariants=['StepsAreFold', 'Monotone', 'RoundTrip', 'AllKept', 'Independent'], constants={'MaxLines': 4 if not ck.thorough else 6})
    ck.notes['model_files'] = len(seqs)
    files = [s for s in seqs if any(x.startswith('PMID- ') for x in s[:2])]

    def case(cid, kind, ls, newline=True):
        p = 'f-%s.txt' % cid
        mf.write(p, ls, newline)
        seen = list(ls)
        if not newline and seen and seen[-1] == '':
            seen.pop()
        ck.case(cid, 'read', lambda ev: mf.read(ev, p), lines=seen, repro={'kind': kind})
        ck.notes.setdefault('scenario_kinds', {}).setdefault(kind, 0)
        ck.notes['scenario_kinds'][kind] += 1
    for n, ls in enumerate(r.sample(files, min(len(files), ck.n(900, 15000)))):
        case('M%d' % n, 'model', ls, newline=r.random() < .7)
    for n in range(ck.n(500, 8000)):
        blocks = [mf.lines_of(r, '%d' % (i if r.random() < .95 else 0)) for i in range(r.choice([1, 2, 3, 3, 5]))]
        kind = r.choice(['whole', 'whole', 'truncate', 'cut', 'insert', 'garble', 'drop', 'double', 'between'])
        ls, owner = [], []
        if r.random() < .5:
            ls.append('')
        first = len(ls)
        for b in blocks:
            ls += b + [''] * r.choice([1, 1, 2])
        newline = r.random() < .7
        inner = [i for i in range(first + 1, len(ls)) if ls[i] != '' and not ls[i].startswith('PMID- ')]
        if kind == 'truncate':
            ls = ls[:r.randrange(first + 1, len(ls) + 1)]
        elif kind == 'cut':
            i = r.randrange(first, len(ls))
            if i > first:
                ls = ls[:i + 1]
                # cutting an author name short gives the author another name
                if ls[-1] and not ls[-1].startswith(('AU', 'PMID')):
                    ls[-1] = ls[-1][:r.randrange(1, len(ls[-1]) + 1)]
                newline = False
        elif kind == 'insert' and inner:
            ls.insert(r.choice(inner), r.choice(['x', 'AB', 'Author: z', '   more', 'TI again', '\ttab', '-', '12  - no', 'TI- x', 'LONGT- y', ' TI - x', '      ok', 'TI  -', 'A   - b']))
        elif kind == 'garble' and inner:
            i = r.choice(inner)
            ls[i] = r.choice([ls[i][:3], ls[i][1:], '#' + ls[i]])
        elif kind == 'drop' and inner:
            i = r.choice(inner)
            if not ls[i].startswith('AU'):
                del ls[i]
        elif kind == 'double' and inner:
            i = r.choice(inner)
            if not ls[i].startswith('AU  '):
                ls.insert(i, ls[i])
        elif kind == 'between':
            gaps = [i for i in range(first + 1, len(ls)) if ls[i] == '']
            ls[r.choice(gaps):0] = []
            i = r.choice(gaps)
            ls[i + 1:i + 1] = [r.choice(['noise', 'TI  - lost', '      lost', 'PMID-1'])]
        if ls and any(x.startswith('PMID- ') for x in ls[:2]):
            case('F%d' % n, kind, ls, newline)

    def rawlines(p):
        with open(p, encoding='latin-1', newline='') as f:
            return f.read().split('\n')[:-1]

    def recs_of(C):
        return [{'bad': bool(R.bad), 'f': [] if R.bad else mf.fields(R), 'at': 0} for R in C]

    def trip(ev, cid, C, rounds):
        for k in range(rounds):
            p = '%s-%d.txt' % (cid, k)
            e = {'op': 'write', 'out': 'ok', 'lines': []}
            try:
                C.writeFile(p)
                e['lines'] = rawlines(p)
            except Exception as x:
                e['out'] = 'exc:' + type(x).__name__
            ev.append(e)
            ev.append({'op': 'kept', 'recs': recs_of(C)})
            D = mf.read(ev, p, equal=False)
            ev[-1]['equal'] = D is not None and D == C and len(D) == len(C) and hash(D) == hash(C)
            if D is None or not len(D):
                return
            C = D

    def abstract(ls):
        """The block a list of lines stands for (the driver's own reading: the records are built from it)."""
        out, author, tag = [], 'None', None
        for x in ls:
            if x.startswith('      '):
                f = [f for f in out if f['t'] == tag][0]
                f['v'][-1] += '\n' + x[6:]
                if tag == 'AU':
                    author += '\n' + x[6:]
                continue
            tag, v = x[:4].strip(), x[6:]
            if tag == 'AU':
                author = v
            if tag in ('AD', 'AUID'):
                v = author + ' : ' + v
            f = [f for f in out if f['t'] == tag]
            if f:
                f[0]['v'].append(v)
            else:
                out.append({'t': tag, 'v': [v]})
        return out
    for n in range(ck.n(400, 8000)):
        blocks = [mf.lines_of(r, '%d' % i) for i in range(r.choice([1, 1, 2, 4]))]
        bs = [abstract(b) for b in blocks]

        def go(ev):
            recs = []
            for b, ls in zip(bs, blocks):
                k = r.random()
                if k < .4:
                    recs.append(MedlineRecord({f['t']: list(f['v']) for f in b}))
                elif k < .7:
                    recs.append(MedlineRecord('\n'.join(ls)))
                else:
                    recs.append(MedlineRecord(io.StringIO('\n'.join(ls) + '\n', newline='\n')))
            C = mk.RecordCollection(recs)
            if r.random() < .5:
                for R in C:
                    for t in list(R.keys()) + ['year', 'title', 'authorsFull', 'citations', 'abstract', 'grants', 'address']:
                        try:
                            R.get(t)
                        except Exception:
                            pass  # C04
            trip(ev, 'T%d' % n, C, r.choice([1, 2]))
        ck.case('T%d' % n, 'trip', go, recs=bs)
    for n in range(ck.n(40, 400)):
        bs = [abstract(mf.lines_of(r, '%d' % i)) for i in range(r.choice([0, 1, 3]))]

        def go(ev):
            ls = mf.lines_of(r, '77')
            if r.random() < .5:
                ls[0] = 'PM  - 77'
            else:
                ls.insert(r.randrange(1, len(ls) + 1), 'not a line')
            bad = MedlineRecord('\n'.join(ls))
            C = mk.RecordCollection([MedlineRecord({f['t']: f['v'] for f in b}) for b in bs] + [bad])
            for what in ('file', 'record'):
                out = 'ok'
                try:
                    C.writeFile('bad-%d.txt' % n) if what == 'file' else bad.writeRecord(io.StringIO())
                except Exception as x:
                    out = 'exc:' + type(x).__name__
                ev.append({'op': 'refuse', 'out': out})
        ck.case('B%d' % n, 'trip', go, recs=bs)
    # two authors of one record with the same name: a recorded finding
    ls = ['PMID- 5', 'AU  - Lee K', 'AD  - X', 'AU  - Lee K', 'AD  - Y']
    ck.case('KF-same-name', 'trip', lambda ev: trip(ev, 'kf', mk.RecordCollection([MedlineRecord('\n'.join(ls))]), 1), recs=[abstract(ls)])
    ck.validate('Trace_Medline')
