"""C06: Web of Science collections written and read back."""
import io
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord
import wosfiles as wf


def main(ck):
    r = ck.rng
    ck.mc('MC_Wos', invariants=['RoundTrip', 'FromFile', 'StepsAreFold'], constants={'MaxLines': 4 if not ck.thorough else 6})

    def rawlines(p):
        with open(p, encoding='utf-8-sig', newline='') as f:
            s = f.read()
        return s.split('\n')

    def recs_of(C):
        return [{'bad': bool(R.bad), 'f': [] if R.bad else wf.fields(R), 'at': 0} for R in C]

    def trip(ev, cid, C, rounds, default_name):
        for k in range(rounds):
            p = '%s-%d.txt' % (cid, k)
            e = {'op': 'write', 'out': 'ok', 'lines': []}
            try:
                if default_name and k == 0:
                    C.name = r.choice(['%s-%d', '%s-%d ' + 'w' * 220]) % (cid, k)
                    p = C.name[:200] + '.txt'
                    C.writeFile()
                else:
                    C.writeFile(p)
                e['lines'] = rawlines(p)
            except Exception as x:
                e['out'] = 'exc:' + type(x).__name__
            ev.append(e)
            ev.append({'op': 'kept', 'recs': recs_of(C)})
            D = wf.read(ev, p, equal=False)
            ev[-1]['equal'] = D is not None and D == C and len(D) == len(C) and hash(D) == hash(C)
            if D is None or not len(D):
                return
            C = D

    for n in range(ck.n(500, 12000)):
        k = r.choice([1, 1, 2, 3, 5, 12])
        bs = [wf.block(r, 'WOS:%04d%s' % (i, r.choice(['', '', ' (x)', '\u00e9'])), n=r.choice([None, None, 0, 1, 25])) for i in range(k)]
        cid = 'T%d' % n

        def go(ev):
            recs = []
            for b in bs:
                if r.random() < .3:
                    recs.append(WOSRecord('\n'.join(wf.lines(b))))
                elif r.random() < .2:
                    recs.append(WOSRecord(io.StringIO('\n'.join(wf.lines(b)) + r.choice(['', '\n']), newline='\n')))
                else:
                    recs.append(wf.record(b))
            C = mk.RecordCollection(recs)
            if r.random() < .5:
                # looking things up first must not matter
                for R in C:
                    for t in list(R.keys()) + ['year', 'title', 'authorsFull', 'citations', 'abstract', 'grants']:
                        try:
                            R.get(t)
                        except (ValueError, IndexError):
                            pass  # a number or an address that is none: C04
            if r.random() < .5:
                ev.append({'op': 'kept', 'recs': recs_of(C)})
            b = r.choice(bs)
            R = [R for R in C if R.id == b[[f['t'] for f in b].index('UT')]['v'][0]][0]
            out = io.StringIO()
            R.writeRecord(out)
            ev.append({'op': 'block', 'f': b, 'lines': out.getvalue().split('\n')[:-1]})
            ev.append({'op': 'block', 'f': b, 'lines': bytes(R).decode(R.encoding()).split('\n')[:-1]})
            if r.random() < .5:
                ev.append({'op': 'bytes', 'lines': bytes(C).decode(R.encoding()).split('\n')[:-1]})
            trip(ev, cid, C, r.choice([1, 2, 3]), r.random() < .2)
        ck.case(cid, 'trip', go, recs=bs)
    # files read, written and read again; combinations of collections
    for n in range(ck.n(150, 3000)):
        bs = [wf.block(r, 'WOS:%d' % i) for i in range(r.choice([2, 3, 6]))]
        cid = 'F%d' % n
        cut = r.randrange(1, len(bs))

        def go(ev):
            wf.write(cid + 'a', [x for b in bs[:cut] for x in wf.lines(b) + ['']] + ['EF'])
            wf.write(cid + 'b', [x for b in bs[cut - 1:] for x in wf.lines(b) + ['']] + ['EF'])
            A, B = mk.RecordCollection(cid + 'a'), mk.RecordCollection(cid + 'b')
            C = A | B if r.random() < .5 else (B | (A - B))
            trip(ev, cid, C, 2, False)
        ck.case(cid, 'trip', go, recs=bs)
    # damaged records are refused
    for n in range(ck.n(60, 600)):
        bs = [wf.block(r, 'WOS:%d' % i) for i in range(r.choice([0, 1, 3]))]
        how = r.choice(['nout', 'dup', 'short', 'noend'])

        def go(ev):
            b = wf.lines(wf.block(r, 'WOS:x', n=4))
            if how == 'nout':
                i = [x[:2] for x in b].index('UT')
                b = b[:i] + ['XX ' + b[i][3:]] + b[i + 1:]
            elif how == 'dup':
                b.insert(0, 'UT again')
            elif how == 'short':
                b.insert(0, '')
            else:
                b.pop()
            bad = WOSRecord('\n'.join(b))
            C = mk.RecordCollection([wf.record(x) for x in bs] + [bad])
            for what in r.sample(['file', 'record', 'bytes', 'all'], 4):
                out = 'ok'
                try:
                    if what == 'file':
                        C.writeFile('bad-%d.txt' % n)
                    elif what == 'record':
                        bad.writeRecord(io.StringIO())
                    elif what == 'all':
                        bytes(C)
                    else:
                        bytes(bad)
                except Exception as x:
                    out = 'exc:' + type(x).__name__
                    if what in ('bytes', 'all') and out == 'exc:BadRecord':
                        out = 'exc:BadWOSRecord'
                ev.append({'op': 'refuse', 'out': out, 'what': what})
        ck.case('B%d' % n, 'trip', go, recs=bs)
    ck.validate('Trace_Wos')
