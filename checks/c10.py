"""C10: directories and the readers of their files."""
import os
import metaknowledge as mk
import dirs


def attempt(fn):
    e = {'out': 'ok', 'called': ''}
    e.update(dirs.EMPTY)
    try:
        C = fn()
        e.update(dirs.look(C), called=C.name)
    except Exception as x:
        e['out'] = 'exc:' + type(x).__name__
    return e


def main(ck):
    r = ck.rng
    scen = ck.mc('MC_Directory', emit='D', workers=1, constraint='Emit', constants={'MaxFiles': 2})
    ck.mc('MC_Directory', invariants=['OrderIrrelevant', 'Narrower'], constants={'MaxFiles': 3})
    ck.notes['model_directories'] = len(scen)

    def case(cid, files, exts, grants, subdirs):
        """files: [(name, kind, ids, damage)]"""
        make = mk.GrantCollection if grants else mk.RecordCollection
        d = os.path.join(ck.tmp, 'd-' + cid)
        os.makedirs(d)
        order = list(files)
        r.shuffle(order)
        for name, kind, ids, damage in order:
            p = os.path.join(d, name)
            if kind == '':
                dirs.put(p, damage.encode('latin-1') if isinstance(damage, str) else dirs.nothing(r, grants))
            else:
                dirs.make(r, p, kind, ids, damage)
        for n in subdirs:
            os.makedirs(os.path.join(d, n))
            dirs.make(r, os.path.join(d, n, 'inner.txt'), 'WOSRecord', ['WOS:inner'], False)
        style = r.choice(['abs', 'abs', 'slash', 'rel', 'link', 'home'])

        def path(*a):
            if style == 'slash' and not a:
                return d + '/'
            if style == 'rel':
                return os.path.join('d-' + cid, *a)
            if style == 'link':
                if not os.path.islink('l-' + cid):
                    os.symlink(d, 'l-' + cid)
                return os.path.join(ck.tmp, 'l-' + cid, *a)
            if style == 'home' and not grants:
                os.environ['HOME'] = ck.tmp
                return os.path.join('~', 'd-' + cid, *a)
            return os.path.join(d, *a)

        held = []

        def hold(C):
            held.append(C)
            return C

        def naming():
            return r.choice(['', '', 'A name', 'x.txt', 'Empty'])

        def go(ev):
            for name, kind, ids, damage in files:
                asked = naming()
                kw = {'cached': True} if r.random() < .2 else {}
                e = attempt(lambda: hold(make(path(name), name=asked, **kw) if asked or kw else make(path(name))))
                e.update(op='alone', asked=asked, name=name, kind=kind, damaged=bool(damage),
                         ids=['id:' + dirs.IDS.get(kind, '%s') % i.replace('WOS:', '') if kind == 'WOSRecord' else 'id:' + dirs.IDS.get(kind, '%s') % i for i in ids])
                if grants and kind in ('CIHRGrant', 'FallbackGrant'):
                    e['ids'] = [x['k'] for x in e['recs']] if len(e['recs']) == len(ids) else ['%d grants' % len(ids)]
                ev.append(e)
                if e['out'] == 'ok' and r.random() < .4:
                    asked = naming()
                    given = held[-1]
                    given = r.choice([list, tuple, set, iter, lambda x: x])(given)
                    e = attempt(lambda: make(given, name=asked, **kw) if asked or kw else make(given))
                    e.update(op='again', asked=asked, name=name)
                    ev.append(e)
                x = r.choice(exts + ['.t', name, 'q'])
                e = attempt(lambda: make(path(name), extension=x))
                ev.append({'op': 'single', 'name': name, 'ext': x, 'out': e['out']})
            before = dirs.snapshot(d)
            listdir = os.listdir
            for x in exts:
                for again in range(2):
                    def shuffled(*a):
                        res = listdir(*a)
                        r.shuffle(res)
                        return res
                    if again:
                        os.listdir = shuffled
                    asked = naming()
                    try:
                        e = attempt(lambda: make(path(), name=asked, extension=x) if asked else make(path(), extension=x) if x else make(path()))
                    finally:
                        os.listdir = listdir
                    e.update(op='dir', ext=x, asked=asked, untouched=dirs.snapshot(d) == before)
                    ev.append(e)
        ck.case(cid, 'grants' if grants else 'records', go, limit=60, repro={'files': [[n, k, list(i), dm] for n, k, i, dm in files], 'style': style})

    for n, s in enumerate(r.sample(scen, min(len(scen), ck.n(250, 3000)))):
        kinds = r.sample(dirs.RECORD, 2)
        kinds = {'P': kinds[0], 'Q': kinds[1], '': ''}
        fs = []
        for f in s:
            f = f if isinstance(f, dict) else f[0]
            k = kinds[f['i']]
            ids = [dirs.PREFIX[k] + x for x in f['r']] if k else []
            if k == 'MedlineRecord' and not ids:
                ids = ['19']
            fs.append((f['n'], k, ids, bool(f['e'])))
        case('M%d' % n, fs, ['', '.txt', '.csv', 't'], False, [])
    for n in range(ck.n(160, 2500)):
        grants = n % 3 == 2
        fs = []
        used = set()
        mix = r.choice([(dirs.GRANT if grants else dirs.RECORD), (dirs.GRANT if grants else dirs.RECORD) + [''], [r.choice(dirs.GRANT if grants else dirs.RECORD)]])
        for i in range(r.choice([0, 1, 2, 3, 5, 9])):
            k = r.choice(mix)
            ext = r.choice(['.txt', '.isi', '.csv', '', '.txt.bak', '.TXT']) if not grants or k == '' else r.choice(['.csv', '.txt', ''])
            if grants and k == '' and ext == '.csv':
                ext = '.dat'
            if grants and k == '' and r.random() < .6:      # tables that hold no grant, or are not ones
                stem, text = r.choice(dirs.UNTABLES)
                fs.append((stem % i, '', [], text))
                continue
            if k == 'FallbackGrant' and r.random() < .4:    # what the name promises is not in the file
                fs.append((r.choice(['cihr_%d.csv', 'nserc_%d.csv', '%d_NSERC_.csv', 'CIHR_%d.csv', '%dcsv']) % i, k, [dirs.PREFIX[k] + '%d' % j for j in range(r.choice([1, 2]))], False))
                continue
            name = dirs.suffix(r, k, r.choice(['a', 'b', 'sav edrecs ', '.hid', 'caf\u00e9', 'x.txt.', '1', 'VR 1.0']) + str(i), ext) if k or not grants else r.choice(['cihr_', 'NSERC_', '', 'z']) + str(i) + r.choice(['.xml', '.txt'])
            if grants and k == '' and name.startswith('NSERC_'):
                name = name[6:]
            pool = [dirs.PREFIX[k] + '%d' % j for j in range(6)] if k else []
            if k == 'NSERCGrant':
                pool = [x for x in pool if x not in used]      # grants over several files: C28
            ids = r.sample(pool, min(len(pool), r.choice([1, 1, 2, 3] + [0] * (k in ('WOSRecord', 'ProQuestRecord', 'ScopusRecord')))))
            if k == 'NSFGrant':
                ids = ids[:1]
            if k and not ids and k not in ('WOSRecord', 'ProQuestRecord', 'ScopusRecord'):
                continue
            used |= set(ids)
            fs.append((name, k, ids, bool(k) and r.random() < .2))
        exts = ['', r.choice(['.csv', '.xml'] if grants else ['.txt', '.isi', '.csv'])]
        if r.random() < .3:
            exts.append(r.choice(['.nope', 'bak', 's', '0.txt']))
        case('R%d' % n, fs, exts, grants, r.choice([[], [], ['sub.txt'], ['sub', 'z.csv']]))
    # every table that holds no grant, beside a file of grants
    for n, (stem, text) in enumerate(dirs.UNTABLES):
        k = r.choice(dirs.GRANT)
        fs = [(stem % 7, '', [], text)] + ([(dirs.suffix(r, k, 'a', '.csv'), k, [dirs.PREFIX[k] + '1'], False)] if r.random() < .7 else [])
        case('U%d' % n, fs, ['', '.csv'], True, [])
    # a whole file with bytes that are no text: said so, and nothing else made of it
    for n in range(ck.n(25, 400)):
        kind = r.choice(['WOSRecord', 'ScopusRecord', 'ProQuestRecord'])
        ids = [dirs.PREFIX[kind] + '%d' % j for j in range(r.choice([1, 5, 60, 150]))]
        text, encoding = dirs.MAKERS[kind](r, ids, False)
        data = text.encode(encoding)
        at = r.choice([r.randrange(1200, len(data)) if len(data) > 1300 else len(data) - 5, len(data) - r.randrange(2, 40)])
        bad = r.choice([b'\xff', b'\xfe\x80', b'\xe9 ', b'\xc3']) + b' '

        def go(ev, n=n, kind=kind, data=data, at=at, bad=bad):
            os.makedirs('by%d' % n)
            name = os.path.join(ck.tmp, 'by%d' % n, 'a.' + r.choice(['txt', 'csv']))
            dirs.put(name, data)
            whole = attempt(lambda: mk.RecordCollection(name))
            dirs.put(name, data[:at] + bad + data[at:])
            e = attempt(lambda: mk.RecordCollection(name))
            e.update(op='bytes', name=os.path.basename(name), kind=kind, whole=whole['recs'])
            ev.append(e)
        ck.case('B%d' % n, 'no-text', go)
    ck.validate('Trace_Directory')
