"""C27: BibTeX."""
import os
import metaknowledge as mk
import recs
import diffusion as df


def odd(R, tags):
    out = []
    for t in tags:
        v = R.get(t)
        if v is not None and recs.val(v)['k'] not in ('i', 's', 't', 'l', 'c'):
            out.append({'t': t, 'l': isinstance(v, list), 'v': [recs.text(str(x)) for x in v] if isinstance(v, list) else [recs.text(str(v))]})
    return out


def braceless(r, f):
    sw = r.random()
    for x in f:
        if sw < .8:
            x['v'] = [s.replace('{', '').replace('}', '') for s in x['v']]
        if sw < .4:
            x['v'] = [s.replace('"', '') for s in x['v']]
    return f


def opts(r, wos=None, mx=None):
    kw, e = {}, {}
    e['max'] = mx or r.choice([1000, 1000, 1, 2, 5, 10, 37, 100])
    e['wos'] = (r.random() < .3) if wos is None else wos
    e['restricted'] = r.random() < .4
    e['nice'] = r.random() < .6
    e['full'] = False
    return e


def main(ck):
    r = ck.rng
    k = {'MaxLen': 3, 'Alphabet': '<- Alpha', 'CutTail': 'FALSE', 'QuoteAlways': 'FALSE', 'RawKey': 'FALSE', 'DropQuotes': 'FALSE'}
    vals = ck.mc('MC_Bibtex', invariants=['RoundTrip', 'Short', 'Emit'], constants=k, emit='B', workers=1)
    if ck.thorough:
        ck.mc('MC_Bibtex', invariants=['RoundTrip', 'Short'], constants=dict(k, MaxLen=5))
    for wrong in ('CutTail', 'QuoteAlways', 'RawKey', 'DropQuotes'):
        ck.mc_fails('MC_Bibtex', 'RoundTrip', constants=dict(k, **{wrong: 'TRUE'}))
    r.shuffle(vals)

    def bib(ev, R, i, e):
        try:
            t = R.bibString(maxLength=e['max'], WOSMode=e['wos'], restrictedOutput=e['restricted'], niceID=e['nice'])
            ev.append(dict(e, op='bib', i=i, text=recs.text(t), out='ok'))
        except mk.mkExceptions.BadRecord:
            ev.append(dict(e, op='bib', i=i, text='', out='BadRecord'))

    for i, (mx, n) in enumerate([(10, 25), (1000, 1500), (3, 4), (1, 1)]):
        f = [{'t': 'UT', 'v': ['WOS:1']}, {'t': 'AF', 'v': ['Lee, Ann']}, {'t': 'TI', 'v': [('abcdefghij' * 200)[:n]]}]

        def go(ev, f=f, mx=mx):
            bib(ev, recs.make('W', f), 1, dict(opts(r, False, mx), restricted=False, full=True))
        ck.case('KF-tail-%d-%d' % (mx, n), 'bib-known', go, pool=[{'src': 'W', 'f': f, 'bad': False, 'odd': [], 'id': 'WOS:1'}])

    for n in range(ck.n(260, 4000)):
        src = r.choice('WWWMSP')
        pool = []
        for i in range(r.choice([1, 1, 2, 4])):
            f = braceless(r, recs.ascii_fields(recs.raw(r, src, '%d' % i, n=r.choice([0, 2, 6]))))
            if src == 'W':
                v = vals[(3 * n + i) % len(vals)]['v']
                f.append({'t': 'PT', 'v': [v]} if not [x for x in f if x['t'] == 'PT'] else {'t': 'Z1', 'v': [v]})
                if r.random() < .5:
                    f = [x for x in f if x['t'] != 'TI'] + [{'t': 'TI', 'v': [r.choice([
                        'Networks, their "uses" = many: a #1 review', "On {y}, or 50% of O'Neil's", 'A bb ccc dd e', 'networks', 'Of the structure of international collaboration networks',
                        'Line\nbroken\ttitle', 'x' * 40, '~ \\ (a)']), 'and more'][:r.choice([1, 2])]}]
                if r.random() < .1:
                    f = [x for x in f if x['t'] != 'AB'] + [{'t': 'AB', 'v': ['abcdefghi ' * 100 + 'z' * r.choice([0, 1, 999, 1000]) + r.choice(['', 'say "no"'])]}]
                if r.random() < .03:
                    t = r.choice(['AF', 'AF', 'AU', 'DE'])
                    f = [x for x in f if x['t'] != t] + [{'t': t, 'v': ['N%s, %s' % (chr(97 + j % 26) * (1 + j // 26), chr(65 + j % 26)) for j in range(r.choice([12, 35, 70, 130]))]}]
            pool.append({'src': src, 'f': f, 'bad': False})

        def go(ev):
            real = [recs.make(p['src'], p['f']) for p in pool]
            for p, R in zip(pool, real):
                p['id'] = R.id
                p['odd'] = odd(R, [x['t'] for x in p['f']] + recs.SPECIALS)
                if p['bad']:
                    R.bad, R.error = True, mk.mkExceptions.BadWOSRecord('x') if src == 'W' else mk.mkExceptions.BadRecord('x')
            before = df.snapshot(mk.RecordCollection(real))
            v = vals[n % len(vals)]
            for _ in range(2):
                i = r.randrange(len(real))
                bib(ev, real[i], i + 1, opts(r, v['wos'], v['max']) if r.random() < .4 else opts(r))
            e = opts(r)
            title = r.choice(['bib'] * 6 + ['bib of ' + 'x' * 240, 'y' * 199, 'z' * 251])     # names are cut to what a file system takes
            RC = mk.RecordCollection(real, name=title)
            os.mkdir('w')
            os.chdir('w')
            try:
                kw = {} if r.random() < .4 else {'fname': 'out file.bib'}
                for a, b, d in (('maxStringLength', 'max', 1000), ('wosMode', 'wos', False), ('reducedOutput', 'restricted', False), ('niceIDs', 'nice', True)):
                    if e[b] != d or r.random() < .5:
                        kw[a] = e[b]
                want = kw.get('fname', title[:200] + '.bib')
                if r.random() < .3:
                    open(want, 'w').write('@misc{ old,\n}\n')
                try:
                    RC.writeBib(**kw)
                    out = 'ok'
                except mk.mkExceptions.BadRecord:
                    out = 'BadRecord'
                name = os.listdir('.') == [want]
                text = open(want, encoding='utf-8', newline='').read() if name else ''
            finally:
                for x in os.listdir('.'):
                    os.remove(x)
                os.chdir('..')
                os.rmdir('w')
            ev.append(dict(e, op='file', text=recs.text(text), out=out, name=name))
            ev.append({'op': 'after', 'same': before == df.snapshot(mk.RecordCollection(real))})
        if r.random() < .12:
            r.choice(pool)['bad'] = True
        for p in pool:
            p['odd'] = []
        ck.case('B%d' % n, 'bib-' + src, go, pool=pool)
    ck.validate('Trace_Bibtex')
