"""C30: the journal abbreviation database."""
import io
import os
import shutil
import string
import subprocess
import sys
import urllib.error
import urllib.request
import metaknowledge as mk
from metaknowledge.journalAbbreviations import backend
import metaknowledge.citation as citation
from recs import text
CITABLE = ['NATURE', 'SCI-NY', "J O'B", 'ANN Q X', 'PHYS REV B', 'A', 'B', 'J STAT/PHYS', '\u00dcBER Z', 'X. Y.']
ODD = ['lower j', 'with "quotes"', 'tab\tbed', 'back\\slash', '\u00e9t\u00e9', ' lead', 'J|PIPE'[:1] + ' P', 'x' * 700]
NAMES = ['Nature', 'Science of X', 'Science', "O'Brien's", 'Q', '\u00dcber Zeit', 'name, with: "signs"', 'n' * 600, 'two\nlines']


def page(entries):
    rows, first = [], True
    for a, n in entries:
        rows.append(('<A NAME="A"></A><DT>' if first else '</B><DT>') + n)
        rows.append('<B><DD>\t' + a)
        first = False
    return ('<HTML>\n<BODY>\n<DL>\n' + '\n'.join(rows) + '\n</B></DL>\n</BODY>').encode('utf-8')


def main(ck):
    r = ck.rng
    k = {'MaxSteps': 4 if not ck.thorough else 5, 'Design': '"right"'}
    ck.mc('MC_Journals', invariants=['Remembers', 'Session'], constants=k)
    ck.mc_fails('MC_Journals', 'Session', constants=dict(k, MaxSteps=3, Design='"stale"'))
    ck.mc_fails('MC_Journals', 'Session', constants=dict(k, MaxSteps=3, Design='"text"'))
    ck.mc_fails('MC_Journals', 'Remembers', constants=dict(k, MaxSteps=3, Design='"keeps first"'))
    hists = ck.mc('MC_Journals', invariants=['Emit'], constants=dict(k, MaxSteps=3 if not ck.thorough else 4), emit='J', workers=1)
    r.shuffle(hists)
    where = os.path.relpath(os.path.realpath(os.getcwd()), os.path.realpath(os.path.dirname(backend.__file__)))
    net = {}

    def fetch(url, *a, **kw):
        net['n'] += 1
        if net['fail'] == net['n'] or not net['online']:
            raise urllib.error.URLError('no network here')
        if not (url.startswith('https://images.webofknowledge.com/images/help/WOS/') and url.endswith('_abrvjt.html')):
            raise urllib.error.URLError('no such page')
        return io.BytesIO(page(net['pages'][url[len('https://images.webofknowledge.com/images/help/WOS/'):-len('_abrvjt.html')]]))
    real = urllib.request.urlopen
    urllib.request.urlopen = fetch

    def run(ev, ops):
        os.mkdir('db')
        wos, man = where + '/db/' + 'listing', where + '/db/' + 'manual'
        try:
            citation.abbrevDict = None
            net.update(n=0, fail=0, online=True, pages={})

            def out(fn, *errors):
                try:
                    return 'ok', fn()
                except urllib.error.URLError:
                    return 'URLError', None
                except (TypeError, KeyError, mk.mkExceptions.JournalDataBaseError) as e:
                    return type(e).__name__, None

            def serve(pairs, online=True, fail=0):
                pages = {x: [('Z' + x, 'Filler ' + x)] for x in ['0-9'] + list(string.ascii_uppercase)}
                for a, n in pairs:
                    pages[r.choice(sorted(pages))].append((a, n))
                for p in pages.values():
                    if r.random() < .5:
                        r.shuffle(p)
                net.update(n=0, online=online, pages=pages, fail=fail)
                ev.append({'op': 'serve', 'pages': [[text(a), text(n)] for x in ['0-9'] + list(string.ascii_uppercase) for a, n in pages[x]], 'online': online and not fail})

            def cit(a):
                return mk.Citation('Smith J, 1999, %s, V1, P2' % a if a else 'SMITH')
            serve([('A', 'x')] if r.random() < .5 else [])
            for op in ops:
                what, arg = op[0], op[1:]
                if what == 'serve':
                    serve(*arg)
                elif what == 'add':      # one abbreviation with names, by any of the ways there are
                    a, v = arg
                    if v == '' and r.random() < .7:
                        o, _ = out(lambda: backend.excludeFromDB(r.choice([a, [a], (a,)]), dbname=man))
                    elif v == a and r.random() < .7:
                        o, _ = out(lambda: mk.journalAbbreviations.addToDB(a, dbname=man))
                    else:
                        o, _ = out(lambda: mk.journalAbbreviations.addToDB({a: v}, dbname=man))
                    ev.append({'op': 'put', 'pairs': [[text(a), text(v)]], 'out': o})
                elif what == 'many':
                    pairs = arg[0]
                    if all(v == '' for a, v in pairs) and r.random() < .5:
                        o, _ = out(lambda: backend.excludeFromDB([a for a, v in pairs] or None, dbname=man))
                    else:
                        o, _ = out(lambda: backend.addToDB(dict(pairs) or None, dbname=man))
                    ev.append({'op': 'put', 'pairs': [[text(a), text(v)] for a, v in pairs], 'out': o})
                elif what == 'wrong':
                    f, x = r.choice([(backend.addToDB, 5), (backend.addToDB, ['A']), (backend.excludeFromDB, 5), (backend.excludeFromDB, {'A': 'x'}), (backend.addToDB, {'A': 5}), (backend.excludeFromDB, [5])])
                    o, _ = out(lambda: f(x, dbname=man))
                    ev.append({'op': 'wrong', 'out': o})
                elif what == 'update':
                    net['n'] = 0
                    o, _ = out(lambda: backend.updatej9DB(dbname=wos))
                    ev.append({'op': 'update', 'out': o})
                elif what == 'get':
                    which = arg[0]
                    net['n'] = 0
                    if len(arg) > 1 and (os.path.exists('db/listing.dat') and os.path.getsize('db/listing.dat') if which != 'manual' else os.path.exists('db/manual.dat')):      # another process
                        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import json, sys\nsys.path.insert(0, %r)\nimport metaknowledge as mk\nprint(json.dumps(mk.journalAbbreviations.getj9dict(*%r)))' % (
                            os.path.dirname(os.path.dirname(os.path.abspath(mk.__file__))), (wos, man, which))], capture_output=True, text=True)
                        import json
                        o, d = ('ok', json.loads(p.stdout)) if p.returncode == 0 else ('error', None)
                    else:
                        kw = {} if which == 'both' and r.random() < .5 else {'returnDict': which}
                        o, d = out(lambda: backend.getj9dict(dbname=wos, manualDB=man, **kw))
                    ev.append({'op': 'get', 'which': which, 'out': o, 'dict': sorted([[text(a), [text(n) for n in v]] for a, v in (d or {}).items()])})
                elif what == 'reopen':
                    citation.abbrevDict = None
                    ev.append({'op': 'reopen'})
                elif what in ('cite', 'load'):
                    a = arg[0] if arg and what == 'cite' else r.choice(CITABLE)
                    c = cit(a)
                    net['n'] = 0

                    def ask():
                        x = c.isJournal(dbname=wos, manualDB=man)
                        return bool(x), c.isJournal(dbname=wos, manualDB=man, checkIfExcluded=True), c.FullJournalName()
                    o, got = out(ask)
                    x = got or (False, False, None)
                    ev.append({'op': 'cite', 'a': text(a), 'has': bool(a), 'out': o, 'isj': x[0], 'exc': bool(x[1]), 'full': '-' if x[2] is None else text(x[2]) if isinstance(x[2], str) else '?'})
                elif what == 'citeadd':
                    a, v = arg
                    c = cit(a)
                    if v == '' and r.random() < .8:
                        kw = {'invert': True}
                    elif v == a and r.random() < .8:
                        kw = {}
                    else:
                        kw = {'manualName': v}
                    o, _ = out(lambda: c.addToDB(manualDB=man, **kw))
                    ev.append({'op': 'citeadd', 'a': text(a), 'has': bool(a), 'v': text(v), 'out': o})
                elif what == 'filter' and citation.abbrevDict is not None:
                    cs = [(a, cit(a)) for a in arg[0]]
                    inv = r.random() < .5
                    kept = mk.filterNonJournals([c for a, c in cs], **({'invert': True} if inv else {}))
                    ev.append({'op': 'filter', 'abbr': [text(a) for a in arg[0]], 'invert': inv, 'kept': [i + 1 for i, (a, c) in enumerate(cs) if any(c is x for x in kept)]})
        finally:
            citation.abbrevDict = None
            shutil.rmtree('db')
    try:
        for n, h in enumerate(hists[:ck.n(150, 4000)]):
            ops = []
            for what, a, v in h:
                if what == 'update':
                    ops += [('serve', [(a, v)]), ('update',)]
                else:
                    ops.append((what, a, v))
                ops.append(r.choice([('get', 'both'), ('get', 'manual'), ('cite', r.choice('AB'))]))
            ck.case('H%d' % n, 'history', lambda ev: run(ev, ops + [('get', 'both'), ('cite', 'A'), ('cite', 'B')]))
        for n in range(ck.n(120, 3000)):
            abbr = r.sample(CITABLE, 4) + r.sample(ODD, r.choice([0, 1, 2]))
            name = lambda a: r.choice(['', a, r.choice(NAMES), r.choice(NAMES), '|'.join(r.sample(NAMES, r.choice([2, 3])))])
            plain = [x for x in NAMES if '\n' not in x]
            ops = []
            for _ in range(r.choice([5, 10, 20])):
                a = r.choice(abbr)
                ops.append(r.choice([('add', a, name(a)), ('add', a, name(a)), ('many', [(x, name(x)) for x in r.sample(abbr, r.choice([0, 1, 2, 3]))]),
                                     ('many', [(x, '') for x in r.sample(abbr, r.choice([2, 4]))]), ('wrong',), ('update',), ('reopen',),
                                     ('serve', sorted({(r.choice([x for x in abbr if x.strip() == x]), r.choice(plain)) for _ in range(r.choice([1, 4, 8, 15]))}), r.random() < .8, r.choice([0, 0, 0, 1, 14, 27])),
                                     ('get', r.choice(['both', 'both', 'WOS', 'manual'])), ('get', r.choice(['both', 'manual'])), ('cite', r.choice(abbr[:4] + ['', a if a in CITABLE else 'A'])), ('cite', r.choice(abbr[:4])),
                                     ('citeadd', r.choice(abbr[:4]), name(a)), ('citeadd', r.choice(abbr[:4]), ''), ('citeadd', '', 'x') if r.random() < .2 else ('reopen',),
                                     ('filter', [r.choice(abbr[:4] + ['']) for _ in range(r.choice([0, 3, 6]))])]))
            if n % 5 == 0:       # a later listing with other names
                for names in (plain[:5], plain[1:], plain):
                    ops += [('serve', [(a, x) for a in abbr[:3] for x in r.sample(names, 2)]), ('update',)]
            ops += [('get', 'both'), ('get', 'WOS')] + [('cite', a) for a in abbr[:4]]
            if n % 40 == 0:
                ops += [('get', 'both', 'fresh'), ('get', 'manual', 'fresh')]
            ck.case('R%d' % n, 'random', lambda ev: run(ev, ops), limit=60)
    finally:
        urllib.request.urlopen = real
    ck.validate('Trace_Journals')
