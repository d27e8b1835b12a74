"""C33: sessions of the command line program."""
import builtins, code, contextlib, csv, hashlib, io, json, os, re, shutil, sys
import networkx as nx
import metaknowledge as mk
import metaknowledge.bin.metaknowledgeCLI as cli
import metaknowledge.genders.nameGender as ng
from metaknowledge.journalAbbreviations import backend
import net, graphs, recs
from graphs import NONE


class Exhausted(BaseException):
    pass


def world(r):
    """the abstract records of every path, by file"""
    rs = []
    for a in net.random_records(r, r.choice([3, 4, 6, 9]), dupauth=False):
        au = a['raw'].get('AU') or ['Own A']
        raw = dict(a['raw'], AU=au, AF=a['raw'].get('AF') or au, PY=a['raw'].get('PY') or ['2001'], DE=['; '.join(r.sample(['alpha', 'beta', 'gamma x'], r.choice([1, 2])))])
        rs.append(dict(a, raw=raw))
    cut = sorted(r.sample(range(len(rs) + 1), 2)) if len(rs) > 3 else [1, 2]
    parts = [rs[:cut[0]], rs[cut[0]:cut[1]], rs[cut[1]:]]
    return {'f1.isi': parts[0] or rs[:1], 'f2.isi': parts[1] or rs[-1:], os.path.join('d1', 'a.isi'): parts[2] or rs[:1], os.path.join('d1', 'b.txt'): r.sample(rs, 1)}


def lay(files):
    os.makedirs('d1')
    for n, rs in files.items():
        net.collection(rs).writeFile(n)


def load(paths, ext=''):
    C = mk.RecordCollection(name='')
    for p in paths:
        C |= mk.RecordCollection(os.path.abspath(p), extension=ext)
    return C


def unheard(C):
    return {c.journal for R in C for c in R.get('citations', []) if getattr(c, 'journal', None) and c.journal not in net.JD}


def mark(R):
    body = repr(sorted((k, list(v)) for k, v in R.items(raw=True)))
    return R.id + ' ' + hashlib.sha1(body.encode('utf-8', 'surrogatepass')).hexdigest()[:12]


def rows(path):
    with open(path, newline='', encoding='utf-8') as f:
        t = list(csv.reader(f))
    return [recs.text(json.dumps(sorted(p for p in zip(t[0], x) if p[1]))) for x in t[1:]]


def number(x):
    try:
        return int(float(x))
    except (TypeError, ValueError):
        return NONE


def build(C, n):
    t = n['tags']
    return {'one': lambda: C.networkOneMode(t[0]), 'two': lambda: C.networkTwoMode(t[0], t[1]), 'multi': lambda: C.networkMultiMode(t),
            'citation': C.networkCitation, 'cocitation': C.networkCoCitation, 'coauthor': C.networkCoAuthor}[n['k']]()


def plain(G):
    return {'directed': G.is_directed(), 'multi': False,
            'nodes': [{'id': recs.text(str(n)), 'c': number(d.get('count'))} for n, d in G.nodes(data=True)],
            'edges': [{'a': recs.text(str(a)), 'b': recs.text(str(b)), 'w': number(d.get('weight'))} for a, b, d in G.edges(data=True)]}


def content(n, start):
    """what a file holds, by what it looks like"""
    res = {'op': 'file', 'n': n, 'k': 'odd', 'rows': [], 'nodes': [], 'edges': []}
    data = open(n, encoding='utf-8').read()
    if n in start and data == 'old ' + n:
        return dict(res, k='old')
    if n.endswith('.txt'):
        return dict(res, k='records', rows=[mark(R) for R in mk.RecordCollection(os.path.abspath(n))])
    if n.endswith('.graphml'):
        return dict(res, k='graphml', **{k: v for k, v in plain(nx.read_graphml(n)).items() if k in ('nodes', 'edges')})
    with open(n, newline='', encoding='utf-8') as f:
        t = list(csv.DictReader(f))
        f.seek(0)
        head = next(csv.reader(f), [])
    if head[:2] == ['Source', 'Target']:
        return dict(res, k='edges', edges=[{'a': recs.text(x['Source']), 'b': recs.text(x['Target']), 'w': number(x.get('weight'))} for x in t])
    if head[:1] == ['ID']:
        return dict(res, k='nodes', nodes=[{'id': recs.text(x['ID']), 'c': number(x.get('count'))} for x in t])
    if 'PT' in head and 'UT' in head or head[:2] == ['UT', 'PT'] or 'id' in head:
        return dict(res, k='table', rows=rows(n))
    return dict(res, k='cites', rows=[recs.text(x) for x in data.split('\n')[:-1]])


def listing(files):
    return sorted(n for n in os.listdir('.') if n not in ('d1', 'db') and n not in files)


def session(ck, ev, files, w, start, said, unknown, flags=()):
    """one session; the events of it"""
    net.use_journals()   # as in a new session
    os.mkdir('db')
    where = os.path.relpath(os.path.realpath(os.getcwd()), os.path.realpath(os.path.dirname(backend.__file__)))
    for n in start:
        with open(n, 'w', encoding='utf-8') as f:
            f.write('old ' + n)
    out, todo, last = io.StringIO(), list(said), [None]
    more = False

    def mention(text):
        lines = [x for x in text.splitlines() if x]
        stats = [list(map(int, re.findall(r'(?<!\S)\d+', x))) for x in lines if 'isolated' in x]
        count = [list(map(int, re.findall(r'(?<!\S)\d+', x))) for x in lines if 'records' in x and 'created' in x]
        return {'stats': stats[-1] if stats else [], 'count': count[-1] if count else []}

    def report():
        text = out.getvalue()
        out.seek(0)
        out.truncate()
        e = dict(mention(text), disk=listing(files))
        ev.append(dict(e, op='begin') if last[0] is None else dict(e, op='say', a=last[0]))

    def ask(prompt=''):
        report()
        if not todo:
            raise Exhausted()
        last[0] = todo.pop(0)
        if last[0] == 'db/m':
            return where + '/db/m'
        if last[0] == '^C':
            raise KeyboardInterrupt
        return last[0]

    def console(banner=None, local=None, **k):
        ev.append({'op': 'console', 'a': last[0], 'ids': [mark(R) for R in (local or {}).get('RC') or []], 'net': (local or {}).get('G') is not None})

    keep = sys.argv, builtins.input, code.interact, mk.VERBOSE_MODE
    cli.RC = cli.G = None
    sys.argv = ['metaknowledge'] + list(flags) + (['--name', w['name']] if w['name'] else []) + (['--'] if flags and not ck.rng.randrange(3) else []) + w['args']
    builtins.input, code.interact = ask, console
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                x = cli.mkCLI()
                result = 'error' if isinstance(x, Exception) else 'done' if x == 1 else 'interrupt' if x == 0 else 'odd'
                why = str(x)[:200]
            except SystemExit as x:
                result, why = 'quit' if not x.code else 'error', ''
            except Exhausted:
                result, why, more = 'asking', '', True
    finally:
        sys.argv, builtins.input, code.interact, mk.VERBOSE_MODE = keep
    if not more:
        report()
    db = backend.getj9dict(manualDB=where + '/db/m', returnDict='manual') if os.path.exists('db/m.dat') else {}
    name = getattr(cli.RC, 'name', '~') if cli.RC is not None else '~'
    ev.append({'op': 'end', 'result': result, 'why': recs.text(why), 'left': len(todo), 'more': more, 'name': recs.text(str(name)),
               'added': len([k for k, v in db.items() if v == [k] and k in unknown]), 'skipped': len([k for k, v in db.items() if v == [''] and k in unknown])})
    for n in listing(files):
        ev.append(content(n, start))


def main(ck):
    r = ck.rng
    k = {'Design': '"right"', 'Wide': 'TRUE'}
    ck.mc('MC_Cli', invariants=['Safe', 'Ended', 'Done', 'Network', 'One', 'Chosen', 'JournalsOnce'], constants=dict(k, Depth=6 if ck.thorough else 5, Unknown='{0, 2}'))
    ck.mc_fails('MC_Cli', 'Safe', constants={'Depth': 5, 'Design': '"hasty"', 'Wide': 'FALSE', 'Unknown': '{0}'})
    base = os.getcwd()
    net.use_journals()
    ng.mappingDict = {'K': 'Female', 'Q': 'Male'}
    ss = ck.simulate('MC_Cli', ck.n(250, 4000), 40, 'S', spec='RSpec', constants=dict(k, Depth=30, Unknown='{0}'))
    seen = set()

    def one(cid, kind, x, files=None, strict=False, ext=None):
        files = files or world(r)
        d = os.path.join(base, cid)
        os.makedirs(d)
        os.chdir(d)
        try:
            lay(files)
            ext = r.choice(['', '', '.isi']) if ext is None else ext
            C = load(x['files'], ext)
            holds = [[p, [mark(R) for R in load([p], ext)]] for p in ('f1.isi', 'f2.isi', 'd1')]
            C.writeCSV('t')
            table = rows('t') if len(C) else []
            os.unlink('t')
            net.use_journals()
            unknown = unheard(C)
            cites = [[recs.text(str(c)), bool(c.isJournal())] for R in C for c in R.get('citations', [])]
            G = plain(build(C, x['net'])) if x['net']['k'] else {'directed': False, 'multi': False, 'nodes': [], 'edges': []}
            flags = (['-s', ext] if ext else []) + r.choice([[], ['-q'], ['-v']])
            ck.case(cid, kind, lambda ev: session(ck, ev, files, x['w'], x['start'], x['said'], unknown, flags), w=dict(x['w'], unknown=len(unknown)), start=x['start'], holds=holds, table=table,
                    cites=cites, base=G, strict=strict, repro={'said': x['said'], 'flags': flags})
        finally:
            os.chdir(base)
            shutil.rmtree(d)
    for x in ss:
        key = json.dumps(x, sort_keys=True)
        if key not in seen:
            seen.add(key)
            one('S%d' % len(seen), 'session', x)
    # sessions over journals: as many answers as there are journals to ask about
    js = ck.simulate('MC_Cli', ck.n(30, 400), 20, 'S', spec='RSpec', constants=dict(k, Depth=12, Unknown='{1, 2, 3}'))
    for n, x in enumerate(x for x in js if x['files']):
        for _ in range(40):
            files = world(r)
            if x['w']['unknown'] == len(unheard(R for p, rs in files.items() if p.split(os.sep)[0] in x['files'] for R in net.collection(rs))):
                one('J%d' % n, 'journals', x, files, ext='')
                break
    W = {'args': ['f1.isi'], 'name': '', 'files': ['d1', 'f1.isi', 'f2.isi'], 'tags': ['AF', 'DE', 'PY'], 'unknown': 0}
    A = [net.arec('WOS:%04d' % i, au=a, af=a, py=2000 + i, DE=['alpha']) for i, a in enumerate([['Lee, K', 'Zed, Q'], ['Lee, K', 'Zed, Q', 'Vos, L'], ['Lee, K', 'Tum, P'], ['Lee, K', 'Zed, Q']])]
    fixed = {'f1.isi': A, 'f2.isi': A[:1], os.path.join('d1', 'a.isi'): A[:1], os.path.join('d1', 'b.txt'): A[1:2]}
    for cid, step in (('KF-edges-above', '4'), ('KF-nodes-above', '6')):
        one(cid, 'fixed', {'w': W, 'start': [], 'said': ['1', '1', 'AF', step, '2', '0', '4', 'g'], 'net': {'k': 'one', 'tags': ['AF']}, 'files': ['f1.isi']}, fixed, True)
    ck.validate('Trace_Cli')
