"""C11: reading a directory with the cache on."""
import builtins, hashlib, json, os, pickle, re, resource, shutil, signal, subprocess, sys
import metaknowledge as mk
import mbv, dirs

HELPER = r'''
import sys, json
import metaknowledge as mk
for line in sys.stdin:
    d, ext, name, grants = json.loads(line)
    try:
        (mk.GrantCollection if grants else mk.RecordCollection)(d, extension=ext, name=name, cached=True)
        out = 'ok'
    except Exception as x:
        out = type(x).__name__
    sys.stdout.write(json.dumps([out, mk.__version__]) + '\n')
    sys.stdout.flush()
'''


class Old:
    """a program of another version, reading with the cache on"""
    def __init__(self, ck):
        src = os.path.dirname(os.path.abspath(mk.__file__))
        dst = os.path.join(ck.tmp, 'old', 'metaknowledge')
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns('tests', '__pycache__'))
        p = os.path.join(dst, 'constants.py')
        s = open(p, encoding='utf-8').read()
        s, n = re.subn(r"""(__version__\s*=\s*)(['"]).*?\2""", r"\1'0.0.1'", s)
        open(p, 'w', encoding='utf-8').write(s)
        self.p = None
        if n == 1:
            e = dict(os.environ)
            e['PYTHONPATH'] = os.path.join(ck.tmp, 'old')
            e['PYTHONDONTWRITEBYTECODE'] = '1'
            self.p = subprocess.Popen([sys.executable, '-c', HELPER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e,
                                      cwd=os.path.join(ck.tmp, 'old'), text=True)
            if self.read(ck.tmp, '.nothing', 'x', False) != ['ok', '0.0.1']:
                self.close()

    def read(self, *a):
        if self.p is None:
            return None
        try:
            self.p.stdin.write(json.dumps(a) + '\n')
            self.p.stdin.flush()
            return json.loads(self.p.stdout.readline())
        except (OSError, ValueError):
            return None

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def plain(L):
    """identities without the name of the file, which may be renamed"""
    for x in L['recs']:
        x['k'] = re.sub(r'^id:.*-l:', 'id:*-l:', x['k'])
    return L


def caches(d):
    return [os.path.join(d, n) for n in os.listdir(d) if n.endswith('DirCache')]


def net(C, grants):
    try:
        if grants:
            G = C.networkCoInvestigator()
        else:
            G = C.networkCoAuthor()
            H = C.networkCoCitation()
            return hashlib.sha1(repr((sorted((str(n), sorted(map(str, a.items()))) for n, a in G.nodes(data=True)), sorted(tuple(sorted(map(str, e))) for e in G.edges()),
                                      sorted(map(str, H.nodes())), H.number_of_edges())).encode('utf-8', 'surrogatepass')).hexdigest()[:16]
        return hashlib.sha1(repr((sorted(map(str, G.nodes())), sorted(tuple(sorted(map(str, e))) for e in G.edges()))).encode('utf-8', 'surrogatepass')).hexdigest()[:16]
    except Exception as x:
        return type(x).__name__


class Dir:
    def __init__(self, ck, cid, grants, old):
        self.ck, self.r, self.grants, self.old = ck, ck.rng, grants, old
        r = self.r
        self.make = mk.GrantCollection if grants else mk.RecordCollection
        self.d = os.path.join(ck.tmp, r.choice(['d-', 'd[x]-', 'd caf\u00e9-']) + cid)
        os.makedirs(self.d)
        style = r.choice(['.txt', 'mixed'])
        pre = r.choice(['', 'NSERC_'])
        self.names = {'a': (pre + 'a.csv' if grants else 'a.txt'), 'b': (pre + 'b.csv' if grants else 'b' + r.choice(['.txt', '.isi', ''])), 'c': (pre + 'c.csv' if grants else 'c.txt')}
        self.exts = ['', '.csv' if grants else '.txt']
        self.kinds = ['NSERCGrant' if pre else 'FallbackGrant'] if grants else dirs.RECORD + (['', ''] if r.random() < .25 else [])
        self.contents = {}
        self.scale = r.choice([1 / 512, 1 / 64, 1, 3600])
        self.when = {}
        self.slots = list(range(3, 400))
        r.shuffle(self.slots)
        self.where = {}     # real name -> content key
        self.ev = None

    def content(self, key, grow=True):
        """(data, stamp); the content of a key never changes"""
        if key not in self.contents:
            r = self.r
            kind = r.choice(self.kinds)
            n = len(self.contents) + 1
            ids = [dirs.PREFIX[kind] + '%d%d' % (n, j) for j in range(r.choice([1, 1, 2, 3]))] if kind else []
            p = os.path.join(self.ck.tmp, 'scratch')
            dam = bool(kind) and kind not in ('FallbackGrant', 'NSERCGrant') and r.random() < .2
            p = os.path.join(self.ck.tmp, 'scratch', self.names['a'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind:
                dirs.make(r, p, kind, ids, dam)
            else:
                dirs.put(p, dirs.nothing(r, self.grants))
            data = open(p, 'rb').read()
            x = {'s': key, 'kind': kind, 'keys': [], 'err': False}
            if kind:
                L = dirs.look(self.make(p))
                x['keys'] = [y['k'] for y in plain(L)['recs']]
                x['err'] = bool(L['errs'])
                x['kind'] = L['types'][0]
            os.remove(p)
            self.contents[key] = (data, x)
            self.when[key] = 1.4e9 + self.slots.pop() * self.scale
        return self.contents[key][0]

    def write(self, m, s):
        n = self.names[m]
        key = m + str(s)
        if key in self.where.values():
            return      # that content moved to another name and is still there
        p = os.path.join(self.d, n)
        data = self.content(key)
        with open(p, 'wb') as f:
            f.write(data)
        os.utime(p, (self.when[key], self.when[key]))
        self.where[n] = key
        self.ev.append({'op': 'write', 'name': n, 's': key})

    def remove(self, m):
        n = self.names[m]
        if n in self.where:
            os.remove(os.path.join(self.d, n))
            del self.where[n]
            self.ev.append({'op': 'remove', 'name': n})

    def rename(self, m, k):
        n, to = self.names[m], self.names[k]
        if n in self.where:
            os.rename(os.path.join(self.d, n), os.path.join(self.d, to))
            self.where[to] = self.where.pop(n)
            self.ev.append({'op': 'rename', 'name': n, 'to': to})

    def corrupt(self):
        r = self.r
        cs = caches(self.d)
        for p in cs:
            data = open(p, 'rb').read()
            k = r.randrange(8)
            if k == 0:
                data = data[:r.randrange(0, max(1, len(data)))]
            elif k == 1:
                data = data[:r.randrange(0, 40)]
            elif k == 2:
                data = bytes(r.randrange(256) for _ in range(r.choice([0, 5, 2000])))
            elif k == 3:
                data = pickle.dumps(r.choice([None, 3, [], (1, 2), ({}, []), ('a', 'b'), {'a': 1}, (None, None), ([1], 2), ({'Collection Name': 1}, None)]))
            elif k == 4:
                data = data[:-1]
            elif k == 5:
                data = b''
            elif k == 6:
                data = pickle.dumps(self.make())
            else:
                data = b'cnowhere\nNothing\n.' + data
            open(p, 'wb').write(data)
        self.ev.append({'op': 'corrupt', 'n': len(cs)})

    def hooked(self, fn, hook):
        """run fn; hook(k) is called before the k-th data file is first opened, and with 'cache' before a cache is written"""
        real = builtins.open
        seen = []
        top = os.path.realpath(self.d)

        def opener(file, mode='r', *a, **k):
            try:
                p = os.path.abspath(file) if isinstance(file, (str, os.PathLike)) else ''
            except Exception:
                p = ''
            if os.path.dirname(os.path.realpath(p)) == top and p:
                if 'w' in mode or 'x' in mode or 'a' in mode:
                    hook('cache')
                elif not p.endswith('DirCache') and p not in seen:
                    seen.append(p)
                    hook(len(seen))
            return real(file, mode, *a, **k)
        builtins.open = opener
        try:
            return fn()
        finally:
            builtins.open = real

    def race(self, cname, ext, edits):
        """edits: [(number of files read before, member, stamp)]"""
        left = list(edits)
        real = builtins.open
        done = []

        def hook(k):
            now = builtins.open
            builtins.open = real
            while left and (k == 'cache' or left[0][0] < k):
                _, m, s = left.pop(0)
                self.write(m, s)
                done.append(k)
            builtins.open = now
        try:
            self.hooked(lambda: self.make(self.d, extension=ext, name=cname, cached=True), hook)
            out = 'ok'
        except Exception as x:
            out = 'exc:' + type(x).__name__
        for _, m, s in left:
            self.write(m, s)
        self.ev.append({'op': 'race', 'out': out, 'n': len(done)})
        self.ck.notes['races'] = self.ck.notes.get('races', 0) + len(done)

    def crash(self, cname, ext, files, writing):
        r = self.r
        size = max([os.path.getsize(p) for p in caches(self.d)] or [6000])
        limit = r.choice([0, 1, 2, 10, r.randrange(0, 300), r.randrange(0, size + 50), r.randrange(0, size + 50), max(0, size - r.randrange(0, 4))])
        hard = r.random() < .7
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if writing:
                    if hard:
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    self.make(self.d, extension=ext, name=cname, cached=True)
                else:
                    self.hooked(lambda: self.make(self.d, extension=ext, name=cname, cached=True), lambda k: os._exit(3) if k == 'cache' or k > files else None)
            finally:
                os._exit(4)
        _, status = os.waitpid(pid, 0)
        self.ev.append({'op': 'crash', 'status': status, 'limit': limit})
        self.ck.notes['crashes'] = self.ck.notes.get('crashes', 0) + 1

    def old_read(self, cname, ext):
        """another version reads other contents of the same times"""
        if self.old.p is None:
            return
        saved = []
        for n, key in self.where.items():
            p = os.path.join(self.d, n)
            saved.append((p, self.contents[key][0], self.when[key]))
            data = self.content('old' + key)
            open(p, 'wb').write(data)
            os.utime(p, (self.when[key], self.when[key]))
        out = self.old.read(self.d, ext, cname, self.grants)
        for p, data, t in saved:
            open(p, 'wb').write(data)
            os.utime(p, (t, t))
        self.ev.append({'op': 'race', 'out': str(out), 'n': 0})
        self.ck.notes['other_version_reads'] = self.ck.notes.get('other_version_reads', 0) + 1

    def files(self):
        return [x for x in dirs.snapshot(self.d) if not x[0].endswith('DirCache')]

    def read(self, cname, ext):
        def one(cached):
            e = {'out': 'ok', 'name': '', 'deep': [], 'net': ''}
            e.update(dirs.EMPTY)
            C = None
            try:
                k = {'cached': True} if cached else {}
                C = self.make(self.d, extension=ext, name=cname, **k)
                e.update(plain(dirs.look(C)))
                e['name'] = str(C.name)
                e['deep'] = sorted(dirs.deep(R) for R in C)
                e['net'] = net(C, self.grants)
            except Exception as x:
                e['out'] = 'exc:' + type(x).__name__
            return C, e
        before = self.files()
        A, a = one(True)
        un = self.files() == before
        B, b = one(False)
        e = {'op': 'read', 'ext': ext, 'cached': a, 'plain': b, 'untouched': un, 'equal': True, 'mutual': True}
        if A is not None and B is not None:
            e['equal'] = bool(A == B and B == A and not A != B and hash(A) == hash(B))
            e['mutual'] = all(R in A for R in B) and all(R in B for R in A) and {hash(R) for R in A} == {hash(R) for R in B}
        self.ev.append(e)

    def table(self):
        return [x for k, (_, x) in self.contents.items() if not k.startswith('old')]


def segment(h, i):
    """the interleaved steps of the reading that starts at h[i]: (edits, steps, end, next index)"""
    j, edits, steps, end = i + 1, [], 0, ''
    begun = False
    while j < len(h) and h[j]['op'] in ('write', 'file', 'begin', 'end', 'crash'):
        o = h[j]
        if o['op'] == 'write':
            edits.append((steps if not begun else 99, o['n'], o['s']))
        elif o['op'] == 'file':
            steps += 1
        elif o['op'] == 'begin':
            begun = True
        else:
            end = 'crash writing' if o['op'] == 'crash' and begun else o['op']
            j += 1
            break
        j += 1
    if not end and not steps and not begun:
        return [], 0, 'cache', i + 1
    return edits, steps, end, j


def main(ck):
    r = ck.rng
    C = {'Names': '{"a", "b"}', 'MaxStamp': 3 if not ck.thorough else 4, 'Times': '"both"', 'MaxHist': 0}
    ck.mc('MC_Cache', invariants=['Exact', 'ServedExactly', 'Restored'], constants=C)
    for t in ('before', 'after'):
        ck.mc_fails('MC_Cache', 'Exact', constants=dict(C, Times='"%s"' % t, MaxStamp=3))
    C = {'Names': '{"a", "b", "c"}', 'MaxStamp': 4, 'Times': '"both"', 'MaxHist': 16}
    hists = ck.simulate('MC_Cache', ck.n(160, 2500), 18, 'H', invariants=['EmitHist', 'Exact', 'ServedExactly'], constants=C)
    old = Old(ck)
    try:
        for n, h in enumerate(hists):
            grants = n % 4 == 3
            cid = 'H%d' % n
            D = Dir(ck, cid, grants, old)
            main_ext = r.choice(D.exts)
            main_name = r.choice(['', 'n'])

            def ext():
                return main_ext if r.random() < .85 else r.choice(D.exts)

            def go(ev):
                D.ev = ev
                i = 0
                while i < len(h):
                    o = h[i]
                    if o['op'] == 'start':
                        for m in o['f']:
                            D.write(m, 1)
                    elif o['op'] == 'write':
                        D.write(o['n'], o['s'])
                        if r.random() < .5:
                            D.read(main_name, main_ext)
                    elif o['op'] == 'remove':
                        D.remove(o['n'])
                    elif o['op'] == 'rename':
                        D.rename(o['n'], o['m'])
                    elif o['op'] == 'corrupt':
                        if not caches(D.d):
                            D.read(main_name, main_ext)
                        D.corrupt()
                    elif o['op'] == 'start read':
                        edits, steps, end, j = segment(h, i)
                        before = [(k[0], k[1:]) for x, k in D.where.items() if x == D.names[k[0]]]
                        if o['v'] == 'old':
                            D.old_read(o['cn'], ext())
                            for _, m, s in edits:
                                D.write(m, s)
                        elif end.startswith('crash'):
                            for _, m, s in edits:
                                D.write(m, s)
                            D.crash(o['cn'], ext(), steps, end == 'crash writing' or r.random() < .5)
                        elif edits:
                            D.race(o['cn'], main_ext, edits)
                            if r.random() < .3:
                                D.read(o['cn'], main_ext)
                        else:
                            D.read(o['cn'], ext())
                            if r.random() < .3:
                                D.read(o['cn'], main_ext)
                        if edits and r.random() < .5:
                            # what was there before comes back, with its time
                            for m, s in before:
                                D.write(m, s)
                            D.read(o['cn'], main_ext)
                        i = j - 1
                    i += 1
                for _ in range(2):
                    D.read(main_name, main_ext)
            t = []
            ev = []
            try:
                go(ev)
            except mbv.CaseTimeout:
                raise
            ck.case(cid, 'grants' if grants else 'records', lambda e: e.extend(ev), table=D.table() or [{'s': 'none', 'kind': '', 'keys': [], 'err': False}], repro={'history': h})
    finally:
        old.close()
    ck.validate('Trace_Cache')
