"""Model-based verification framework: TLC runs, scenario extraction, trace recording
and trace validation, verdicts and evidence.

A check is a python module in /verif/checks with a function `main(ck)`.  It
  * model-checks the subsystem's specification          (ck.mc)
  * obtains scenarios generated by the specification     (ck.mc(..., emit=True) / ck.simulate)
  * replays them, and further random or recorded inputs, through the public API of
    the real code and records what happened              (ck.case)
  * has TLC decide each recorded trace against the spec  (ck.validate)
"""
import os, sys, json, re, time, random, shutil, signal, subprocess, tempfile, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MBV_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The machinery (not the code under test) failed: exit 2, never a verdict."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if not m:
            m = re.findall(r'(\d+) states generated', out)
            self.generated, self.distinct = (int(m[-1]), 0) if m else (0, 0)
        else:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r'Finished computing initial states: (\d+)(?: states? generated, with (\d+) of them distinct| distinct states? generated)', out)
        self.initial = int(m.group(2) or m.group(1)) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out

    def printed(self, tag):
        """Values printed with PrintT("tag " \\o ToJson(x))."""
        res = []
        for m in re.finditer(r'^"%s ((?:[^"\\]|\\.)*)"$' % re.escape(tag), self.out, re.M):
            res.append(json.loads(json.loads('"' + m.group(1) + '"', strict=False)))
        return res


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='mbv-%s-' % pid)
        os.chdir(self.tmp)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.groups = []      # (trace module, cases)
        self._cases = []
        self._ids = set()
        self._timeouts = 0
        self.notes = {}
        self.violations = []  # (case, eventIndex, clause)
        self.samples = []
        self.mcs = []
        self.kinds = {}
        self.assumptions = []
        signal.signal(signal.SIGALRM, _alarm)

    def dbg(self, msg):
        if os.environ.get('MBV_DEBUG'):
            print('[%.1f] %s' % (time.time() - self.t0, msg), flush=True)

    # ---- sizing
    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.thorough else 3 * quick

    # ---- TLC
    def _tlc(self, module, cfg_text, args, env=None, timeout=None, heap='4g'):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        cfg = os.path.join(d, 'run.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR,
               '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-deadlock', '-config', cfg] + args + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout or (3000 if self.thorough else 600))
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        out = p.stdout.decode('utf-8', 'replace')
        shutil.rmtree(d, ignore_errors=True)
        self.dbg('tlc %s %.1fs' % (module, time.time() - t))
        return TLCResult(p.returncode, out, time.time() - t)

    def mc(self, module, spec='Spec', invariants=(), properties=(), constants=None, view=None,
           emit=None, constraint=None, workers=None, post=None, heap='6g', minstates=2):
        """Exhaustive model checking of `module`; returns the values printed under `emit`."""
        cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec
        for i in invariants:
            cfg += 'INVARIANT %s\n' % i
        for p in properties:
            cfg += 'PROPERTY %s\n' % p
        for k, v in (constants or {}).items():
            cfg += 'CONSTANT %s %s\n' % (k, v if str(v).startswith('<-') else '= %s' % v)
        if view:
            cfg += 'VIEW %s\n' % view
        if constraint:
            cfg += 'CONSTRAINT %s\n' % constraint
        if post:
            cfg += 'POSTCONDITION %s\n' % post
        r = self._tlc(module, cfg, ['-workers', str(workers or 'auto')], heap=heap)
        if not r.ok:
            sys.stdout.write(r.out[-6000:])
            raise MachineryError('the model %s does not satisfy its own properties (or failed to run)' % module)
        if r.distinct < minstates:
            raise MachineryError('the model %s is vacuous' % module)
        self.states += r.distinct
        self.transitions += r.generated
        self.mcs.append({'module': module, 'distinct_states': r.distinct, 'states_generated': r.generated,
                         'invariants': list(invariants), 'properties': list(properties),
                         'constants': {k: str(v) for k, v in (constants or {}).items()}, 'wall_s': round(r.wall, 1)})
        return r.printed(emit) if emit else r

    def mc_fails(self, module, invariant, spec='Spec', constants=None, action=False):
        """The model variant must violate the invariant: the invariant can tell the two designs apart."""
        cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s %s\n' % (spec, 'PROPERTY' if action else 'INVARIANT', invariant)
        for k, v in (constants or {}).items():
            cfg += 'CONSTANT %s %s\n' % (k, v if str(v).startswith('<-') else '= %s' % v)
        r = self._tlc(module, cfg, ['-workers', 'auto'])
        if 'Invariant %s is violated' % invariant not in r.out and 'Action property %s is violated' % invariant not in r.out:
            sys.stdout.write(r.out[-3000:])
            raise MachineryError('%s does not fail on the wrong variant of %s' % (invariant, module))
        self.mcs.append({'module': module, 'mode': 'wrong variant violates ' + invariant, 'constants': {k: str(v) for k, v in (constants or {}).items()}, 'wall_s': round(r.wall, 1)})

    def simulate(self, module, num, depth, emit, spec='Spec', invariants=(), constants=None):
        """Random behaviours of `module`; the values printed under `emit` (one seed, one worker)."""
        cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec
        for i in invariants:
            cfg += 'INVARIANT %s\n' % i
        for k, v in (constants or {}).items():
            cfg += 'CONSTANT %s %s\n' % (k, v if str(v).startswith('<-') else '= %s' % v)
        r = self._tlc(module, cfg, ['-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth),
                                    '-seed', str(self.seed)])
        if 'Error:' in r.out:
            sys.stdout.write(r.out[-6000:])
            raise MachineryError('simulation of %s failed' % module)
        res = r.printed(emit)
        if not res:
            sys.stdout.write(r.out[-3000:])
            raise MachineryError('simulation of %s emitted nothing' % module)
        self.mcs.append({'module': module, 'mode': 'simulate', 'behaviours': len(res), 'depth': depth})
        return res

    # ---- recording
    def case(self, cid, kind, fn, limit=20, repro=None, **extra):
        """Run fn(ev) (which appends events to the list ev), record the case.
        `extra` are further fields of the case, available to the trace specification."""
        ev = []
        slow = self._timeouts   # once several cases never ended, the others get less time
        signal.setitimer(signal.ITIMER_REAL, limit if slow < 3 else min(limit, 4) if slow < 20 else 1, 1)   # again and again: the first may be swallowed
        try:
            fn(ev)
        except CaseTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self._timeouts += 1
            ev.append({'op': 'CRASH', 'exc': 'timeout', 'text': 'no result within %d s' % limit})
        except MachineryError:
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(REPO)]
            if not inrepo:
                signal.setitimer(signal.ITIMER_REAL, 0)
                # only the harness on the stack: wrong shape of a result, or a harness bug
                ev.append({'op': 'CRASH', 'exc': type(e).__name__ + '(unusable result)',
                           'text': ''.join(traceback.format_exception(e))[-1500:]})
            else:
                ev.append({'op': 'CRASH', 'exc': type(e).__name__,
                           'text': ''.join(traceback.format_exception(e))[-1500:]})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if cid in self._ids:
            raise MachineryError('duplicate case id ' + cid)
        self._ids.add(cid)
        c = {'id': cid, 'kind': kind, 'ev': ev}
        c.update(extra)
        if repro is not None:
            c['repro'] = repro
        self._cases.append(c)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return ev

    def validate(self, module, constants=None, chunk=4000):
        """Have TLC consume every recorded case with trace specification `module`."""
        cases, self._cases = self._cases, []
        for i in range(0, len(cases), chunk):
            self._validate(module, cases[i:i + chunk], constants)

    def _validate(self, module, cases, constants):
        path = os.path.join(self.tmp, 'cases-%d.json' % len(self.groups))
        slim = []
        for c in cases:
            d = {k: v for k, v in c.items() if k not in ('repro',)}
            d['ev'] = [({k: v for k, v in e.items() if k != 'text'} if e['op'] == 'CRASH' else e) for e in c['ev']]
            slim.append(d)
        with open(path, 'w') as f:
            json.dump(slim, f)
        bad = _json_trouble(slim)
        if bad:
            raise MachineryError('trace not representable in TLA+: ' + bad)
        self.groups.append((module, len(cases)))
        cfg = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANT InitSt <- MyInit\nCONSTANT StepOf <- MyStep\n'
        for k, v in (constants or {}).items():
            cfg += 'CONSTANT %s %s\n' % (k, v if str(v).startswith('<-') else '= %s' % v)
        r = self._tlc(module, cfg, ['-workers', 'auto'], env={'MBV_CASES': path}, heap='8g')
        expected = sum(len(c['ev']) + 1 for c in cases)
        for m in re.finditer(r'^"VERDICT (\d+) (\d+) ((?:[^"\\]|\\.)*)"$', r.out, re.M):
            v = (cases[int(m.group(1)) - 1], int(m.group(2)), json.loads('"' + m.group(3) + '"', strict=False))
            if v not in self.violations:
                self.violations.append(v)
        if not r.ok:
            m = None
            for m in re.finditer(r'^/\\ ci = (\d+)', r.out, re.M):
                pass
            evaluation = re.search(r'Error: (?:Attempted to|The first argument|The second argument|Evaluating|TLC threw|In evaluation|.*not in the domain|.*was not in|Applying|Cannot|Overflow)', r.out)
            if m is None or len(cases) == 0 or evaluation is None:
                sys.stdout.write(r.out[-5000:])
                raise MachineryError('trace validation with %s failed to run' % module)
            l = re.findall(r'^/\\ l = (\d+)', r.out, re.M)
            c = cases[int(m.group(1)) - 1]
            print('note: TLC could not evaluate case %s: %s' % (c['id'], r.out[evaluation.start():evaluation.start() + 4000].replace('\n', ' ')))
            self.violations.append((c, int(l[-1]) if l else 0, 'outcome outside the specification'))
            rest = [x for x in cases if x is not c]
            if len([v for v in self.violations if v[2] == 'outcome outside the specification']) < 4 and rest:
                self._validate(module, rest, constants)
            return
        if r.distinct != expected:
            sys.stdout.write(r.out[-3000:])
            raise MachineryError('%s consumed %d of %d trace states' % (module, r.distinct, expected))
        self.states += r.distinct
        self.transitions += r.distinct - len(cases)
        self.traces += len(cases)
        self.events += sum(len(c['ev']) for c in cases)
        for c in self.rng.sample(cases, min(2, len(cases))):
            s = json.dumps({'id': c['id'], 'kind': c['kind'], 'ev': c['ev'][:3]})
            self.samples.append({'trace_spec': module, 'case': c['id'], 'kind': c['kind'], 'trace': s[:1500]})

    # ---- verdict
    def finish(self):
        known = load_known(self.pid)
        new, old = [], []
        for c, l, clause in self.violations:
            k = next((k for k in known if k['case'] == c['id'] and k['clause'] == clause), None)
            (old if k else new).append((c, l, clause, k))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'model_runs': self.mcs, 'trace_specs': sorted({g[0] for g in self.groups}),
               'cases_by_kind': self.kinds, 'samples': self.samples[:8] or [{'note': 'no trace was validated'}]}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for c, l, clause, k in old:
            if k['line'] not in seen:
                seen.add(k['line'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if new:
            rd = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rd, exist_ok=True)
            # the shortest case of every clause first
            rank, counts = {}, {}
            for v in sorted(new, key=lambda v: len(v[0]['ev'])):
                counts[v[2]] = counts.get(v[2], 0) + 1
                rank[id(v)] = counts[v[2]]
            for c, l, clause, _ in sorted(new, key=lambda v: rank[id(v)])[:12]:
                name = '%s-%s.json' % (self.pid, hashlib.sha1((c['id'] + clause).encode()).hexdigest()[:10])
                p = os.path.join(rd, name)
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'case': c['id'], 'kind': c['kind'], 'event': l, 'clause': clause,
                               'seed': self.seed, 'tier': self.tier, 'trace': c['ev'], 'repro': c.get('repro'),
                               'extra': {k: v for k, v in c.items() if k not in ('ev', 'repro', 'id', 'kind')},
                               'rerun': 'VERIF_SEED=%d VERIF_TIER=%s /verif/check %s' % (self.seed, self.tier, self.pid)}, f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('  case %s event %d: %s' % (c['id'], l, clause))
            print('%d violation(s) in total: %s' % (len(new), ', '.join('%s (%d)' % p for p in sorted(counts.items()))))
            return 1
        print('%s ok: %d model states, %d traces / %d events validated, %.1fs' % (
            self.pid, sum(m.get('distinct_states', 0) for m in self.mcs), self.traces, self.events, time.time() - self.t0))
        return 0

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.tmp, ignore_errors=True)


def _json_trouble(x, path='$'):
    if x is None:
        return path + ' is null'
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return None if abs(x) < 2 ** 31 else path + ' is a large integer'
    if isinstance(x, float):
        return path + ' is a float'
    if isinstance(x, dict):
        if not x:
            return path + ' is an empty object'
        for k, v in x.items():
            t = _json_trouble(v, path + '.' + str(k))
            if t:
                return t
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            t = _json_trouble(v, '%s[%d]' % (path, i))
            if t:
                return t
    elif not isinstance(x, str):
        return '%s is a %s' % (path, type(x).__name__)
    return None


def load_known(pid):
    """Entries of known-findings.txt for the property (fixed: lines suppress nothing)."""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) case=(\S+) clause="([^"]*)" (.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append({'case': m.group(2), 'clause': m.group(3), 'what': m.group(4), 'line': line})
    return res


# ---- encodings: scalars become tagged strings so that TLC may compare any two of them
def enc(v):
    if v is None:
        return 'n:'
    if isinstance(v, bool):
        return 'b:%d' % v
    if isinstance(v, int):
        return 'i:%d' % v
    if isinstance(v, float):
        return 'f:%.9g' % v
    if isinstance(v, str):
        return 's:' + v
    if isinstance(v, bytes):
        return 'y:' + v.decode('latin-1')
    if isinstance(v, (list, tuple)):
        return 'l:' + json.dumps([enc(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return 'S:' + json.dumps(sorted(enc(x) for x in v))
    if isinstance(v, dict):
        return 'd:' + json.dumps([[enc(k), enc(x)] for k, x in v.items()])
    return 'o:%s:%s' % (type(v).__name__, v)


def num(v, bad=-999999999):
    """An integer observed where the property speaks of a count."""
    if isinstance(v, bool):
        return bad
    if isinstance(v, int) and abs(v) < 2 ** 31 - 1:
        return v
    try:
        import numpy
        if isinstance(v, numpy.integer) and abs(int(v)) < 2 ** 31 - 1:
            return int(v)
    except ImportError:
        pass
    if isinstance(v, float) and v == int(v):
        return bad
    return bad


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', class name); timeouts propagate."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('exc', type(e).__name__)


def run(pid, main):
    ck = None
    try:
        ck = Check(pid)
        main(ck)
        rc = ck.finish()
    except MachineryError as e:
        print('ERROR %s: %s' % (pid, e))
        rc = 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if ck:
            ck.close()
    sys.stdout.flush()
    os._exit(rc)
