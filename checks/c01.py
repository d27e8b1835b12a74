"""C01: collection set algebra over any history of operations."""
import copy as _copy
from mbv import outcome
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord
from metaknowledge.grants.nsercGrant import NSERCGrant


class World:
    """Real collections behind the handles, and the labelling of elements."""
    BADKEYS = ('x', 'y')

    def __init__(self, kind, handles, variant=0):
        self.kind, self.handles, self.variant = kind, handles, variant
        self.cls = mk.RecordCollection if kind == 'rc' else mk.GrantCollection
        self.c = {h: self.cls() for h in handles}
        self.fresh = 0

    def elem(self, k):
        return {'k': k, 'id': 'none' if k in self.BADKEYS else k, 'bad': k in self.BADKEYS}

    def make(self, k):
        """A fresh real record: equal IDs (or content, for damaged ones) make equal elements."""
        self.fresh += 1
        if self.kind == 'rc':
            if k in self.BADKEYS:
                return WOSRecord({'TI': ['damaged ' + k]})
            # content deliberately differs between objects with the same ID
            return WOSRecord({'UT': [k], 'TI': ['title %d' % self.fresh]})
        if k in self.BADKEYS:
            g = NSERCGrant('row ' + k, {'Cle': '', 'T': k}, '', 1)
            g._id = 'none'
            return g
        return NSERCGrant('row', {'Cle': k, 'T': 't%d' % self.fresh}, '', 1)

    def idname(self, i):
        """The ID used in the specification -> the real one."""
        if self.kind == 'rc':
            return 'WOS:Missing' if i == 'none' else i
        return 'none' if i == 'none' else 'NSERC:' + i

    def label(self, R):
        if R.bad:
            return R.get('TI', ['?'])[-1] if self.kind != 'rc' and 'T' not in R else (str(R.get('title')).split()[-1] if self.kind == 'rc' else R['T'])
        i = R.id
        return i if self.kind == 'rc' else i.replace('NSERC:', '', 1)

    def project(self):
        post = {}
        for h, C in self.c.items():
            els = sorted((self.label(R) for R in C))
            post[h] = {'els': [self.elem(k) for k in els], 'bad': bool(C.bad),
                       'errs': sorted([str(f), str(m)] for f, m in C.errors.items())}
        return post

    def set(self, h, keys, bad, errs, how=0):
        recs = [self.make(k) for k in keys]
        C = self.build(recs, how)
        C.bad = bad
        C.errors = {f: m for f, m in errs}
        self.c[h] = C

    def build(self, recs, how):
        if how == 1:
            return self.cls((r for r in recs))
        if how == 2:
            return self.cls(set(recs), quietStart=True)
        if how == 3:
            C = self.cls()
            for r in recs:
                C.add(r)
            return C
        if how == 4:
            return self.cls(recs + [self.make(self.label(r)) for r in recs])  # duplicates collapse
        if how == 5:
            return self.cls(iter(self.cls(recs, name='src')))
        return self.cls(recs, name='N')

    def do(self, o, rng):
        c, op = self.c, o['op']
        ev = dict(o)
        out = 'ok'
        try:
            if op == 'new':
                keys = list(o['keys'])
                rng.shuffle(keys)
                c[o['h']] = self.build([self.make(k) for k in keys], rng.randrange(6))
                ev['elems'] = [self.elem(k) for k in keys]
                del ev['keys']
            elif op == 'mark':
                errs = {'f1': [['f1', 'm1']], 'f2': [['f1', 'm2']], 'f3': [['f3', 'm1']]}[o['f']]
                c[o['h']].bad = True
                c[o['h']].errors.update({a: b for a, b in errs})
                ev['errs'] = errs
            elif op in ('add', 'discard', 'remove'):
                ev['elem'] = self.elem(o['k'])
                getattr(c[o['h']], op)(self.make(o['k']))
            elif op == 'addbad':
                c[o['h']].add(rng.choice(['str', 17, mk.GrantCollection() if self.kind == 'rc' else mk.RecordCollection()]))
            elif op == 'pop':
                out = 'el:' + self.label(c[o['h']].pop())
            elif op == 'clear':
                c[o['h']].clear()
            elif op == 'or':
                c[o['d']] = c[o['h']] | c[o['g']]
            elif op == 'and':
                c[o['d']] = c[o['h']] & c[o['g']]
            elif op == 'sub':
                c[o['d']] = c[o['h']] - c[o['g']]
            elif op == 'xor':
                c[o['d']] = c[o['h']] ^ c[o['g']]
            elif op == 'plus':
                c[o['d']] = c[o['h']] + c[o['g']]
            elif op in ('ior', 'iand', 'isub', 'ixor'):
                x = c[o['h']]
                if op == 'ior': x |= c[o['g']]
                elif op == 'iand': x &= c[o['g']]
                elif op == 'isub': x -= c[o['g']]
                else: x ^= c[o['g']]
                if x is not c[o['h']]:
                    out = 'not in place'
                c[o['h']] = x
            elif op == 'copy':
                c[o['d']] = c[o['h']].copy() if rng.random() < .7 else _copy.copy(c[o['h']]).copy()
            elif op == 'discardID':
                c[o['h']].discardID(self.idname(o['id']))
            elif op == 'removeID':
                c[o['h']].removeID(self.idname(o['id']))
            elif op == 'look':
                C = c[o['h']]
                ev['has'] = bool(C.containsID(self.idname(o['id'])))
                g = C.getID(self.idname(o['id']))
                ev['got'] = 'none' if g is None else 'el:' + self.label(g)
                ev['len'] = len(C)
                ev['members'] = [{'elem': self.elem(k), 'in': self.make(k) in C} for k in ('a', 'b', 'x')]
            elif op == 'cmp':
                a, b = c[o['h']], c[o['g']]
                ev['eq'], ev['ne'] = a == b, a != b
                ev['samehash'] = hash(a) == hash(b)
            elif op == 'dropbad':
                c[o['h']].dropBadEntries()
            elif op == 'badentries':
                c[o['d']] = c[o['h']].badEntries()
            elif op == 'cross':
                x = c[o['h']]
                other = mk.GrantCollection() if self.kind == 'rc' else mk.RecordCollection()
                w = o['o']
                if w == 'or': x | other
                elif w == 'and': x & other
                elif w == 'sub': x - other
                else: x ^ other
            else:
                raise RuntimeError(op)
        except Exception as e:
            out = 'exc:' + type(e).__name__
        ev['out'] = out
        ev['post'] = self.project()
        ev.pop('keys', None)
        return ev


def replay(ck, cid, kind, handles, pre, ops):
    w = World(kind, handles)
    for i, h in enumerate(handles):
        w.set(h, pre[h]['keys'], pre[h]['bad'], pre[h]['errs'], how=ck.rng.randrange(6))
    pre_p = w.project()

    def fn(ev):
        for o in ops:
            ev.append(w.do(o, ck.rng))
    ck.case(cid, kind + ('-step' if len(ops) == 1 else '-history'), fn, pre=pre_p, repro={'pre': pre, 'ops': ops, 'collection': kind})


def main(ck):
    H2 = '{"1", "2"}'
    # every reachable pair of collections, every operation: laws, frame, and one replayed test per transition
    trans = ck.mc('MC_Collection', spec='SpecEmit', view='View', emit='T', workers=1,
                  invariants=['TypeOK', 'ErrsImplyBad', 'Laws'], properties=['Frame'],
                  constants={'H': H2, 'Elems': '{"a", "b", "x"}' if not ck.thorough else '{"a", "b", "x", "y"}', 'Errs': '{"f1", "f2"}' if ck.thorough else '{"f1"}', 'MaxLen': 0})
    seen, uniq = set(), []
    for t in trans:
        key = repr(t)
        if key not in seen:
            seen.add(key)
            uniq.append(t)
    ck.notes['model_transitions'] = len(uniq)
    pick = uniq if ck.thorough and len(uniq) < 60000 else ck.rng.sample(uniq, min(len(uniq), ck.n(3500, 60000)))
    ck.notes['model_transitions_replayed'] = len(pick)
    for i, t in enumerate(pick):
        t['o'].setdefault('op', '')
        replay(ck, 'T%d' % i, ck.rng.choice(['rc', 'rc', 'gc']) if t['o']['op'] != 'plus' else 'rc', ['1', '2'], t['c'], [t['o']])
    hists = ck.simulate('MC_Collection', ck.n(50, 1500), 28, 'H', invariants=['EmitHist', 'TypeOK', 'ErrsImplyBad'],
                        constants={'H': '{"1", "2", "3"}', 'Elems': '{"a", "b", "c", "x", "y"}', 'Errs': '{"f1", "f2", "f3"}', 'MaxLen': 25})
    empty = {h: {'keys': [], 'bad': False, 'errs': []} for h in '123'}
    for i, h in enumerate(hists):
        kind = ['rc', 'gc'][i % 2]
        ops = [o for o in h if not (kind == 'gc' and o['op'] == 'plus')]
        replay(ck, 'H%d' % i, kind, list('123'), empty, ops)
    ck.validate('Trace_Collection')
