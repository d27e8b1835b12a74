"""C24: statistics of the citations made."""
import metaknowledge as mk
import citing
from mbv import num
import diffusion as df


def key(v):
    if isinstance(v, mk.Citation):
        return 'c:' + v.ID()
    if v is None:
        return 'none'
    if isinstance(v, str):
        return 's:' + v
    return 'i:%d' % v if type(v) is int else 'o:%s' % v


def share(x):
    return -1 if x is None else round(x * 1000000) if isinstance(x, (int, float)) else -5


def rows(d, counts):
    n = {len(v) for v in d.values()}
    if len(n) != 1 or not {'citeString', 'year', 'journal', 'author'} <= set(d):
        return [{'text': 'uneven columns'}]
    out = []
    for i in range(n.pop()):
        e = {'text': d['citeString'][i], 'year': key(d['year'][i]), 'journal': key(d['journal'][i]), 'author': key(d['author'][i])}
        if counts:
            e.update(n=num(d['num-cites'][i]), all=share(d['fraction-cites-overall'][i]), inyear=share(d['fraction-cites-year'][i]))
        out.append(e)
    return out


def main(ck):
    r = ck.rng
    inv = ['Totals', 'Additive', 'Cut', 'Bounds', 'Spectrum']
    ck.mc('MC_CiteStats', invariants=inv, constants={'MaxRecs': 2 if not ck.thorough else 3, 'CountOnce': 'FALSE', 'OnlyInside': 'FALSE'})
    ck.mc_fails('MC_CiteStats', 'Totals', constants={'MaxRecs': 1, 'CountOnce': 'TRUE', 'OnlyInside': 'FALSE'})
    ck.mc_fails('MC_CiteStats', 'Cut', constants={'MaxRecs': 2, 'CountOnce': 'FALSE', 'OnlyInside': 'TRUE'})
    for n in range(ck.n(450, 6000)):
        years = r.choice([list(range(1996, 2004)), [1999, 2000, 2001, 2002], list(range(1980, 2016)), [1999, 2000, 2005, 12345], [995, 1000, 1003], [2095, 2099, 2101, 2103]])
        col = citing.collection(r, r.choice([1, 2, 3, 5, 8]), years, scopus=r.choice([0, 0, .3]))

        def go(ev):
            real = [citing.build(a) for a in col]
            order = list(range(len(real)))
            r.shuffle(order)
            RC = mk.RecordCollection([real[i] for i in order], name='C')
            before = df.snapshot(RC, RC)
            mk.VERBOSE_MODE = False
            for _ in range(4):
                op = r.choice(['stats', 'cites', 'list', 'rpys', 'rpys'])
                if op == 'stats':
                    kt = r.choice(['citation', 'citation', 'author', 'journal', 'year'])
                    p = r.random() < .4
                    k = {} if kt == 'citation' and r.random() < .5 else {'keyType': kt}
                    d = RC.localCiteStats(pandasFriendly=p, **k)
                    items = list(zip(d['Citations'], d['Counts'])) if p else list(d.items())
                    if p and len(d['Citations']) != len(d['Counts']):
                        items.append(('uneven', -1))
                    ev.append({'op': 'stats', 'key': kt, 'got': [{'k': key(x), 'n': num(c)} for x, c in items]})
                elif op in ('cites', 'list'):
                    field = r.choice(['', '', 'year', 'author', 'journal', 'V', 'P', 'DOI'])
                    some = [getattr(c, field, None) for R in real for c in R.get('citations', [])] if field else ['x']
                    some = [x for x in some if x is not None] + ['nope', 1066]
                    values = r.sample(some, min(len(some), r.choice([1, 1, 2, 3]))) if r.random() < .6 else None
                    given = None if values is None else values[0] if len(values) == 1 and r.random() < .6 else r.choice([list, set, tuple])(values)
                    rec = r.randrange(len(real)) + 1 if r.random() < .25 else 0
                    obj = real[rec - 1] if rec else RC
                    k = {}
                    if field:
                        k['field'] = field
                    if values is not None:
                        k['values'] = given
                    e = {'op': op, 'field': field, 'only': values is not None, 'values': [key(v) for v in values or []], 'rec': rec}
                    if op == 'list':
                        e['ids'] = [c.ID() for c in obj.getCitations(pandasFriendly=False, **k)]
                    else:
                        counts = not rec and r.random() < .7
                        if not rec and not counts:
                            k['counts'] = False
                        d = obj.getCitations(**k)
                        e.update(rows=rows(d, counts), cols=len(d), counts=counts)
                    ev.append(e)
                else:
                    seen = [c.year for a, R in zip(col, real) for c in R.get('citations', [])
                            if getattr(c, 'year', None) is not None and (a['year'] == citing.NOYEAR or c.year <= a['year'] + 2)]
                    k = {}
                    mid = r.choice(years)
                    lo = mid - r.choice([0, 0, 1, 3])
                    hi = mid + r.choice([0, 1, 2, 4])
                    if abs(mid) > 5000:
                        lo, hi = 1998, 2001
                    hasMin, hasMax = r.random() < .5, r.random() < .5
                    # the bounds need citations to be taken from
                    if not hasMin and not [y for y in seen if not hasMax or y <= hi + 2]:
                        hasMin = True
                    if not hasMax and not [y for y in seen if not hasMin or y >= lo - 2]:
                        hasMax = True
                    if not hasMin and not [y for y in seen if not hasMax or y <= hi + 2]:
                        hasMin = True
                    if hasMin:
                        k['minYear'] = lo
                    if hasMax:
                        k['maxYear'] = hi
                    drop = r.sample(range(lo - 1, hi + 2), r.choice([1, 2])) if r.random() < .4 else []
                    if drop:
                        k['dropYears'] = drop[0] if len(drop) == 1 and r.random() < .5 else r.choice([list, set, tuple])(drop)
                    empty = r.random() < .4
                    if empty:
                        k['rankEmptyYears'] = True
                    d = RC.rpys(**k)
                    if set(d) != {'year', 'count', 'abs-deviation', 'rank'} or len({len(v) for v in d.values()}) != 1:
                        raise KeyError('columns')
                    ev.append({'op': 'rpys', 'hasMin': hasMin, 'min': lo, 'hasMax': hasMax, 'max': hi, 'drop': drop, 'empty': empty,
                               'rows': [{'year': num(a), 'n': num(b), 'dev': num(c), 'rank': num(q)} for a, b, c, q in zip(d['year'], d['count'], d['abs-deviation'], d['rank'])]})
            ev.append({'op': 'after', 'same': before == df.snapshot(RC, RC)})
        ck.case('K%d' % n, 'citing', go, recs=citing.abstract(col), repro=col)
    ck.validate('Trace_CiteStats')
