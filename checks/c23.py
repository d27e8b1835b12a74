"""C23: ranked series, time series and co-occurrence tables."""
import tags
from mbv import outcome
NAME = {'F': ['AF', 'authorsFull'], 'G': ['DE', 'authKeywords'], 'year': ['PY', 'year']}


def untag(v):
    return int(v[2:]) if v.startswith('i:') else v[2:]


def one(ck, ev, recs, names):
    r = ck.rng
    C = tags.collection(recs, r)
    for _ in range(3):
        tag = r.choice(names)
        vals = sorted({v for a in recs for v in a['vals'][tag]} | {'s:absent'})
        lim = None
        if r.random() < .3:
            l = r.sample(vals, r.choice([1, min(2, len(vals)), len(vals)]))
            lim = (l, r.choice([list, set, tuple])([untag(v) for v in l]))
        w = r.random()
        if w < .4:
            tags.ranked(ck, ev, C, tag, lim, r.random() < .6, r.choice(['pandas', 'counts', 'ranks', 'entries']), r.random() < .3)
        elif w < .75:
            t = tag if r.random() < .85 else ''
            tags.times(ck, ev, C, t, lim if t else None, r.random() < .6, r.choice(['pandas', 'years', 'entries']), r.random() < .3)
        else:
            tags.cooc(ck, ev, C, tag, [r.choice(names) for _ in range(r.choice([1, 1, 2, 3]))])


def main(ck):
    r = ck.rng
    c = {'Slots': '{1, 2}' if not ck.thorough else '{1, 2, 3}'}
    ck.mc('MC_Tags', invariants=['CountClosed', 'YearsPartition', 'CoOccSymmetric', 'RankLaw'], constants=c)
    ts = ck.mc('MC_Tags', spec='SpecEmit', emit='T', workers=1, constants=c)
    for n, t in enumerate(r.sample(ts, min(len(ts), ck.n(700, 7000)))):
        recs = tags.model_records(t)
        names = [r.choice(NAME[x]) for x in t['shape']]
        ck.case('T%d' % n, 'model', lambda ev: one(ck, ev, recs, names), recs=[a['vals'] for a in recs], repro=t)
    for n in range(ck.n(500, 8000)):
        recs = tags.random_records(r, r.choice([0, 1, 2, 4, 8, 12]))
        ck.case('R%d' % n, 'random', lambda ev: one(ck, ev, recs, ['AF', 'DE', 'authKeywords', 'PY', 'LA', 'authorsFull', 'SC', 'TC', 'PG', 'wosTimesCited', 'TI', 'id', 'year']), recs=[a['vals'] for a in recs])
    C = tags.collection(tags.random_records(r, 3))
    for what, f, w in (('counts and ranks together', lambda: C.rankedSeries('AF', giveCounts=True, giveRanks=True), ['mkException']),
                       ('key field not text', lambda: C.cooccurrenceCounts(3, 'PY'), ['TagError']), ('counted field not text', lambda: C.cooccurrenceCounts('AF', 4), ['TagError']),
                       ('no counted field', lambda: C.cooccurrenceCounts('AF'), ['TagError'])):
        o = outcome(f)
        ck.case('refuse ' + what, 'refused', lambda ev: ev.append({'op': 'refused', 'what': what, 'out': o[1] if o[0] == 'exc' else 'accepted', 'want': w}), recs=[])
    ck.validate('Trace_Tags')
