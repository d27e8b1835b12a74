"""C34: the summary printed to the terminal."""
import collections
import os
import shutil
import metaknowledge as mk
import tags
from recs import text


def look(ev, C, names, compact, w, h, r):
    """one summary; the size of the terminal comes from the environment"""
    os.environ.update(COLUMNS=str(w), LINES=str(h))
    try:
        s = C.glimpse(*names, compact=compact) if compact or r.random() < .5 else C.glimpse(*names)
    finally:
        del os.environ['COLUMNS'], os.environ['LINES']
    ev.append({'op': 'look', 'compact': compact, 'w': w, 'h': h, 'lines': [text(x) for x in s.split('\n')]})


def main(ck):
    r = ck.rng
    k = {'Counts': '{1, 2, 3}', 'Widths': '4..7' if not ck.thorough else '4..9', 'Design': '"right"'}
    ck.mc('MC_Glimpse', invariants=['Right', 'Fits', 'NoGap', 'Table'], constants=dict(k, Widths='{4, 5, 7}'))
    ck.mc_fails('MC_Glimpse', 'Right', constants=dict(k, Widths='{5}', Design='"gaps"'))
    ck.mc_fails('MC_Glimpse', 'Fits', constants=dict(k, Widths='{5}', Design='"wide"'))
    ck.mc_fails('MC_Glimpse', 'Right', constants=dict(k, Widths='{5}', Design='"late"'))
    words = ['Phys', 'Chemistry of the higher things', 'a', 'x' * 70, 'Lee, K', 'b|c', 'q' * 25, 'r' * 23, 'Ann. of +', 'Mab, X Y', 'y' * 52, 'z' * 79, 'w' * 76]
    for n in range(ck.n(150, 2500)):
        many = n % 25 == 0
        recs = []
        pool = r.sample(words, r.choice([1, 3, 6, 13])) + ['v%d' % i for i in range(r.choice([0, 0, 5, 40]))]
        def some(most):
            return list(dict.fromkeys(r.choice(pool) for _ in range(r.choice([0, 1, 2, most]))))
        for i in range(r.choice([0, 1, 2, 5, 12])):
            recs.append(tags.arec('WOS:%03d' % i, AF=[r.choice(pool) for _ in range(r.choice([0, 1, 2, 5, 9]))], DE=[x for x in some(6)], SC=[x for x in some(5)],
                                  PY=r.choice([[], [1999], [2000], [2001]]), TI=r.choice([[], ['Title %d' % (i % 3)], ['Of the ' + 'very ' * r.choice([1, 12]) + 'b %d' % i]]),
                                  LA=r.choice([[], ['English'], ['French']]), CR=r.choice([[], ['Lee K, 1999, NATURE'], ['Zed Q, 2001, J PHYS, V1', 'Lee K, 1999, NATURE']])))
        if many:   # ranks of three digits
            recs = [tags.arec('WOS:%03d' % i, AF=['v%03d' % j + 'l' * (j % 3 * 80) for j in range(i, 125)]) for i in range(r.choice([60, 125]))]
        cut = r.random() < .15
        names = r.sample(['AF', 'DE', 'PY', 'authorsFull', 'SC', 'TI', 'LA', 'CR', 'nothing', 'id', 'year', 'language', 'title', 'citations'], r.choice([1, 2, 3, 3, 4, 5, 9 if cut else 3]))
        if many:
            names = ['AF'] + [x for x in names[:2] if x != 'AF']
        cname = r.choice(['', 'files of the world', 'n' * 29, 'm' * 30, 'o' * 31, 'p' * 90])
        default = r.random() < .15
        pairs = [('Top Authors', 'authorsFull'), ('Top Journals', 'journal'), ('Top Cited', 'citations')] if default else [(t, t) for t in names]
        cols = [{'title': t, 'vals': [[text(v), c] for v, c in collections.Counter(x[2:] for a in recs for x in a['vals'].get(f, [])).items()]} for t, f in pairs]
        if any('id' == f for _, f in pairs):
            for c in cols:
                if c['title'] == 'id':
                    c['vals'] = [[a['raw']['UT'][0], 1] for a in recs]
        sizes = [(r.choice([55, 60, 70, 75, 76, 77, 78, 79, 80, 81, 100, 132, 54, 20]), r.choice([6, 7, 8, 9, 10, 15, 24, 25, 40, 5]) if not many else r.choice([24, 135, 135])) for _ in range(r.choice([1, 2, 3]))]

        def run(ev):
            C = tags.collection(recs, r)
            C.name = cname
            for w, h in sizes:
                look(ev, C, [] if default else names, r.random() < .65, w, h, r)
        ck.case('G%d' % n, 'tall' if many else 'default' if default else 'random', run, type='RecordCollection', n=len(recs), name=cname, cols=cols, repro={'sizes': sizes})
    ck.validate('Trace_Glimpse')
