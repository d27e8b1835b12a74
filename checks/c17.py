"""C17: one-, two-, multi-mode and multi-level tag networks."""
import tags
from mbv import outcome
NAME = {'F': ['AF', 'authorsFull'], 'G': ['DE', 'authKeywords'], 'year': ['PY', 'year']}


def options(r, names, how, op):
    two = op == 'modes' and len(names) == 2 and r.random() < .75
    o = {'op': op, 'tags': names, 'stems': [how] * len(names), 'two': two, 'directed': two and r.random() < .5, 'count': r.random() < .75,
         'weight': r.random() < .75, 'recordType': op == 'modes' and r.random() < .8, 'edgeAttr': '', 'nodeAttr': ''}
    if two and r.random() < .3:
        o['stems'] = [r.choice(['none', 'lower', 'first']) for _ in names]
    if r.random() < .3:
        o['edgeAttr'] = r.choice(['PY', 'year', 'DE', 'LA', 'SC', 'TC'])
    if op == 'level' and r.random() < .3:
        o['nodeAttr'] = r.choice(['PY', 'DE', 'LA', 'title', 'UT', 'PG'])
    return o


def textkeys(o, vals):
    """edge keys are reported as text whatever their type"""
    return [dict(a, EDGE=['s:' + x[2:] for x in a[o['edgeAttr']]] if o['edgeAttr'] else []) for a in vals]


def main(ck):
    r = ck.rng
    c = {'Slots': '{1, 2}' if not ck.thorough else '{1, 2, 3}'}
    ck.mc('MC_Tags', invariants=['CountClosed', 'LevelClosed', 'ModeClosed', 'TwoInLevel'], constants=c)
    ts = ck.mc('MC_Tags', spec='SpecEmit', emit='T', workers=1, constants=c)
    ck.notes['model_scenarios'] = len(ts)
    n = 0
    for t in r.sample(ts, min(len(ts), ck.n(900, 9000))):
        for op in ('level', 'modes'):
            if op == 'modes' and len(t['shape']) == 1:
                continue
            recs = tags.model_records(t)
            o = options(r, [r.choice(NAME[x]) for x in t['shape']], t['how'], op)
            n += 1
            ck.case('T%d' % n, op, lambda ev: tags.network(ck, ev, tags.collection(recs, r), o), recs=textkeys(o, [a['vals'] for a in recs]), repro=t)
    for n in range(ck.n(500, 8000)):
        recs = tags.random_records(r, r.choice([0, 1, 2, 4, 7]))
        op = r.choice(['level', 'modes'])
        names = [r.choice(['AF', 'DE', 'authKeywords', 'PY', 'LA', 'authorsFull', 'SC', 'TC', 'PG', 'wosTimesCited', 'TI', 'id']) for _ in range(r.choice([1, 2, 2, 3, 4]) if op == 'level' else r.choice([2, 2, 2, 3, 4, 1]))]
        o = options(r, names, r.choice(['none', 'none', 'lower', 'first']), op)
        ck.case('R%d' % n, 'random', lambda ev: tags.network(ck, ev, tags.collection(recs, r), o), recs=textkeys(o, [a['vals'] for a in recs]), repro=o)
    C = tags.collection(tags.random_records(r, 3))
    for what, f in (('two-mode field not text', lambda: C.networkTwoMode(3, 'PY')), ('second two-mode field not text', lambda: C.networkTwoMode('PY', None)),
                    ('multi-mode field not text', lambda: C.networkMultiMode('AF', 5)), ('stemmer not callable', lambda: C.networkOneMode('AF', stemmer=3)),
                    ('two-mode stemmer not callable', lambda: C.networkTwoMode('AF', 'DE', stemmerTag2='x')), ('multi-mode stemmer not callable', lambda: C.networkMultiMode('AF', 'DE', stemmer='x'))):
        ck.case('refuse ' + what, 'refused', lambda ev: ev.append({'op': 'refused', 'what': what, 'out': outcome(f)[1] if outcome(f)[0] == 'exc' else 'accepted', 'want': ['TagError']}), recs=[])
    ck.validate('Trace_Tags')
