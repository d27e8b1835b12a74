"""C05: reading Web of Science files."""
import wosfiles as wf


def main(ck):
    r = ck.rng
    ml = 5 if not ck.thorough else 6
    seqs = ck.mc('MC_Wos', spec='SpecEmit', emit='L', workers=1, constants={'MaxLines': 4 if not ck.thorough else 5})
    ck.mc('MC_Wos', invariants=['StepsAreFold', 'Monotone', 'Truncated', 'RoundTrip', 'FromFile', 'NoDamageNoLoss'], constants={'MaxLines': ml - 1 if not ck.thorough else ml})
    ck.notes['model_files'] = len(seqs)

    def case(cid, kind, ls, newline=True, head=None, bom=True):
        head = head or wf.HEAD
        p = 'f-%s.txt' % cid
        wf.write(p, ls, newline, head, bom)
        seen = list(ls)
        if not newline and seen and seen[-1] == '':
            seen.pop()
        ck.case(cid, 'read', lambda ev: wf.read(ev, p), lines=seen, n0=len(head), repro={'kind': kind})
        ck.notes.setdefault('scenario_kinds', {}).setdefault(kind, 0)
        ck.notes['scenario_kinds'][kind] += 1

    # every short file of the model, and longer ones it can reach: sampled
    for n, ls in enumerate(r.sample(seqs, min(len(seqs), ck.n(1500, 20000)))):
        case('M%d' % n, 'model', ls, newline=r.random() < .7)
    shapes = ["UT WOS:1", "UT WOS:2", "UT WOS:3", "AU Lee, K", "   Oh, A", "TI x", "ER", "ER", "EF", "", "x", "AB", "Title: y", "   ", "  "]
    for n in range(ck.n(600, 10000)):
        case('W%d' % n, 'walk', [r.choice(shapes) for _ in range(r.randrange(4, 16))], newline=r.random() < .7)
    # whole files and single faults in them
    for n in range(ck.n(500, 8000)):
        bs = [wf.block(r, 'WOS:%d' % (i if r.random() < .93 else 0)) for i in range(r.choice([0, 1, 2, 3, 3, 4, 8]))]
        ls = []
        for b in bs:
            ls += wf.lines(b) + [''] * r.choice([1, 1, 1, 0, 2])
        ls.append('EF')
        kind = r.choice(['whole', 'truncate', 'truncate', 'cut', 'insert', 'garble', 'drop', 'swap', 'double', 'tail', 'noend'])
        i = r.randrange(len(ls))
        newline = r.random() < .8
        if kind == 'truncate':
            ls = ls[:i]
        elif kind == 'cut':
            # in the middle of a line (at least one character of it is left)
            ls = ls[:i + 1]
            ls[-1] = ls[-1][:r.randrange(1, len(ls[-1]) + 1)] if ls[-1] else ''
            newline = False
        elif kind == 'insert':
            ls.insert(i, r.choice(['x', 'AB', 'Author: z', '', 'ER', 'EF', '   more', 'TI again', 'UT WOS:7', '\ttab', 'E', '-- ', 'A B', 'PT', 'ER\tx']))
        elif kind == 'garble':
            ls[i] = r.choice([ls[i][:2], ls[i][:1], ls[i].replace(' ', ''), '#' + ls[i], ls[i][1:], ls[i][:2] + '-' + ls[i][3:]])
        elif kind == 'drop':
            del ls[i]
        elif kind == 'swap':
            j = r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif kind == 'double':
            ls.insert(i, ls[i])
        elif kind == 'tail':
            ls += [r.choice(['', 'x', 'PT J', 'EF', '  '])] * r.choice([1, 2])
        elif kind == 'noend':
            ls.pop()
        head = [wf.HEAD] if r.random() < .8 else [['VR 1.0'], ['x', 'y', 'VR 1.0'], ['FN Clarivate Analytics Web of Science', 'VR 1.0 ']]
        case('F%d' % n, kind, ls, newline, r.choice(head), r.random() < .8)
    ck.validate('Trace_Wos')
