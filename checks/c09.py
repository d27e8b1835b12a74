"""C09: reading ProQuest files."""
import os
import metaknowledge as mk
from metaknowledge.proquest import ProQuestRecord
RULE = '_' * 60
HEAD = [RULE, '', 'Report Information from ProQuest', 'May 1 2015', RULE, '', '', '', '', RULE, '', 'Table of contents']
WORDS = ['alpha', 'Beta', 'caf\u00e9', '\u4e2d\u6587', '10:30', 'a;b', 'x,', '(q)', '"z"', 'Title', 'Document 3 of 4', '_____', 'Bibliography.', 'v. 2', 'https://x.y/z?a=b', 'nel\u0085x']
LABELS = ['Abstract', 'Links', 'Advisor', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Department',
          'Dissertation/thesis number', 'Document type', 'ISBN', 'Language', 'Number of pages', 'School code', 'Source', 'University location', 'New label', 'Publication year']


def words(r, n=None, colon=True):
    s = ' '.join(r.choice(WORDS) for _ in range(n or r.choice([1, 2, 4])))
    if colon and r.random() < .2:
        s += ': ' + r.choice(WORDS)
    return s


def doc(r, n, total, title, did):
    out = ['Document %d of %d' % (n, total), '', title if r.random() < .9 else title + ' ']
    fs = []
    for l in r.sample(LABELS, r.randrange(0, 7)):
        fs.append([l + ': ' + words(r) if r.random() < .93 else l + r.choice([':', ': '])] + [r.choice([words(r, colon=False), 'http://a.b/c: d', 'http://x']) for _ in range(r.choice([0, 0, 0, 1, 3]))])
    if r.random() < .8:
        fs.append(['Degree date: %d' % r.choice([1999, 2014, 2010])])
    if r.random() < .7:
        fs.append(['Identifier / keyword: ' + ', '.join(words(r, 1, False).replace(',', '') for _ in range(r.choice([1, 2, 4])))])
    if r.random() < .7:
        fs.append(['Subject: ' + '; '.join(words(r, 2, False).replace(';', '') for _ in range(r.choice([1, 2, 3])))])
    if r.random() < .6:
        fs.append(['Classification: ' + '; '.join('0%d: ' % r.randrange(100, 999) + words(r, 1, False).replace(';', '') for _ in range(r.choice([1, 2])))])
    for f in fs:
        if f[0][0] in 'ISC' and r.random() < .15:
            f.append(r.choice([words(r, 2, False), 'more; and more, other', 'http://x']))
    if r.random() < .15:
        fs.append(['Committee member: again ' + words(r)])
    fs.append(['Title: ' + title])
    if did is not None:
        fs.append(['ProQuest document ID: ' + did])
    r.shuffle(fs)
    if r.random() < .9:
        fs.insert(r.choice([0, 0, len(fs)]), ['Author: ' + r.choice(['Lee, Kim', 'M\u00fcller, J.', 'Oh']), r.choice(['http://search.x/%s?a=1' % did, 'https://search.x/%s' % did])])
    for f in fs:
        for x in f:
            if r.random() < .85:
                out.append('')
            out.append(x)
    return out + [''] * r.choice([0, 1]) + [RULE, '']


def field(R, t):
    try:
        v = R[t]
    except KeyError:
        return None
    return v


def observe(ev, path):
    e = {'op': 'read', 'out': 'ok', 'bad': False, 'errs': [], 'recs': [], 'srcok': True}
    try:
        C = mk.RecordCollection(path)
        rp = os.path.realpath(path)
        e['bad'] = bool(C.bad)
        e['errs'] = ['F' if x == rp else 'other' for x in C.errors]
        e['srcok'] = all(R.sourceFile == rp and isinstance(R, ProQuestRecord) for R in C)
        for R in C:
            x = {'bad': bool(R.bad), 'f': [], 'at': R.sourceLine}
            if not R.bad:
                x['f'] = [{'t': t, 'v': list(v)} for t, v in R.items(raw=True)]
                d = {}
                for name, t, dflt in (('title', 'title', ''), ('authors', 'authorsFull', []), ('short', 'authorsShort', []), ('keywords', 'keywords', []), ('subjects', 'Subject', []),
                                      ('classes', 'Classification', []), ('year', 'year', 0), ('abstract', 'abstract', ''), ('url', 'url', [])):
                    v = field(R, t)
                    if name == 'classes' and v is not None:
                        v = [list(p) for p in v]
                    d[name] = {'has': v is not None, 'v': dflt if v is None else v}
                x['d'] = d
            e['recs'].append(x)
    except Exception as x:
        e['out'] = 'exc:' + type(x).__name__
    ev.append(e)


def put(p, ls, newline=True):
    with open(p, 'w', encoding='utf-8', newline='') as f:
        f.write('\n'.join(ls) + ('\n' if newline else ''))


def main(ck):
    r = ck.rng
    files = ck.mc('MC_ProQuest', emit='L', workers=1, constraint='Emit', constants={'More': 3 if not ck.thorough else 4})
    ck.mc('MC_ProQuest', invariants=['StepsAreFold', 'Truncated', 'RoundTrip'], constants={'More': 3 if not ck.thorough else 5})
    ck.notes['model_files'] = len(files)

    def case(cid, ls, newline=True, kind='whole'):
        p = 'f-%s.txt' % cid
        put(p, ls, newline)
        seen = list(ls)
        if not newline and seen and seen[-1] == '':
            seen.pop()
        ck.case(cid, 'read', lambda ev: observe(ev, p), lines=seen, repro={'kind': kind})
        ck.notes.setdefault('scenario_kinds', {}).setdefault(kind, 0)
        ck.notes['scenario_kinds'][kind] += 1
    for n, ls in enumerate(r.sample(files, min(len(files), ck.n(400, 12000)))):
        case('M%d' % n, ls + r.choice([[], ['Bibliography', ''], [RULE, '', 'Bibliography', '']]), True, 'model')
    for n in range(ck.n(250, 6000)):
        k = 104 if n == 7 else r.choice([0, 1, 2, 3, 3, 5, 11])
        titles = [words(r) for _ in range(k)]
        ls = list(HEAD)
        for i, t in enumerate(titles):
            ls += ['', '%d. %s' % (i + 1, t)]
        ls += ['', 'Bibliography', '', RULE, '']
        toc_end = len(ls)
        for i, t in enumerate(titles):
            ls += doc(r, i + 1, k, t, '%d' % (i if r.random() < .95 else 0))
        docs_end = len(ls)
        ls += ['Bibliography', '', 'Citation style: BibTeX', '', '@misc{', RULE, '']
        kind = r.choice(['whole', 'whole', 'truncate', 'cut', 'insert', 'drop', 'noid', 'title', 'swap', 'toc'])
        newline = r.random() < .8
        i = r.randrange(toc_end, docs_end) if docs_end > toc_end else toc_end
        if kind == 'truncate':
            ls = ls[:r.randrange(12, docs_end + 1)]
            newline = newline or ls[-1] == RULE   # a rule cut before its line break is no rule
        elif kind == 'cut' and ls[i]:
            ls = ls[:i + 1]
            x = ls[-1][:r.randrange(1, len(ls[-1]) + 1)]
            if x in (RULE, 'Bibliography'):
                x = x[:-1]
            ls[-1] = x
            newline = False
        elif kind == 'insert':
            ls.insert(i, r.choice(['stray', 'Stray: x', 'Document 1 of 1', RULE, 'Bibliography', 'Document x of 3', 'http://q', 'Document 99 of 99']))
        elif kind == 'drop' and not ls[i].startswith(('http', 'Author')):
            del ls[i]
        elif kind == 'noid':
            ids = [j for j in range(len(ls)) if ls[j].startswith('ProQuest document ID')]
            if ids:
                del ls[r.choice(ids)]
        elif kind == 'title':
            ids = [j for j in range(len(ls)) if ls[j].startswith('Title: ')]
            if ids:
                ls[r.choice(ids)] += 'x'
        elif kind == 'swap' and k:
            j = r.randrange(toc_end, docs_end)
            if not any(ls[m].startswith(('http', 'Author')) for m in (i, j)):
                ls[i], ls[j] = ls[j], ls[i]
        elif kind == 'toc' and k:
            j = 13 + 2 * r.randrange(k)
            ls[j] = r.choice(['no number', '7. other', 'x. y', ls[j] + ' '])
        case('F%d' % n, ls, newline, kind)
    # the file the project ships with, whole and cut anywhere
    p = os.path.join(os.path.dirname(mk.__file__), 'tests', 'ProQuest_TestFile.testtxt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            ls = f.read().split('\n')
        case('shipped', [x[:400] for x in ls[:1200]], True, 'shipped')
    ck.validate('Trace_ProQuest')
