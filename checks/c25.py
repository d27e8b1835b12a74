"""C25: tables of records."""
import os
import metaknowledge as mk
import recs
import diffusion as df
from mbv import num
SEP = '<|>'
# values without a text of their own: mappings, grants, lists of lists
SKIP = {'AD', 'AUID', 'GR', 'Funding Details', 'Classification', 'C1x'}
ASK = {'W': ['UT', 'id', 'title', 'TI', 'AU', 'AF', 'authorsFull', 'citations', 'DE', 'keywords', 'PY', 'year', 'journal', 'DOI', 'AB', 'WC', 'selfCitation', 'LA', 'month', 'nope'],
       'M': ['id', 'title', 'AU', 'FAU', 'authorsFull', 'year', 'PG', 'OT', 'abstract', 'volume', 'keywords', 'IS', 'DOI', 'PMID', 'nope'],
       'S': ['id', 'EID', 'title', 'Title', 'authorsShort', 'citations', 'year', 'Year', 'journal', 'abstract', 'keywords', 'Source title', 'DOI', 'nope'],
       'P': ['id', 'title', 'Title', 'Author', 'authorsFull', 'year', 'abstract', 'keywords', 'Subject', 'Advisor', 'nope']}
TABLE = [['Ann', 'Female'], ['K', 'Male'], ['A', 'Unknown'], ['J', 'Male'], ['X', 'Female'], ['Alpha', 'Male'], ['Full', 'Female']]


def tag(v):
    x = recs.val(v) if v is not None else {'k': 'a', 'v': ''}
    return x['k'] + ':' + (SEP.join(map(str, x['v'])) if isinstance(x['v'], list) else str(x['v']))


def cols(d, extra):
    rest = [c for c in d if c not in extra]
    return rest + [c for c in d if c in extra]


def pick(r, names, n):
    """n names of different columns"""
    out, seen = [], set()
    for x in r.sample(names, min(n, len(names))):
        s = mk.WOS.fullToTagDict.get(x, x)
        if s not in seen:
            seen.add(s)
            out.append(x)
    return out


def main(ck):
    r = ck.rng
    k = {'MaxNames': 2, 'RowPerValue': 'FALSE', 'TagPairs': '<- PairsM'}
    lists = ck.mc('MC_Table', invariants=['Exactly', 'NoFileWithout', 'OnlyAsked', 'LongBack', 'Emit'], constants=dict(k, MaxNames=2 if not ck.thorough else 3), emit='L', workers=1)
    ck.mc_fails('MC_Table', 'Exactly', constants=dict(k, MaxNames=0, RowPerValue='TRUE'))
    mk.genders.nameGender.mappingDict = dict(map(tuple, TABLE))
    r.shuffle(lists)
    for n in range(ck.n(230, 3500)):
        src = r.choice('WWWMSP')
        pool = []
        for i in range(r.choice([1, 2, 3, 5])):
            f = [x for x in recs.ascii_fields(recs.raw(r, src, '%d' % i, n=r.choice([0, 2, 6]))) if x['t'] not in SKIP]
            if src == 'W':
                f.append({'t': 'PT', 'v': ['J']} if not [x for x in f if x['t'] == 'PT'] else {'t': 'Z1', 'v': ['z']})
                if r.random() < .9:
                    f = [x for x in f if x['t'] not in ('Z1', 'Q7')]
                if r.random() < .2:     # cells that need care
                    f = [x for x in f if x['t'] != 'AB'] + [{'t': 'AB', 'v': ['a "quoted", text', "b | c ' ; d"]}]
                if r.random() < .1:
                    f = [x for x in f if x['t'] != 'AF'] + [{'t': 'AF', 'v': ['Lee, Ann', 'Oh, A B', 'Lee, Ann', 'a/b c', 'q' * 205, 'q' * 210]}]
            pool.append({'src': src, 'f': f})

        title = r.choice(['tab'] * 6 + ['tab ' + 'x' * 230])

        def go(ev):
            real = [recs.make(p['src'], p['f']) for p in pool]
            r.shuffle(real)
            RC = mk.RecordCollection(real, name=title)
            before = df.snapshot(RC)
            for _ in range(2):
                given = r.random() < .6
                long = src == 'W' and r.random() < .3
                nauth, gender = r.random() < .6, r.random() < .5
                e = {'given': given, 'long': long, 'nauth': nauth, 'gender': gender, 'out': 'ok'}
                kw = {}
                if not nauth:
                    kw['numAuthors'] = False
                if not gender:
                    kw['genderCounts'] = False
                if long:
                    kw['longNames'] = True
                if r.random() < .4:
                    raw = r.random() < .4
                    only = (lists[n % len(lists)]['only'] if src == 'W' and r.random() < .5 else pick(r, ASK[src], r.choice([1, 2, 4]))) if given else []
                    if given and not only:
                        only = ['id']
                    if raw:
                        only = [x for x in only if x not in ('id', 'selfCitation')] or ['nope']
                        kw['raw'] = True
                    if given:
                        kw['onlyTheseTags'] = r.choice([list, tuple])(only)
                    try:
                        d = RC.makeDict(**kw)
                    except KeyError:
                        ev.append(dict(e, op='dict', raw=raw, only=only, out='KeyError'))
                        continue
                    c = cols(d, ('num-Authors', 'num-Male', 'num-Female', 'num-Unknown'))
                    even = len({len(v) for v in d.values()} | {len(RC)}) == 1
                    rows = [[tag(d[x][i]) for x in c] for i in range(len(RC))] if even else []
                    ev.append(dict(e, op='dict', raw=raw, only=only, cols=c, even=even, rows=rows))
                else:
                    if src == 'W' and r.random() < .4:
                        s = lists[(7 * n) % len(lists)]
                        first, only = s['first'], s['only'] or ['UT']
                    else:
                        both = pick(r, ASK[src], r.choice([3, 5, 7]))
                        first = [x for x in both if r.random() < .6]
                        only = [x for x in both if r.random() < .6] or both[:1]
                        r.shuffle(only)
                        if src == 'W' and only and r.random() < .3:     # the other name of a tag
                            only[0] = mk.WOS.tagToFullDict.get(only[0], mk.WOS.fullToTagDict.get(only[0], only[0]))
                    if r.random() < .25:
                        first = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
                    else:
                        kw['firstTags'] = r.choice([list, tuple])(first)
                    if given:
                        kw['onlyTheseTags'] = r.choice([list, tuple])(only)
                    delim, quote, ld = ',', '"', '|'
                    if r.random() < .5:
                        delim, quote, ld = r.choice([';', '\t', '|', ',']), r.choice(["'", '"', '~']), r.choice([', ', ';', '&', '\n'])
                        kw.update(csvDelimiter=delim, csvQuote=quote, listDelimiter=ld)
                    split = r.choice(['', '', 'AF', 'PY', 'DE', 'id', 'CR', 'LA', 'year', 'authorsFull', 'title', 'WC']) if src == 'W' else r.choice(['', '', 'id', 'authorsFull', 'year', 'keywords', 'OT', 'title'])
                    if split:
                        kw['splitByTag'] = split
                    base = r.choice(['tab.csv', 'tab.csv', 'x y.txt'])
                    os.mkdir('w')
                    os.chdir('w')
                    os.mkdir('sub')
                    sub = r.random() < .3
                    if base != 'tab.csv' or sub or split and title != 'tab' or r.random() < .3:    # a long value before a long name is beyond any file system
                        kw['fname'] = ('sub/' if sub else '') + base
                    else:
                        base = title[:200] + '.csv'
                    files, bad = [], False
                    try:
                        RC.writeCSV(**kw)
                    except KeyError:
                        bad = True
                    finally:
                        for d, _, names in os.walk('.'):
                            for x in names:
                                p = os.path.join(d, x)
                                files.append({'name': recs.text(x) if (d == './sub') == sub and d in ('.', './sub') else p,
                                              'text': recs.text(open(p, encoding='utf-8', newline='').read())})
                                os.remove(p)
                        os.rmdir('sub')
                        os.chdir('..')
                        os.rmdir('w')
                    ev.append(dict(e, op='csv', first=list(first), only=list(only), delim=delim, quote=quote, list=ld, split=split, base=base, files=files, out='KeyError' if bad else 'ok'))
            ev.append({'op': 'after', 'same': before == df.snapshot(RC)})
        ck.case('T%d' % n, 'table-' + src, go, pool=pool, table=TABLE)
    ck.validate('Trace_Table')
