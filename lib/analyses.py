"""Everything a caller may ask of collections, and digests of what comes back."""
import os, copy, hashlib, contextlib, sys
import networkx as nx
import metaknowledge as mk
from metaknowledge import Citation
from metaknowledge.mkRecord import Record
from metaknowledge.mkCollection import Collection, CollectionWithIDs
import recs
TAGS = ['AU', 'AF', 'TI', 'PY', 'J9', 'CR', 'DE', 'WC', 'ID', 'year', 'authorsFull', 'citations', 'keywords', 'journal', 'UT', 'id', 'abstract', 'nope', 'FAU', 'TA', 'Authors', 'Source title', 'Author', 'Subject']


def stem(s):
    return str(s).upper()[:6]


def cut(w):
    return w[:3]


# ---- digests
def canon(x):
    if isinstance(x, nx.Graph):
        und = not x.is_directed()
        nodes = sorted((canon(n), canon(d)) for n, d in x.nodes(data=True))
        edges = sorted((*(sorted((canon(a), canon(b))) if und else (canon(a), canon(b))), canon(d)) for a, b, d in x.edges(data=True))
        return 'graph(%s,%s,%s,%s)' % (x.is_directed(), x.is_multigraph(), nodes, edges)
    if isinstance(x, Record):
        return 'record(%s,%s)' % (type(x).__name__, x.id)
    if isinstance(x, Citation):
        return 'cite(%s)' % x
    if isinstance(x, Collection):
        return '%s(%s,%s,%s)' % (type(x).__name__, x.name, x.bad, sorted(str(getattr(y, 'id', y)) for y in x))
    if isinstance(x, dict):
        cols = list(x.values())
        if cols and all(isinstance(c, list) for c in cols) and len({len(c) for c in cols}) == 1:
            return 'table(%s,%s)' % ([str(k) for k in x], sorted(canon(list(row)) for row in zip(*cols)))
        return 'map(%s)' % sorted((canon(k), canon(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return 'set(%s)' % sorted(canon(y) for y in x)
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, [canon(y) for y in x])
    return '%s:%r' % (type(x).__name__, x)


def digest(x):
    s = canon(x)
    return hashlib.sha1(s.encode('utf-8', 'backslashreplace')).hexdigest()[:12] + ' ' + s.encode('ascii', 'backslashreplace').decode()[:60]


def stored(*cs):
    """what collections and their records store"""
    out = []
    for C in cs:
        out.append([C.name, C.bad, sorted((repr(k), str(v)) for k, v in C.errors.items()) if isinstance(C.errors, dict) else repr(C.errors), len(C)])
        for R in sorted(C, key=lambda y: str(y.id)):
            out.append([str(R.id), R.bad, repr(R.error), str(R.sourceFile), R.sourceLine, [(t, list(v) if isinstance(v, list) else v) for t, v in R.items(raw=True)] if isinstance(R, mk.recordCollection.ExtendedRecord if hasattr(mk.recordCollection, 'ExtendedRecord') else Record) and hasattr(R, 'encoding') else sorted((k, repr(v)) for k, v in R.items())])
    return hashlib.sha1(repr(out).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


def decoded(*cs):
    out = []
    for C in cs:
        for R in sorted(C, key=lambda y: str(y.id)):
            for t in list(R) + recs.SPECIALS:
                try:
                    out.append((str(R.id), t, canon(R.get(t))))
                except Exception as e:
                    out.append((str(R.id), t, type(e).__name__))
    return hashlib.sha1(repr(out).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


@contextlib.contextmanager
def silent():
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)


def file_of(write, name):
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    got = write(name)
    return ('files', [(f, sorted(open(f, encoding='utf-8', newline='').read().split('\n'))) for f in sorted(os.listdir('.')) if os.path.isfile(f)], got)


# ---- analyses of record collections C and D: name -> (choose(r) -> arguments, run(C, D, a))
def opt(r, **k):
    return {n: r.choice(v) for n, v in k.items() if r.random() < .6}


B = [True, False]
OPS = {}


def op(name, **k):
    def deco(f):
        OPS[name] = (lambda r: opt(r, **k), f)
        return f
    return deco


CORE = dict(dropAnon=B, nodeType=['full', 'original', 'author', 'journal', 'year'], nodeInfo=B, fullInfo=B, weighted=B, dropNonJournals=B, count=B, keyWords=[None, 'A', ['J', 'x']],
            detailedCore=[True, False, ['AU', 'PY', 'DE'], ['AF', 'CR', 'TI']], coreOnly=B, addCR=B, detailedCoreAttributes=[False, True])
op('coauthor', detailedInfo=[False, True, ['PY', 'TI', 'J9'], ['AF', 'CR', 'DE']], weighted=B, dropNonJournals=B, count=B, useShortNames=B, citeProfile=B)(lambda C, D, a: C.networkCoAuthor(**a))
op('cocitation', **CORE)(lambda C, D, a: C.networkCoCitation(**a))
op('citation', directed=B, recordToCite=B, **CORE)(lambda C, D, a: C.networkCitation(**a))
op('bibcoupling', weighted=B, fullInfo=B, addCR=B)(lambda C, D, a: C.networkBibCoupling(**a))
LEVEL = dict(nodeCount=B, edgeWeight=B, stemmer=[None, stem], edgeAttribute=[None, 'PY', 'LA', 'id', 'DE'], nodeAttribute=[None, 'PY', 'LA', 'AU', 'DE'])
op('onemode', mode=TAGS, **LEVEL)(lambda C, D, a: C.networkOneMode(a.get('mode', 'AU'), **{k: v for k, v in a.items() if k != 'mode'}))
op('multilevel', modes=[['AU', 'DE'], ['WC'], ['PY', 'AU', 'J9'], ['CR', 'nope']], **LEVEL)(lambda C, D, a: C.networkMultiLevel(*a.get('modes', ['AU', 'WC']), **{k: v for k, v in a.items() if k != 'modes'}))
op('twomode', tags=[['AU', 'DE'], ['id', 'CR'], ['PY', 'WC'], ['UT', 'UT'], ['AU', 'nope']], directed=B, recordType=B, nodeCount=B, edgeWeight=B, stemmerTag1=[None, stem], edgeAttribute=[None, 'PY'])(
    lambda C, D, a: C.networkTwoMode(*a.get('tags', ['AU', 'TI']), **{k: v for k, v in a.items() if k != 'tags'}))
op('multimode', tags=[['AU', 'DE', 'WC'], ['PY'], [['AU', 'DE']], ['id', 'AU']], recordType=B, nodeCount=B, edgeWeight=B, stemmer=[None, stem], edgeAttribute=[None, 'PY'])(
    lambda C, D, a: C.networkMultiMode(*a.get('tags', ['AU', 'TI']), **{k: v for k, v in a.items() if k != 'tags'}))
op('ranked', tag=TAGS, giveCounts=B, giveRanks=[False], greatestFirst=B, pandasMode=B, limitTo=[None, ['Lee, K', 'Oh, A', 1999]])(lambda C, D, a: C.rankedSeries(a.get('tag', 'AU'), **{k: v for k, v in a.items() if k != 'tag'}))
op('ranks', tag=TAGS, greatestFirst=B)(lambda C, D, a: C.rankedSeries(a.get('tag', 'AU'), giveCounts=False, giveRanks=True, pandasMode=False, greatestFirst=a.get('greatestFirst', True)))
op('ranked file', tag=TAGS, greatestFirst=B)(lambda C, D, a: file_of(lambda f: C.rankedSeries(a.get('tag', 'AU'), outputFile=f), 'o.csv'))
op('times', tag=TAGS + [None], giveYears=B, greatestFirst=B, limitTo=[None, ['Lee, K', 'alpha', 1999]], pandasMode=B)(lambda C, D, a: C.timeSeries(**a))
op('times file', tag=TAGS, giveYears=B)(lambda C, D, a: file_of(lambda f: C.timeSeries(outputFile=f, **a), 'o.csv'))
op('cooc', tags=[['AU', 'DE'], ['WC', 'AU', 'PY'], ['CR', 'J9'], ['PY', 'nope']])(lambda C, D, a: C.cooccurrenceCounts(*a.get('tags', ['AU', 'TI'])))
op('tags')(lambda C, D, a: C.tags())
op('glimpse', tags=[[], ['AU'], ['WC', 'citations']], compact=B)(lambda C, D, a: C.glimpse(*a.get('tags', []), compact=a.get('compact', False)).split('\n')[1 if not a.get('compact') else 2:])
COLS = dict(onlyTheseTags=[None, ['AU', 'PY', 'id'], ['year', 'TI', 'nope']], longNames=B, numAuthors=B, genderCounts=B)
op('dict', raw=B, **COLS)(lambda C, D, a: C.makeDict(**a))
op('csv', splitByTag=[None, 'AU', 'PY', 'WC'], firstTags=[None, ['PY', 'UT'], ['nope']], csvDelimiter=[',', ';'], listDelimiter=['|', ';'], **COLS)(lambda C, D, a: file_of(lambda f: C.writeCSV(f, **a), 'o.csv'))
op('file')(lambda C, D, a: file_of(lambda f: C.writeFile(f), 'o.isi'))
op('bib', maxStringLength=[1000, 20], wosMode=B, reducedOutput=B, niceIDs=B)(lambda C, D, a: file_of(lambda f: C.writeBib(f, **a), 'o.bib'))
WORDS = dict(dropList=[None, ['alpha', 'x'], ['the', '']], lower=B, removeNumbers=B, removeNonWords=B, removeWhitespace=B, stemmer=[None, cut])
op('nlp', extraColumns=[None, ['TI', 'CR'], ['AU', 'year', 'AU']], removeCopyright=B, **WORDS)(lambda C, D, a: C.forNLP(**a))
op('nlp file', extraColumns=[None, ['TI', 'CR']], **WORDS)(lambda C, D, a: file_of(lambda f: C.forNLP(f, **a), 'o.csv'))
op('burst', tag=['TI', 'DE', 'AU', 'CR', 'abstract', 'PY'], **WORDS)(lambda C, D, a: C.forBurst(a.get('tag', 'TI'), **{k: v for k, v in a.items() if k != 'tag'}))
op('burst file', tag=['TI', 'DE', 'AU'], **WORDS)(lambda C, D, a: file_of(lambda f: C.forBurst(a.get('tag', 'TI'), outputFile=f, **{k: v for k, v in a.items() if k != 'tag'}), 'o.csv'))
op('copyright')(lambda C, D, a: C.findProbableCopyright())
op('rpys', minYear=[1998, 1990], maxYear=[2001, 2010], dropYears=[None, [1999], [2000, 2001]], rankEmptyYears=B)(lambda C, D, a: C.rpys(**a))
op('genders', asFractions=B)(lambda C, D, a: C.genderStats(**a))
op('cites', field=[None, 'author', 'year', 'journal'], values=[None, ['LEE K'], [1999, 2000]], pandasFriendly=B, counts=B)(lambda C, D, a: C.getCitations(**a))
op('years', startYear=[1998, 2000], endYear=[2000, 2005], dropMissingYears=B)(lambda C, D, a: C.yearSplit(a.get('startYear', 1990), a.get('endYear', 2020), **{k: v for k, v in a.items() if k == 'dropMissingYears'}))
op('stats', pandasFriendly=B, keyType=['citation', 'author', 'year', 'journal'])(lambda C, D, a: C.localCiteStats(**a))
op('local cites')(lambda C, D, a: [C.localCitesOf(R) for R in sorted(C, key=lambda y: str(y.id))[:3]])
op('cites of')(lambda C, D, a: C.localCitesOf('Lee K, 1999, J X0'))
op('filter', keyString=['1999', 'J X', 'lee', ''], field=['all', 'author', 'year', 'journal', 'V', 'anonymous'], reverse=B, caseSensitive=B)(lambda C, D, a: C.citeFilter(**a))
op('copy')(lambda C, D, a: C.copy())
op('chunk', n=[1, 2, 5])(lambda C, D, a: sorted(len(x) for x in C.chunk(a.get('n', 3))))
op('union')(lambda C, D, a: C | D)
op('meet')(lambda C, D, a: C & (C | D))
op('minus')(lambda C, D, a: C - D)
op('xor')(lambda C, D, a: C ^ D)
op('plus')(lambda C, D, a: C + D)
op('same')(lambda C, D, a: (C == D, C == C.copy(), hash(C) == hash(C)) if type(C).__hash__ else (C == D,))
op('text')(lambda C, D, a: (str(C), repr(C), [str(R) for R in C], len(C)))
op('ids')(lambda C, D, a: (sorted(R.id for R in C if C.containsID(R.id)), C.getID('nope'), sorted(R.id for R in C.badEntries())))
op('diffusion graph', weighted=B, sourceType=['raw', 'AU', 'PY', 'WC'], targetType=['raw', 'AU', 'WC'], labelEdgesBy=[None, 'PY'])(lambda C, D, a: mk.diffusionGraph(C, D, **a))
op('diffusion count', sourceType=['raw', 'AU', 'WC'], extraValue=[None, 'PY', 'WC'], pandasFriendly=B, compareCounts=B, numAuthors=B, useAllAuthors=B)(lambda C, D, a: mk.diffusionCount(C, D, **a))
op('diffusion backwards', sourceType=['raw', 'AU'], compareCounts=B)(lambda C, D, a: mk.diffusionCount(D, C, **a))
op('diffusion onto', nodeType=['citations', 'raw'])(lambda C, D, a: (lambda g: (mk.diffusionAddCountsFromSource(g, C, D, nodeType='citations'), g))(C.networkCoCitation()))


def each(f):
    def go(C, D, a):
        out = []
        for R in sorted(C, key=lambda y: str(y.id)):
            try:
                out.append((R.id, f(R, a)))
            except Exception as e:
                out.append((R.id, type(e).__name__))
        return out
    return go


op('createCitation', multiCite=B)(each(lambda R, a: R.createCitation(**a)))
op('bibString', maxLength=[10, 1000], WOSMode=B, restrictedOutput=B, niceID=B)(each(lambda R, a: R.bibString(**a)))
op('authGenders', countsOnly=B)(each(lambda R, a: R.authGenders(**a)))
op('subDict', tags=[['AU', 'TI', 'nope'], ['CR', 'year']], raw=B)(each(lambda R, a: canon(R.subDict(a.get('tags', ['AU']), **{k: v for k, v in a.items() if k == 'raw'}))))
op('record cites', field=[None, 'author', 'year'], values=[None, ['LEE K'], 1999], pandasFriendly=B)(each(lambda R, a: R.getCitations(**a)))
op('record cite list', field=[None, None, 'year'])(each(lambda R, a: R.getCitations(pandasFriendly=False, **a)))
op('record copy')(each(lambda R, a: R.copy()))
op('record text')(each(lambda R, a: (str(R), repr(R), R.title, canon(R.authors), len(R))))
op('writeRecord')(each(lambda R, a: file_of(lambda f: [R.writeRecord(h) for h in [open(f, 'w')] + []] and None, 'o.txt')))
op('items', raw=B)(each(lambda R, a: canon((list(R.items(**a)), list(R.values(**a)), list(R)))))

# ---- of grant collections
GRANTS = {}
for _n, _f in {'people': 'networkCoInvestigator', 'institutions': 'networkCoInvestigatorInstitution'}.items():
    GRANTS[_n] = (lambda r: opt(r, targetTags=[None, ['Investigator'], ['Name-Nom', 'PI Names'], 'Institution'], tagSeperator=[';', ','], count=B, weighted=B), lambda C, D, a, f=_f: getattr(C, f)(**a))
GRANTS['names'] = (lambda r: opt(r, tags=[None, ['Investigator'], ['Name-Nom', 'PI Names']]), each(lambda R, a: (R.getInvestigators(**a), R.getInstitutions(**a))))
GTAGS = ['Investigator', 'Name-Nom', 'PI Names', 'Institution', 'AwardID', 'Amount', 'nope']
for _n in ('ranked', 'times', 'onemode', 'tags', 'copy', 'union', 'minus', 'text', 'cooc', 'twomode', 'chunk', 'items', 'ids'):
    GRANTS[_n] = OPS[_n]
GT = {'tag': GTAGS, 'mode': GTAGS, 'tags': [['Investigator', 'Institution'], ['PI Names', 'Amount']]}


def choose(r, kind, name=None):
    ops = OPS if kind == 'records' else GRANTS
    name = name or r.choice(sorted(ops))
    a = ops[name][0](r)
    if kind == 'grants':
        a = {k: (r.choice(GT[k]) if k in GT and name != 'names' else v) for k, v in a.items()}
        for k in ('nodeAttribute', 'edgeAttribute'):
            a.pop(k, None)
        if name in ('ranked',) and 'tag' not in a:
            a['tag'] = 'Institution'
    key = name + ' ' + ', '.join('%s=%s' % (k, getattr(v, '__name__', repr(v))) for k, v in sorted(a.items()))
    return {'name': name, 'args': a, 'key': recs.text(key), 'run': ops[name][1]}


def run(o, C, D):
    """(digest of the result, arguments as before, the result)"""
    args = copy.deepcopy(o['args'])
    given = copy.deepcopy(o['args'])
    try:
        with silent():
            res = o['run'](C, D, given)
            d = digest(res)
    except Exception as e:
        res, d = None, 'raises ' + type(e).__name__
    return d, canon(args) == canon(given), res


def change(r, x):
    """the caller changes the result itself (not what it shares: records, and values of records)"""
    if isinstance(x, nx.Graph):
        for n, d in x.nodes(data=True):
            d.clear()
        for e in x.edges(data=True):
            e[-1]['weight'] = 'changed'
        if r.random() < .5:
            x.clear()
        else:
            x.add_edge('changed', 'also')
    elif isinstance(x, Collection):
        if r.random() < .3 and len(x):
            x.pop()
        elif r.random() < .5:
            x.clear()
        else:
            x.name = 'changed'
            x.bad = True
            for y in list(x)[:2]:
                x.discard(y)
    elif isinstance(x, dict):
        for v in list(x.values()):
            if isinstance(v, list) and r.random() < .7:
                v.clear() if r.random() < .5 else v.append('changed')
            elif isinstance(v, dict):
                v.clear()
        if r.random() < .4:
            x.clear()
        else:
            x['changed'] = 'changed'
    elif isinstance(x, (set, list)):
        if r.random() < .6 or not x:
            for y in x:
                if isinstance(y, tuple):
                    change(r, y)
            x.add('changed') if isinstance(x, set) else x.append('changed')
        else:
            x.clear()
    elif isinstance(x, tuple):
        for y in x:
            change(r, y)
