"""Raw records of the four sources, and what lookups on them give."""
from metaknowledge import Citation
from metaknowledge.WOS import WOSRecord
from metaknowledge.medline import MedlineRecord
from metaknowledge.scopus import ScopusRecord
from metaknowledge.proquest import ProQuestRecord
from metaknowledge.grants.medlineGrant import MedlineGrant
from metaknowledge.grants.scopusGrant import ScopusGrant
CLASSES = {'W': WOSRecord, 'M': MedlineRecord, 'S': ScopusRecord, 'P': ProQuestRecord}
SPECIALS = ['id', 'grants', 'selfCitation', 'year', 'month', 'volume', 'beginningPage', 'DOI', 'address', 'j9', 'citations', 'authorsShort', 'authorsFull',
            'title', 'journal', 'keywords', 'abstract']
ODD = ['nope', 'ti', 'TITLE', '', 'UT ', 'Year', 'AU', 'PY', 'Authors', 'Author', 'AB', 'DP', 'grant', 'TI']
ID = {'W': 'UT', 'M': 'PMID', 'S': 'EID', 'P': 'ProQuest document ID'}
WORDS = ['alpha', 'Beta', 'x-ray', 'de; f', 'g, h', 'Univ. of X', '10.1/ab', '(1999)', "O'Neil", 'a : b', '[q] r', '"z"', '{y}', 'é', 'Smith, J', 'and', ';', '2005']
NAMES = ['Lee K', 'Oh A', 'Smith J', "O'Neil-Baker XY", 'van der A B', 'WHO', 'Li']


def words(r, n=None, ws=WORDS):
    return ' '.join(r.choice(ws) for _ in range(n or r.choice([1, 1, 2, 4])))


PLAIN = [w for w in WORDS if all(ord(c) < 128 for c in w)]


def many(r, f, ns=(1, 1, 2, 3, 5)):
    return [f() for _ in range(r.choice(ns))]


def again(one, some):
    """a field that has one value, sometimes stored over several lines"""
    def f(r, t, *a):
        v = one(r, t, *a)
        return v + one(r, t, *a) if t in some and len(v) == 1 and r.random() < .08 else v
    return f


def wos_(r, t):
    name = lambda: r.choice(NAMES).replace(' ', ', ', 1)
    if t in ('AU', 'AF', 'BE', 'BA', 'BF', 'ED'):
        return many(r, name)
    if t in ('TC', 'PG', 'NR', 'Z9'):
        return [r.choice(['0', '7', '012', '365'])]
    if t == 'PY':
        return [str(r.randrange(1900, 2030))]
    if t == 'PD':
        return [r.choice(['JAN', 'FEB-MAR', 'Dec 12', 'SPR', 'SUM', 'FAL', 'WIN', 'MAY 3 2001', '7', '11 x', 'oct', 'SEP-OCT 9'])]
    if t == 'C1':
        return many(r, lambda: r.choice(['', '[Lee, K; Oh, A] ', '[Li] [x] ']) + words(r, ws=['X Univ,', 'Y', 'q] z', 'Dept [a]', 'Canada.']))
    if t == 'CR':
        return many(r, lambda: cite(r), (1, 2, 3, 6))
    if t in ('DE', 'ID', 'WC', 'SC', 'FU', 'EM', 'OI', 'RI', 'BN'):
        s = '; '.join(words(r, r.choice([1, 2]), PLAIN) for _ in range(r.choice([1, 2, 4])))
        return wrap(r, s)
    if t in ('SO', 'PI', 'JI', 'PU'):
        return wrap(r, words(r, 3, PLAIN))
    if t in ('BP', 'EP', 'VL'):
        return [r.choice([' 12', '3 ', 'S4', '100-2', '12', 'A B', ''])]
    if t == 'SP':
        return many(r, lambda: ', '.join(words(r, 1) for _ in range(r.choice([1, 2]))))
    return many(r, lambda: words(r) if r.random() < .95 else '')


def wrap(r, s):
    out, cur = [], []
    for w in s.split(' '):
        cur.append(w)
        if r.random() < .2:
            out.append(' '.join(cur))
            cur = []
    if cur or not out:
        out.append(' '.join(cur))
    return out


def cite(r):
    return r.choice(['%s, %d, J %s, V%d, P%d', '%s, %d, J %s, V%d, P%d, DOI 10.1/x', '%s, %d, %s BOOK %d %d']) % (
        r.choice(NAMES), r.randrange(1950, 2015), r.choice('XYZ'), r.randrange(30), r.randrange(500))


wos = again(wos_, ('PY', 'PD', 'BP', 'EP', 'VL', 'TC', 'PG', 'NR', 'Z9'))


def medline_(r, t, authors):
    if t in ('AU', 'FAU'):
        return [a if t == 'AU' else a.replace(' ', ', ', 1) for a in authors]
    if t == 'AD':
        return [a + ' : ' + r.choice(['; '.join(words(r, 1, ['X Univ', 'Y Dept', 'Z', '', 'a : b']) for _ in range(r.choice([1, 1, 2, 3]))), '', ';'])
                for a in r.sample(authors, len(authors)) if r.random() < .8] or ['None : q']
    if t == 'AUID':
        return [a + ' : ' + words(r, 1) for a in r.sample(authors, len(authors)) if r.random() < .7] or ['None : q']
    if t == 'DP':
        return [r.choice(['2005 Jan', '2005 Jan-Feb', '2005', '1998 Spring', '1998-1999', '98a Sum', 'x 3', '2001 Dec 12', '2001 11', '1999 Oct-1999 Dec', '2000 12-3', '-5', '12345', 'Win', '0000 May'])]
    if t == 'PG':
        return [r.choice(['12-5', '1234', 'suppl 3-4', 'S1; S2', '12; 15-6', 'e1', '', 'A3 x'])]
    if t == 'VI':
        return [r.choice(['12', '3 Pt 1', 'Suppl', '', 'A-1'])]
    if t == 'AID':
        return many(r, lambda: r.choice(['S123 [pii]', '10.1/%d [doi]' % r.randrange(9), '[doi]', 'x[doi]', '10.1/q [doi] z']))
    if t == 'GR':
        return many(r, lambda: r.choice(['R01 AB1/AB/NIH HHS/United States', 'x/Wellcome Trust/United Kingdom', 'P3/CA/NCI NIH HHS/United States', 'Canadian Institutes/Canada']))
    return many(r, lambda: words(r) + ('\n' + words(r) if r.random() < .3 else ''))


medline = again(medline_, ('DP', 'PG', 'VI'))


def scopus(r, t):
    if t == 'Authors':
        return ', '.join(r.choice(NAMES) + '.' for _ in range(r.choice([1, 1, 2, 4])))
    if t in ('Year', 'Page count', 'Cited by', 'Conference code'):
        return str(r.randrange(1900, 2030))
    if t == 'References':
        return '; '.join('%s., %s, Title %s (%d) J %s, %d, pp. %d-9' % (r.choice(NAMES), r.choice(NAMES), r.choice('ABC'), r.randrange(1950, 2015), r.choice('XYZ'), r.randrange(30), r.randrange(99)) for _ in range(r.choice([1, 2, 5])))
    if t == 'Funding Details':
        return '; '.join(r.choice(['NSF, National Science Foundation', '12, AB, Agency', 'Alone', 'X-1, NIH, Institutes']) for _ in range(r.choice([1, 2, 3])))
    return words(r) if r.random() < .5 else '; '.join(words(r, 1) for _ in range(3))


def proquest(r, t):
    if t == 'Degree date':
        return [str(r.randrange(1950, 2020))]
    if t == 'Classification':
        return many(r, lambda: '; '.join(r.choice(['0338: Sociology', '0700', '1: a: b']) for _ in range(r.choice([1, 2, 3]))), (1, 1, 2))
    return many(r, lambda: words(r), (1, 1, 2, 3))


from metaknowledge.WOS.tagProcessing.tagFunctions import tagToFunc as _w
from metaknowledge.medline.tagProcessing.tagFunctions import medlineTagToFunc as _m
from metaknowledge.scopus.tagProcessing.tagFunctions import scopusTagToFunction as _s
WTAGS = ['PT', 'AF', 'GP', 'BE', 'AU', 'BA', 'BF', 'CA', 'ED', 'TI', 'SO', 'SE', 'BS', 'LA', 'DT', 'CT', 'CY', 'HO', 'CL', 'SP', 'DE', 'ID', 'AB', 'C1', 'RP', 'EM', 'RI', 'OI', 'FU',
         'FX', 'CR', 'NR', 'TC', 'Z9', 'PU', 'PI', 'PA', 'SC', 'SN', 'EI', 'BN', 'J9', 'JI', 'PD', 'PY', 'VL', 'IS', 'PN', 'SU', 'SI', 'MA', 'BP', 'EP', 'AR', 'PG', 'WC', 'DI', 'D2', 'GA', 'PM', 'Q7']
MTAGS = sorted({'IR', 'FIR', 'PUBM', 'CN', 'MHDA', 'LID', 'EDAT', 'OCI', 'SB', 'DA', 'PG', 'GS', 'VI', 'OWN', 'MID', 'PMC', 'TT', 'PST', 'AU', 'NM', 'SO', 'IP', 'MH', 'DP', 'TI', 'OT', 'OTO', 'PT',
                'AB', 'AD', 'LA', 'TA', 'JT', 'PL', 'FAU', 'STAT', 'RF', 'LR', 'AID', 'AUID', 'SI', 'ISBN', 'RN', 'JID', 'GR', 'IS', 'XX', 'DEP', 'CIN', 'BTI'})
STAGS = ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'Page count', 'Cited by', 'DOI', 'Link', 'Affiliations', 'Authors with affiliations',
         'Abstract', 'Author Keywords', 'Index Keywords', 'Molecular Sequence Numbers', 'Chemicals/CAS', 'Tradenames', 'Manufacturers', 'Funding Details', 'Funding Text', 'References',
         'Correspondence Address', 'Editors', 'Sponsors', 'Publisher', 'Conference name', 'Conference date', 'Conference location', 'Conference code', 'ISSN', 'ISBN', 'CODEN', 'PubMed ID',
         'Language of Original Document', 'Abbreviated Source Title', 'Document Type', 'Source', 'Other']
PTAGS = ['Author', 'Title', 'Advisor', 'Name', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Degree date', 'Department', 'Dissertation/thesis number', 'Document type',
         'Language', 'Number of pages', 'Place of publication', 'Publication year', 'School code', 'Source', 'Source type', 'University location', 'University/institution', 'ISBN', 'Publication subject',
         'Classification', 'Identifier / keyword', 'Subject', 'Abstract', 'Links', 'New label', 'url']
CORE = {'W': ['AU', 'AF', 'TI', 'PY', 'J9', 'VL', 'BP', 'DI', 'CR', 'DE', 'ID', 'AB', 'C1', 'PD', 'SO'],
        'M': ['AU', 'FAU', 'TI', 'DP', 'TA', 'JT', 'VI', 'PG', 'AID', 'AD', 'OT', 'AB', 'GR', 'AUID'],
        'S': ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Page start', 'DOI', 'References', 'Abbreviated Source Title', 'Index Keywords', 'Abstract'],
        'P': ['Author', 'Title', 'Degree date', 'Abstract', 'Identifier / keyword', 'Subject', 'Classification', 'Advisor']}
ALL = {'W': WTAGS, 'M': MTAGS, 'S': STAGS, 'P': PTAGS}


def raw(r, src, uid, n=None):
    """A random record as a list of {t, v}; v a list of lines."""
    tags = []
    for t in CORE[src]:
        if r.random() < .6:
            tags.append(t)
    tags += [t for t in r.sample(ALL[src], min(len(ALL[src]), r.randrange(0, 12) if n is None else n)) if t not in tags]
    r.shuffle(tags)
    authors = r.sample(NAMES, r.choice([1, 2, 3]))
    f = []
    for t in tags:
        v = {'W': lambda: wos(r, t), 'M': lambda: medline(r, t, authors), 'S': lambda: [scopus(r, t)], 'P': lambda: proquest(r, t)}[src]()
        f.append({'t': t, 'v': v})
    u = {'W': 'WOS:' + uid, 'M': uid, 'S': '2-s2.0-' + uid, 'P': uid}[src]
    f.insert(r.randrange(len(f) + 1), {'t': ID[src], 'v': [u]})
    return f


def make(src, f):
    return CLASSES[src]({x['t']: (x['v'][0] if src == 'S' else list(x['v'])) for x in f})


def text(s):
    """Text with everything but ASCII escaped (no separator among the replacements)."""
    return s if s.isascii() else s.encode('ascii', 'backslashreplace').decode()


def ascii_fields(f):
    return [{'t': text(x['t']), 'v': [text(s) for s in x['v']]} for x in f]


def val(v):
    """The observation of a decoded value."""
    if isinstance(v, bool) or v is None:
        return {'k': 'x', 'v': repr(v)}
    if isinstance(v, str):
        return {'k': 's', 'v': text(v)}
    if isinstance(v, int):
        return {'k': 'i', 'v': v}
    if isinstance(v, Citation):
        return {'k': 't', 'v': text(str(v))}
    if isinstance(v, dict):
        return {'k': 'd', 'v': [[text(k)] + ([text(s) for s in x] if isinstance(x, list) else [text(x)]) for k, x in v.items()]}
    if isinstance(v, list):
        if all(isinstance(x, str) for x in v):
            return {'k': 'l', 'v': [text(x) for x in v]}
        if all(isinstance(x, Citation) for x in v):
            return {'k': 'c', 'v': [text(str(x)) for x in v]}
        if all(isinstance(x, (MedlineGrant, ScopusGrant)) for x in v):
            return {'k': 'g', 'v': [text(x.original) for x in v]}
        if all(isinstance(x, tuple) and all(isinstance(s, str) for s in x) for x in v):
            return {'k': 'm', 'v': [[text(s) for s in x] for x in v]}
    return {'k': 'x', 'v': text(repr(v))[:200]}


def look(R, key):
    try:
        return val(R[key])
    except KeyError:
        return {'k': 'a', 'v': ''}
    except Exception as e:
        return {'k': 'exc', 'v': type(e).__name__}


def names(src):
    C = CLASSES[src]
    out = {}
    for t in ALL[src] + [ID[src]]:
        a = C.getAltName(t)
        if a:
            out[t] = a
    return out
