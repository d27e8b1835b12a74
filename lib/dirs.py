"""Files of every kind, directories of them, and what reading them gave."""
import csv, hashlib, importlib.util, io, os, random
import metaknowledge as mk
import wosfiles, medfiles
from metaknowledge.scopus.recordScopus import scopusHeader

RECORD = ['WOSRecord', 'MedlineRecord', 'ProQuestRecord', 'ScopusRecord']
GRANT = ['NSFGrant', 'CIHRGrant', 'NSERCGrant', 'FallbackGrant']
RULE = '_' * 60


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def wos(r, ids, damage):
    ls = list(wosfiles.HEAD)
    for i in ids:
        ls += wosfiles.lines(wosfiles.block(r, i)) + ['']
    ls.append('EF')
    if damage:
        ls = ls[:r.randrange(2, len(ls))]
    return ('\ufeff' if r.random() < .9 else '') + '\n'.join(ls) + r.choice(['', '\n']), 'utf-8'


def medline(r, ids, damage):
    ls = [''] if r.random() < .7 else []
    for i in ids:
        ls += medfiles.lines_of(r, i) + ['']
    if damage:
        i = r.randrange(2, len(ls) + 1)
        ls.insert(i, r.choice(['AD', 'x', 'TI']))
    return '\n'.join(ls) + '\n', 'latin-1'


def proquest(r, ids, damage):
    ls = [RULE, '', 'Report Information from ProQuest', 'May 1 2015', RULE, '', '', '', '', RULE, '', 'Table of contents']
    for n, i in enumerate(ids):
        ls += ['', '%d. Title %s: x' % (n + 1, i)]
    ls += ['', 'Bibliography', '', RULE, '']
    for n, i in enumerate(ids):
        ls += ['Document %d of %d' % (n + 1, len(ids)), '', 'T', '', 'Author: Lee, K', '', 'http://x/%s' % i, '', 'Title: Title %s: x' % i, '',
               'Subject: ' + r.choice(['a; b', 'caf\u00e9']), '', 'ProQuest document ID: ' + i, '', RULE, '']
    ls += ['Bibliography', '']
    if damage:
        ls = ls[:r.randrange(13, len(ls) - 1)]
    return '\n'.join(ls) + '\n', 'utf-8'


def scopus(r, ids, damage):
    rows = [','.join(scopusHeader)]
    for i in ids:
        rows.append(','.join({'EID': i, 'Authors': '"Lee K., Oh A."', 'Title': '"T ""q"", ' + i + '"', 'Year': r.choice(['1999', '2001']),
                              'References': r.choice(['', '"Kim, B., Why (2005) Book, 3"'])}.get(h, '') for h in scopusHeader))
    if damage:
        rows.insert(r.randrange(1, len(rows) + 1), r.choice(['stray', ',,,']))
    return '\ufeff' + '\n'.join(rows) + '\n', 'utf-8'


def table(header, rows):
    b = io.StringIO()
    w = csv.writer(b, lineterminator='\n')
    w.writerow(header)
    w.writerows(rows)
    return b.getvalue()


def nsf(r, ids, damage):
    i = ids[0] if ids else 'none'
    x = '<?xml version="1.0" encoding="UTF-8"?>\n<rootTag><Award><AwardTitle>T %s</AwardTitle>%s<Investigator><FirstName>K</FirstName><LastName>Lee</LastName></Investigator></Award></rootTag>\n' % (
        i, '' if damage else '<AwardID>%s</AwardID>' % i)
    return x, 'utf-8'


def cihr(r, ids, damage):
    t = 'Search Criteria: x,,,,,,,,,\nAll,,,,,,,,,\n,,,,,,,,,\n'
    return t + table(['Title', 'PI Names', 'Amount'], [[i, '' if damage else 'Lee, K; Oh, A', '12'] for i in ids] or [['x', 'y', 'z']]), 'latin-1'


def nserc(r, ids, damage):
    return table(['Cle', 'ApplicationID', 'Name', 'Department'], [['' if damage else i, '1', 'Lee, K', 'caf\u00e9 ' + i] for i in ids]), 'latin-1'


def fallback(r, ids, damage):
    return table(['id', 'Name'], [[i, 'Lee, K'] for i in ids]), 'latin-1'


# names and contents that are no grants: nothing below the header, rows longer than it, a table under another name
UNTABLES = [(n, t) for n in ('%d.csv', 'NSERC_%d.csv', 'cihr_%d.csv', 'NSERC_%d') for t in ('id,Name\n', 'id,Name', 'id,Name\n1,Lee\n2,Oh,x\n', 'id,Name\n1,Lee,x\n2,Oh\n')] + [
    ('%d.txt', 'id,Name\n1,Lee\n'), ('%d.csv.bak', 'id,Name\n1,Lee\n'), ('%d.xml', 'id,Name\n1,Lee\n'), ('cihr_%d', 'id,Name\n1,Lee\n'), ('nserc_%d', 'Cle,Name\n1,Lee\n'),
    ('cihr_%d', 'Search Criteria: x,,,,,,,,,\nAll,,,,,,,,,\n,,,,,,,,,\nTitle,Amount\na,1\n'),
    ('cihr_%d', 'Search Criterio: x,,,,,,,,,\nAll,,,,,,,,,\n,,,,,,,,,\nTitle,PI Names\na,1\n'),
    ('cihr_%d', 'Search Criteria: x,,,,,,,,,\nAll,,,,,,,,\n,,,,,,,,,\nTitle,PI Names\na,1\n'),
    ('cihr_%d', 'Search Criteria: x,,,,,,,,,\nAll,,,,,,,,,\n,,,,,,,,\nTitle,PI Names\na,1\n'),
    ('%d_cihr_', 'Search Criteria: x,,,,,,,,,\nAll,,,,,,,,,\n,,,,,,,,,\nTitle,PI Names\na,1\n'),
    ('%d.xml', ''), ('%d.xml', '<rootTag><Award>'), ('%d.xml', '<rootTag></rootTag>'), ('%d.xml', '<Award/>'), ('%d.xml', '<rootTag><Award/><Award/></rootTag>'),
    ('%d.csv', ','.join(scopusHeader) + '\n' + ',' * (len(scopusHeader) - 1) + '\n')]

MAKERS = {'WOSRecord': wos, 'MedlineRecord': medline, 'ProQuestRecord': proquest, 'ScopusRecord': scopus,
          'NSFGrant': nsf, 'CIHRGrant': cihr, 'NSERCGrant': nserc, 'FallbackGrant': fallback}
PREFIX = {'WOSRecord': 'WOS:', 'MedlineRecord': '1', 'ProQuestRecord': '2', 'ScopusRecord': '2-s2.0-', 'NSFGrant': '9', 'CIHRGrant': 'c', 'NSERCGrant': '7', 'FallbackGrant': 'f'}
IDS = {'WOSRecord': 'WOS:%s', 'MedlineRecord': 'PMID:%s', 'ProQuestRecord': 'PROQUEST:%s', 'ScopusRecord': 'EID:%s', 'NSFGrant': 'NSF:%s', 'NSERCGrant': 'NSERC:%s'}


def nothing(r, grants=False):
    """the bytes of a file nobody recognises"""
    k = r.randrange(10 if grants else 12)
    if k == 0:
        return b''
    if k == 1:
        return b'\n'
    if k == 2:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 10, 9000])))
    if k == 3:
        return '\n'.join('some text %d' % i for i in range(r.choice([1, 2, 40]))).encode()
    if k == 4:
        return b'<html><body>VR 2.0</body></html>\n' * 5
    if k == 5:
        return b'{"a": 1}\n'
    if k == 6:
        return ('\ufeffFN Thomson Reuters Web of Science\u2122\n\n\n\nVR 1.0\nPT J\nUT WOS:1\nER\n\nEF').encode('utf-8')
    if k == 7:
        return b'<?xml version="1.0" encoding="utf-7"?>\n<rootTag><Award/></rootTag>\n'
    if k == 8:
        return ('"' + 'x' * 140000).encode()
    if k == 9:
        return b'<rootTag><Award/><Award/></rootTag>'
    if k == 10:
        return ('\n\n\nPMID- 12\n').encode()
    return (r.choice(['', '\ufeff']) + ','.join(scopusHeader[:20]) + '\n').encode()


def suffix(r, kind, stem, ext):
    """a file name of the given extension that the reader of the kind accepts"""
    if kind == 'NSFGrant':
        return stem + '.xml'
    if kind == 'CIHRGrant':
        return 'cihr_' + stem + ext
    if kind == 'NSERCGrant':
        return 'NSERC_' + stem + ext
    if kind == 'FallbackGrant':
        return stem + '.csv'
    return stem + ext


def make(r, path, kind, ids, damage):
    if kind == '':
        put(path, nothing(r))
    else:
        text, encoding = MAKERS[kind](r, ids, damage)
        put(path, text.encode(encoding, 'replace'))


def seen(R):
    """identity and content of a record or grant"""
    raw = list(R.items(raw=True)) if hasattr(R, 'writeRecord') else [(k, R[k]) for k in R]
    src = [os.path.basename(str(R.sourceFile)), R.sourceLine] if hasattr(R, 'sourceFile') else []
    try:
        s = str(R.error)
    except Exception as x:
        s = type(x).__name__
    body = repr((type(R).__name__, bool(R.bad), raw, s if R.bad else ''))
    return {'k': ('bad:' + hashlib.sha1(body.encode('utf-8', 'surrogatepass')).hexdigest()[:12]) if R.bad else 'id:' + str(R.id),
            'c': hashlib.sha1((body + repr(src)).encode('utf-8', 'surrogatepass')).hexdigest()[:16]}


def deep(R):
    """everything one may look up in a record"""
    res = [seen(R)['c'], str(hash(R) is not None)]
    if hasattr(R, 'writeRecord'):
        keys = list(R) + ['year', 'title', 'authorsFull', 'authorsShort', 'citations', 'grants', 'keywords', 'j9', 'journal', 'abstract', 'volume', 'beginningPage', 'DOI']
        for k in keys:
            try:
                v = R.get(k)
            except Exception as x:
                v = type(x).__name__
            res.append((k, [str(x) for x in v] if isinstance(v, list) else str(v)))
    else:
        for k in ('getInvestigators', 'getInstitutions'):
            try:
                res.append((k, sorted(getattr(R, k)())))
            except Exception as x:
                res.append((k, type(x).__name__))
    return hashlib.sha1(repr(res).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def look(C):
    return {'recs': [seen(R) for R in C], 'errs': sorted(os.path.basename(str(k)) for k in C.errors), 'bad': bool(C.bad), 'types': sorted(C.collectedTypes if hasattr(C, 'collectedTypes') else C._collectedTypes)}


EMPTY = {'recs': [], 'errs': [], 'bad': False, 'types': []}


def snapshot(d):
    res = []
    for base, ds, fs in os.walk(d):
        for n in sorted(ds + fs):
            p = os.path.join(base, n)
            res.append((p, os.path.isdir(p), b'' if os.path.isdir(p) else open(p, 'rb').read(), os.stat(p).st_mtime))
    return sorted(res)
