"""Collections of records that make citations (their text known), and what statistics say about them."""
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord
from metaknowledge.scopus import ScopusRecord
NOYEAR = -100000
AUTHORS = ['Smith J', 'SMITH J.', 'Lee K', '[ANONYMOUS]', 'Oh A B', '*WHO']
JOURNALS = ['NATURE', 'J X', 'Nature', 'BOOK', 'V8 REV']
S_AUTH = ['Smith, J.A.', 'Lee, K.', 'De Vries, H.-J.']
S_ODD = ['A book without a year', 'Unpublished notes', 'http://a.b/c']
S_J = ['Nature', 'Journal of Applied Physics', 'J. Phys. B']


def wtext(r, years):
    x = r.random()
    p = [r.choice(AUTHORS)] if x < .92 else []
    if r.random() < .9:
        p.append(str(r.choice(years)))
    if r.random() < .9:
        p.append(r.choice(JOURNALS))
    if r.random() < .4:
        p.append('V' + r.choice(['1', '2', 'A']))
    if r.random() < .4:
        p.append('P' + r.choice(['1', '7']))
    if r.random() < .08:
        p.append(r.choice(['ARTN 5', 'UNPUB', 'x']))
    if r.random() < .3:
        p.append('DOI ' + r.choice(['10.1/a', '10.1/b']))
    return ', '.join(p) or 'NOTHING'


def sparts(r, years):
    p = {'author': r.choice(S_AUTH), 'extra': r.choice(['', '', 'Doe, J., ']), 'title': r.choice(['', 'A study of things']), 'year': r.choice(years),
         'journal': r.choice(S_J), 'V': r.choice(['', '12']), 'issue': '', 'P': r.choice(['', '34-56'])}
    if p['V'] and r.random() < .4:
        p['issue'] = '3'
    return p


def stext(p):
    s = p['author'] + ', ' + p['extra'] + (p['title'] + ' ' if p['title'] else '') + '(%d) ' % p['year'] + p['journal']
    if p['V']:
        s += ', ' + p['V'] + (' (%s)' % p['issue'] if p['issue'] else '')
    return s + (', pp. ' + p['P'] if p['P'] else '')


def collection(r, n, years, scopus=.2, most=6):
    """n abstract records [year, cites] with the raw fields of the real ones"""
    res = []
    texts = [wtext(r, years) for _ in range(r.choice([3, 5, 12]))]
    parts = [sparts(r, [y for y in years if 10 <= y < 100000] or [1999]) for _ in range(4)]
    for i in range(n):
        y = r.choice([x for x in years if 1000 <= x < 10000]) if r.random() < .85 else NOYEAR
        k = r.choice([0, 1, 2, 3, most])
        if r.random() < scopus:
            y = y if y > 0 else 1999
            # some are of the form no citation has: all text
            q = [r.choice(S_ODD) if r.random() < .15 else r.choice(parts) for _ in range(max(k, 1))]
            res.append({'src': 'S', 'year': y, 'cites': [{'k': 'B', 'text': p} if isinstance(p, str) else {'k': 'S', 'parts': p} for p in q],
                        'raw': {'EID': '2-%d' % i, 'Authors': 'Poe E.', 'Year': str(y), 'References': '; '.join(p if isinstance(p, str) else stext(p) for p in q)}})
        else:
            q = [r.choice(texts) if r.random() < .7 else wtext(r, years) for _ in range(k)]
            raw = {'UT': ['WOS:%d' % i], 'TI': ['Title %d' % i], 'AU': ['Own, A%d' % i]}
            if y != NOYEAR:
                raw['PY'] = [str(y)]
            if q:
                raw['CR'] = list(q)
            res.append({'src': 'W', 'year': y, 'cites': [{'k': 'W', 'text': t} for t in q], 'raw': raw})
    return res


def build(a):
    return (WOSRecord if a['src'] == 'W' else ScopusRecord)({k: (list(v) if isinstance(v, list) else v) for k, v in a['raw'].items()})


def abstract(col):
    return [{'year': a['year'], 'cites': a['cites']} for a in col]
