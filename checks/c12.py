"""C12: citation parsing and identity."""
import copy, pickle, subprocess, sys, os, json
import metaknowledge as mk
import metaknowledge.citation as mkc
from metaknowledge import Citation
NOYEAR = -100000


def t(x):
    return '' if x is None else x if isinstance(x, str) else '!' + repr(x)


def fields(C, i):
    return {'op': 'fields', 'i': i, 'author': t(C.author), 'hasA': C.author is not None,
            'year': NOYEAR if C.year is None else C.year if type(C.year) is int else -99999, 'journal': t(C.journal),
            'V': t(C.V), 'P': t(C.P), 'DOI': t(C.DOI), 'misc': t(C.misc), 'bad': bool(C.bad), 'id': t(C.ID()),
            'anon': bool(C.isAnonymous()), 'str': str(C), 'extra': t(C.Extra()), 'allbut': t(C.allButDOI())}


J9 = {'NATURE': ['Nature'], 'J APPL PHYS': ['Journal of Applied Physics', 'Other'], 'EMPTY': [''], 'V1': ['Vee One']}
J9L = [[k, v[0]] for k, v in J9.items()]


def wos_case(ck, cid, texts, kind):
    def fn(ev):
        mkc.abbrevDict = {k: list(v) for k, v in J9.items()}
        cs = [Citation(x) for x in texts]
        order = list(range(len(cs)))
        ck.rng.shuffle(order)
        for i in order:
            ev.append(fields(cs[i], i + 1))
        for i in range(len(cs)):
            for j in range(len(cs)):
                a, b = cs[i], cs[j]
                if ck.rng.random() < .4:
                    b = ck.rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: Citation(str(x))])(b)
                ev.append({'op': 'eq', 'i': i + 1, 'j': j + 1, 'eq': a == b, 'ne': a != b, 'hash': hash(a) == hash(b)})
        for i in range(len(cs)):
            full = cs[i].FullJournalName()
            ev.append({'op': 'journal', 'i': i + 1, 'known': bool(cs[i].isJournal()), 'full': t(full)})
        for inv in (False, True):
            kept = mkc.filterNonJournals(list(cs), invert=inv)
            ev.append({'op': 'filter', 'invert': inv, 'kept': [next(i for i, c in enumerate(cs) if c is k) + 1 for k in kept]})
        ev.append({'op': 'dedup', 'n': len(set(cs))})
        # without the texts kept, a citation is its identity
        for i in range(len(cs)):
            mk.FAST_CITES = True
            try:
                F = Citation(texts[i])
                ev.append({'op': 'fast', 'i': i + 1, 'id': t(F.ID()), 'str': t(str(F)), 'bad': bool(F.bad), 'all': t(F.allButDOI()), 'eq': F == cs[i] and hash(F) == hash(cs[i])})
            finally:
                mk.FAST_CITES = False
        # nothing above changed them
        for i in range(len(cs)):
            ev.append(fields(ck.rng.choice([lambda x: x, lambda x: pickle.loads(pickle.dumps(x)), copy.copy])(cs[i]), i + 1))
    ck.case(cid, kind, fn, texts=texts, parts=[], j9=J9L, repro={'texts': texts})


def main(ck):
    r = ck.rng
    q = lambda *a: '{' + ', '.join('"%s"' % x for x in a) + '}'
    cons = {'Authors': q('', 'Smith J.', 'ONEIL-Mc A', '[anonymous]') if not ck.thorough else q('', 'Smith J.', "O'neil-Mc A", '[anonymous]', '*WHO', 'X', 'de la Cruz 3rd'),
            'Years': '<- YearsT' if ck.thorough else '<- YearsQ', 'Journals': q('', 'Nature', 'J APPL PHYS'),
            'Vs': q('', 'V12', 'v A-1'), 'Ps': q('', 'P34', 'pB.2'), 'Dois': q('', '10.1/x'), 'Miscs': q('', 'ARTN 5') if not ck.thorough else q('', 'ARTN 5', 'X, Y')}
    cases = ck.mc('MC_Citation', emit='T', workers=1, invariants=['PartsComeBack', 'NothingLost', 'Incomplete', 'Emit'], constants=cons)
    texts = [c['text'] for c in cases]
    r.shuffle(texts)
    k = 3
    lim = ck.n(450, 8000)
    for i in range(0, min(len(texts), lim) - k, k):
        wos_case(ck, 'M%d' % i, texts[i:i + k], 'wos-model')
    # near-identical families: same identity, different volume/page/DOI and the reverse
    A = ['Smith J.', 'SMITH J', 'smith j', 'Smith K', '[ANONYMOUS]', '[Anonymous]', '*UNESCO', 'A', 'Lee', "D'Arcy-Lu T. R.", 'X Y Z.']
    J = ['NATURE', 'Nature', 'J APPL PHYS', 'J APPL PHY', 'V1', 'P OXFORD', 'EMPTY', 'DOI J', '12 MONKEYS']
    for i in range(ck.n(130, 2500)):
        fam = []
        base = [r.choice(A), str(r.choice([1999, 2000, 87, 12345, 5, -350, -44, -7])), r.choice(J)]
        for _ in range(r.choice([2, 3, 4])):
            p = list(base)
            if r.random() < .5:
                w = r.randrange(3)
                p[w] = r.choice([A, ['1999', '2000', '1998', '87', '-87', '350', '-350', '-1999'], J][w])
            if r.random() < .15:
                del p[r.randrange(len(p))]
            if r.random() < .5: p.append('V' + r.choice(['1', '22', 'A']))
            if r.random() < .5: p.append('P' + r.choice(['1', '22', 'E7']))
            if r.random() < .15: p.append(r.choice(['ARTN 3', 'UNPUB', '44', 'x', 'a\nb', 'c\n d']))
            if r.random() < .5: p.append('DOI ' + r.choice(['10.1/a', '10.1/b', '[10.1/c, 10.2/d]', '10.1/a\nb']))
            fam.append(', '.join(p))
        wos_case(ck, 'F%d' % i, fam, 'wos-family')
    # arbitrary text around the grammar
    alpha = ['Smith', ' ', ', ', ',', '1999', '-', '7', '-350', 'V', 'P', 'DOI ', '.', 'X', '(a)', '[Anonymous]', '123456', "'", ', DOI ', ', V2', ', P3']
    for i in range(ck.n(120, 4000)):
        wos_case(ck, 'R%d' % i, [''.join(r.choice(alpha) for _ in range(r.randrange(0, 9))) for _ in range(2)], 'wos-random')
    # Scopus
    for i in range(ck.n(60, 1000)):
        parts = []
        for _ in range(3):
            parts.append({'author': r.choice(['Smith, J.A.', 'Lee, K.', 'De Vries, H.-J.', "Mc Donald, R."]),
                          'extra': r.choice(['', 'Doe, J., ', 'Roe, R., Poe, E.A., ']), 'title': r.choice(['', 'A study of things', 'Networks: a view']),
                          'year': r.choice([1999, 2000, 1875]), 'journal': r.choice(['Nature', 'Journal of Applied Physics', 'J. Phys. B']),
                          'V': r.choice(['', '12', 'A-1']), 'issue': r.choice(['', '3', '1-2']), 'P': r.choice(['', '34-56', '7'])})
            if parts[-1]['V'] == '':
                parts[-1]['issue'] = ''

        def fn(ev, parts=parts):
            mkc.abbrevDict = {k: list(v) for k, v in J9.items()}
            cs = []
            for k, p in enumerate(parts):
                text = p['author'] + ', ' + p['extra'] + (p['title'] + ' ' if p['title'] else '') + '(%d) ' % p['year'] + p['journal']
                if p['V']:
                    text += ', ' + p['V'] + (' (%s)' % p['issue'] if p['issue'] else '')
                if p['P']:
                    text += ', pp. ' + p['P']
                C = Citation(text, scopusMode=True)
                C = ck.rng.choice([lambda x: x, copy.copy, lambda x: pickle.loads(pickle.dumps(x))])(C)
                cs.append(C)
                ev.append({'op': 'scopus', 'i': k + 1, 'author': t(C.author), 'year': C.year, 'journal': t(C.journal), 'V': t(C.V),
                           'issue': t(C.issue), 'P': t(C.P), 'bad': bool(C.bad), 'id': C.ID(), 'extra': t(C.Extra()), 'allbut': t(C.allButDOI()), 'str': str(C), 'text': text, 'anon': bool(C.isAnonymous())})
            for a in range(len(cs)):
                ev.append({'op': 'scopusjournal', 'i': a + 1, 'known': bool(cs[a].isJournal()), 'full': t(cs[a].FullJournalName())})
                for b in range(len(cs)):
                    ev.append({'op': 'scopuseq', 'i': a + 1, 'j': b + 1, 'eq': cs[a] == cs[b], 'ne': cs[a] != cs[b], 'hash': hash(cs[a]) == hash(cs[b])})
            for text in ('Some Book, no year here', '', 'Title only'):
                C = Citation(text, scopusMode=True)
                ev.append({'op': 'badscopus', 'bad': bool(C.bad), 'id': C.ID(), 'text': text, 'str': str(C), 'anon': bool(C.isAnonymous()),
                           'extra': t(C.Extra()), 'allbut': t(C.allButDOI()), 'known': bool(C.isJournal())})
        ck.case('S%d' % i, 'scopus', fn, texts=[], parts=parts, j9=J9L)
    # every citation of the sample files, in threes
    real = []
    for f in ['testFile.isi', 'bad.isi', 'ManyAuthors.isi', 'OnePaper2.isi', 'TwoPaper.isi', 'paper.isi']:
        p = os.path.join('/repo/metaknowledge/tests', f)
        if os.path.exists(p):
            for R in mk.RecordCollection(p):
                real += [x for x in (R.get('CR', raw=True) or []) if x.isascii() and len(x) < 120]
    real = sorted(set(real))
    r.shuffle(real)
    ck.notes['real_citations'] = len(real)
    for i in range(0, min(len(real), ck.n(300, 6000)), 3):
        wos_case(ck, 'D%d' % i, real[i:i + 3], 'wos-real')
    # a pickle made in another process (another hash seed) still compares equal
    texts = ['Smith J., 1999, NATURE, V1', 'bad one', '[Anonymous], 2000, X']

    def xproc(ev):
        code = "import sys,pickle,metaknowledge as mk; cs=[mk.Citation(x) for x in %r]; [hash(c) for c in cs]; sys.stdout.buffer.write(pickle.dumps(cs))" % texts
        env = dict(os.environ, PYTHONHASHSEED='4242')
        cs = pickle.loads(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.PIPE, check=True).stdout)
        for i, c in enumerate(cs):
            ev.append(fields(c, i + 1))
            for j, x in enumerate(texts):
                d = Citation(x)
                ev.append({'op': 'eq', 'i': i + 1, 'j': j + 1, 'eq': c == d, 'ne': c != d, 'hash': hash(c) == hash(d)})
    ck.case('X', 'pickle-across-processes', xproc, limit=60, texts=texts, parts=[], j9=J9L)
    ck.validate('Trace_Citation')
