"""C26: texts for language processing."""
import os
import metaknowledge as mk
import recs
import diffusion as df
# stand-ins of the same class of character, for the specification's ASCII
TR = str.maketrans({'é': 'q', 'É': 'Q', '٣': '7', '\u00a0': '\t', '–': ';'})
STEM = {'title': str.title, 'cut': lambda w: w[:3], 's': lambda w: w + 's'}
EXTRA = {'W': ['ID', 'DE', 'AU', 'TI', 'PY', 'TC', 'Z9', 'id', 'year', 'abstract', 'CR', 'J9', 'nope'], 'M': ['AU', 'PG', 'OT', 'id', 'TI', 'year', 'year', 'nope'],
         'S': ['Title', 'Year', 'authorsShort', 'References', 'id', 'nope'], 'P': ['Author', 'Subject', 'title', 'nope']}
FIELD = {'W': ['AB', 'TI', 'abstract', 'ID', 'DE', 'PY', 'AU', 'CR', 'year', 'nope'], 'M': ['AB', 'TI', 'OT', 'abstract', 'title', 'AU', 'nope'],
         'S': ['Abstract', 'Title', 'keywords', 'authorsShort', 'nope'], 'P': ['Abstract', 'Title', 'Subject', 'nope']}
ABS = {'W': 'AB', 'M': 'AB', 'S': 'Abstract', 'P': 'Abstract'}
WORD = ['the', 'a', 'of', 'The', 'cat', 'catalog', 'x-ray', 'H2O', '3.5', '-', 'net_work', 'é', 'caf\u00e9s', '–', '٣', "isn't", '\t', '\n', '', 'a\nb', 'end.', '(1999)', 'of the', 'aa']
MARK = ['. &COPY; ', '. Crown Copyright', ' Elsevier Ltd. ', ' Elsevier Ltd.  ', '. Copyright', '. Published by Els', '. (c) ', '. (C) ', '. (C) 1999 ', '. C 2001 ', '. c) 2001 ', '. (c 1987 x', '. 2003 Elsevier B.V. ', '. 2003 Els', '.(C) 2000 ',
        '. (C)\n2000 ', '. copyright', '. C 20011 ', '. (C) 1999']


def raw(s):
    return recs.text(s.translate(TR))


def tag(v):
    return ('i:' if isinstance(v, int) and not isinstance(v, bool) else 's:') + raw(str(v))


def text(r, n):
    s = ' '.join(r.choice(WORD) for _ in range(n))
    if r.random() < .5:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            # markers that share a blank have no single last occurrence
            s += ('z' if 'Elsevier Ltd.' in s else '') + r.choice(MARK) + ' '.join(r.choice(WORD) for _ in range(r.choice([0, 1, 3]))) + r.choice(['', ' ', '\n', '.'])
    return s


def opts(r, nlp):
    o = {'given': r.random() < .5, 'drop': [], 'lower': r.random() < .6, 'numbers': r.random() < .6, 'nonwords': r.random() < .6, 'blanks': r.random() < .6,
         'copyright': nlp and r.random() < .5, 'stem': r.choice(['', '', '', 'title', 'cut', 's'])}
    kw = {}
    if o['given']:
        o['drop'] = r.sample(['a', 'the', 'of', 'cat', 'of the', 'The', 'x-ray', '', 'zzz', 'end.', 'é'], r.choice([0, 1, 2, 4]))
        kw['dropList'] = r.choice([list, tuple])(o['drop'])
    for a, b in (('lower', 'lower'), ('removeNumbers', 'numbers'), ('removeNonWords', 'nonwords'), ('removeWhitespace', 'blanks')):
        if not o[b] or r.random() < .3:
            kw[a] = o[b]
    if o['copyright']:
        kw['removeCopyright'] = True
    if o['stem']:
        kw['stemmer'] = STEM[o['stem']]
    o['drop'] = [raw(x) for x in o['drop']]
    return o, kw


def main(ck):
    r = ck.rng
    inv = ['NoneLeft', 'OthersStay', 'NothingLost', 'Found', 'Exactly', 'WordsAgree']
    ck.mc('MC_TextPrep', invariants=inv, constants={'MaxLen': 3 if not ck.thorough else 4, 'OnePass': 'FALSE'})
    ck.mc_fails('MC_TextPrep', 'NoneLeft', constants={'MaxLen': 3, 'OnePass': 'TRUE'})
    texts = ck.mc('MC_TextPrep', invariants=['Emit'], constants={'MaxLen': 3 if ck.thorough else 2, 'OnePass': 'FALSE'}, emit='P', workers=1)
    r.shuffle(texts)
    m = 0
    for n in range(ck.n(260, 4000)):
        src = r.choice('WWWMSP')
        pool, fs = [], []
        for i in range(r.choice([1, 1, 2, 4])):
            f = recs.raw(r, src, '%d' % i, n=r.choice([0, 2]))
            if src == 'W' and r.random() < .3:
                f = [x for x in f if x['t'] != 'TC'] + [{'t': 'TC', 'v': ['0']}]
            if src == 'M' and r.random() < .3:
                f = [x for x in f if x['t'] != 'DP'] + [{'t': 'DP', 'v': ['Spring']}]
            if r.random() < .9:
                f = [x for x in f if x['t'] != ABS[src]]
                v = text(r, r.choice([0, 1, 3, 8, 20, 70 if r.random() < .3 else 5]))
                if r.random() < .4:
                    v = texts[m % len(texts)]['s']
                    m += 1
                v = v.split('\n') if src in 'WP' and r.random() < .3 else [v]
                f.append({'t': ABS[src], 'v': v})
            fs.append(f)
            pool.append({'src': src, 'f': [{'t': x['t'], 'v': [raw(s) for s in x['v']]} for x in f], 'id': ''})

        def go(ev):
            real = [recs.make(src, f) for f in fs]
            for p, R in zip(pool, real):
                p['id'] = R.id
            r.shuffle(real)
            RC = mk.RecordCollection(real, name='nlp')
            before = df.snapshot(RC)
            same = True
            for what in r.sample(['nlp', 'nlp', 'burst', 'copyright'], 2):
                if what == 'copyright':
                    ev.append({'op': what, 'found': [raw(s) for s in RC.findProbableCopyright()]})
                    continue
                o, kw = opts(r, what == 'nlp')
                e = {'op': what, 'o': o, 'written': r.random() < .6, 'file': ''}
                if e['written']:
                    kw['outputFile'] = 'out.csv'
                    if r.random() < .3:
                        open('out.csv', 'w').write('of before\n')
                drop = list(kw.get('dropList', []))
                if what == 'nlp':
                    e['extra'] = []
                    if r.random() < .5:
                        extra = [r.choice(EXTRA[src]) for _ in range(r.choice([0, 1, 2, 3]))]
                        kw['extraColumns'] = list(extra)
                        e['extra'] = extra
                    d = RC.forNLP(**kw)
                    same = same and kw.get('extraColumns', e['extra']) == e['extra']
                    e['cols'] = list(d)
                    e['even'] = {len(v) for v in d.values()} == {len(RC)}
                    e['rows'] = [[tag(d[c][i]) for c in d] for i in range(len(RC))] if e['even'] else []
                else:
                    e['tag'] = r.choice(FIELD[src])
                    d = RC.forBurst(e['tag'], **kw)
                    e['rows'] = [[str(y), raw(w)] for y, w in zip(d['year'], d['word'])] if list(d) == ['year', 'word'] and len(d['year']) == len(d['word']) else [['?', '?']]
                same = same and list(kw.get('dropList', [])) == drop
                if e['written']:
                    e['file'] = raw(open('out.csv', newline='').read())
                    os.remove('out.csv')
                ev.append(e)
            ev.append({'op': 'after', 'same': same and before == df.snapshot(RC)})
        ck.case('N%d' % n, 'texts-' + src, go, pool=pool)
    ck.validate('Trace_TextPrep')
