"""C32: genders of authors."""
import os, csv
import metaknowledge as mk
import metaknowledge.genders.nameGender as ng
from metaknowledge.WOS import WOSRecord
from metaknowledge.medline import MedlineRecord
from metaknowledge.scopus import ScopusRecord
from metaknowledge.proquest import ProQuestRecord
import recs
import diffusion as df
from mbv import num
GIVEN = ['Ann', 'ann', 'ANN', 'Ann-Lu', 'Ann B', 'A', 'A.', 'J. Ann', 'Bob', 'Bob C D', "D'Arcy", "d'arcy x", 'Lee', '', 'J.R.', 'Bob, Jr', 'de Ann', '2nd', 'Jos\u00e9', 'Ann,Bob']
LAST = ['Lee', 'Oh', 'van der Poe', 'Ann', "O'Neil", 'Wu']
TNAMES = ['Ann', 'ANN-LU', 'bob', 'A', "D'Arcy", 'Lee', 'J.R.', 'De', 'Oh', '2Nd', 'ann']


def make(r, src, i, names):
    if src == 'W':
        return WOSRecord({'PT': ['J'], 'UT': ['W%d' % i], **({'AF': list(names)} if names else {}), 'AU': ['X, Y']})
    if src == 'M':
        return MedlineRecord({'PMID': ['%d' % i], **({'FAU': list(names)} if names else {}), 'AU': ['X Y']})
    return ProQuestRecord({'ProQuest document ID': ['%d' % i], 'Author': [names[0]], 'Title': ['t']})


def three(d):
    return [d.get('Male'), d.get('Female'), d.get('Unknown')] if set(d) == {'Male', 'Female', 'Unknown'} else [-1, -1, -1]


def share(x):
    return [round(v * 1000000) if isinstance(v, (int, float)) else -5 for v in x]


def main(ck):
    r = ck.rng
    k = {'MaxAuthors': 2 if not ck.thorough else 3, 'PerPosition': 'FALSE'}
    inv = ['EveryNameOnce', 'OrderFree', 'NoNameNoGender', 'SameGiven']
    ck.mc('MC_Genders', invariants=inv, constants=k)
    ck.mc_fails('MC_Genders', 'EveryNameOnce', constants=dict(k, PerPosition='TRUE'))
    assert ng.targetFilePath.endswith('namesData.csv')
    for n in range(ck.n(500, 6000)):
        table = [[t, r.choice(['Male', 'Female', 'Female', 'Male', 'Unknown'])] for t in r.sample(TNAMES, r.randrange(1, len(TNAMES)))]
        pool = []
        for i in range(r.choice([1, 1, 2, 4])):
            src = r.choice('WWMP')
            names = [(l + ', ' + g) if x > .12 else l + (g and r.choice([' ', ',']) + g.replace(', ', ' '))
                     for l, g, x in ((r.choice(LAST), r.choice(GIVEN), r.random()) for _ in range(r.choice([0, 1, 2, 3, 6]) or (src == 'P')))]
            if len(names) > 1 and r.random() < .3:
                names.append(r.choice(names))
            if src == 'P':
                names = names[:1]
            pool.append((src, names))
        fromfile = r.random() < .5

        def go(ev):
            if fromfile:     # the table is read from its file when first needed
                with open('names.csv', 'w', newline='') as f:
                    w = csv.writer(f)
                    w.writerow(ng.csvFields)
                    for t, g in table:
                        w.writerow([t, 3, 10, 12, g, 1, 2, 3, 4])
                ng.targetFilePath = os.path.abspath('names.csv')
                ng.mappingDict = None
            else:
                ng.mappingDict = {}
                for t, g in table:
                    ng.mappingDict[t.title()] = g
            real = [make(r, s, i, a) for i, (s, a) in enumerate(pool)]
            rc = list(real)
            r.shuffle(rc)
            RC = mk.RecordCollection(rc, name='g')
            before = df.snapshot(RC)
            some = any(a for _, a in pool)
            for _ in range(5):
                op = r.choice(['assign', 'assign', 'counts', 'shares', 'stats', 'statshares', 'name'])
                i = r.randrange(len(real))
                e = {'op': op, 'rec': i + 1}
                if op == 'assign':
                    e['got'] = [{'n': recs.text(a), 'g': str(g)} for a, g in real[i].authGenders().items()]
                elif op == 'counts':
                    e['got'] = [num(x) for x in three(real[i].authGenders(countsOnly=True))]
                elif op == 'shares':
                    if not pool[i][1]:
                        continue
                    e['got'] = share(three(real[i].authGenders(fractionsMode=True, **({'countsOnly': True} if r.random() < .5 else {}))))
                elif op == 'stats':
                    e['got'] = [num(x) for x in three(RC.genderStats())]
                elif op == 'statshares':
                    if not some:
                        continue
                    e['got'] = share(three(RC.genderStats(asFractions=True)))
                else:
                    a = r.choice(pool[i][1] or ['Wu'])
                    lenient = r.random() < .5
                    try:
                        got = str(ng.nameStringGender(a, noExcept=lenient))
                    except mk.mkExceptions.GenderException:
                        got = 'exc:GenderException'
                    e.update(name=recs.text(a), lenient=lenient, got=got)
                ev.append(e)
            ev.append({'op': 'after', 'same': before == df.snapshot(RC)})
        ck.case('G%d' % n, 'genders', go, authors=[[recs.text(a) for a in x] for _, x in pool], table=[[recs.text(t), g] for t, g in table])
    ck.validate('Trace_Genders')
