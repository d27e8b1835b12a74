"""C16: co-author network."""
import net, netcase
DETAIL = [['year', 'title', 'journal', 'volume', 'beginningPage'], [], ['AF', 'PY'], ['TI'], ['SO', 'AU', 'BP']]


def main(ck):
    def run(ev, recs, o):
        net.use_journals()
        r = ck.rng
        C = net.collection(recs, r)
        o = {'nonJ': o['nonJ'], 'short': r.random() < .3, 'weighted': o['weighted'], 'count': o['count'], 'profile': r.random() < .35, 'detail': r.choice(DETAIL)}
        if any(a['full'] != a['short'] for a in recs) and r.random() < .3:
            o['short'] = True
        d = o['detail']
        k = dict(dropNonJournals=o['nonJ'], useShortNames=o['short'], weighted=o['weighted'], count=o['count'], citeProfile=o['profile'],
                 detailedInfo=True if d == DETAIL[0] else False if not d else [netcase.LONGOPT[t] if r.random() < .4 else t for t in d])
        G = C.networkCoAuthor(**{a: b for a, b in k.items() if r.random() < .8 or b != (a in ('weighted', 'count'))})
        ev.append({'op': 'coauth', 'o': o, 'g': net.graph(G, attrs=d)})
    netcase.cases(ck, 'coauth', ['CoClosed'], ck.n(700, 1024), ck.n(700, 9000), run)
    ck.validate('Trace_Network')
