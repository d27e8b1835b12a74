"""C15: bibliographic coupling network."""
import net, netcase


def main(ck):
    def run(ev, recs, o):
        net.use_journals()
        C = net.collection(recs, ck.rng)
        o = dict(o, type='full', dropAnon=False, nonJ=False, coreOnly=False, kw=[], nodeInfo=True, count=False, core=netcase.CORES[0], coreAttr=False)
        k = dict(weighted=o['weighted'], fullInfo=o['fullInfo'], addCR=o['addCR'])
        G = C.networkBibCoupling(**{a: b for a, b in k.items() if ck.rng.random() < .8 or b != (a == 'weighted')})
        ev.append({'op': 'bib', 'o': o, 'g': net.graph(G)})
    netcase.cases(ck, 'bib', ['CiClosed', 'BibClosed', 'BibNodesClosed'], ck.n(512, 512), ck.n(900, 9000), run)
    ck.validate('Trace_Network')
