"""C04: raw field text is decoded to the documented values."""
import io
import recs
import medfiles
from metaknowledge.WOS import WOSRecord
from metaknowledge.medline import MedlineRecord


def main(ck):
    r = ck.rng
    invs = ['NamesAgree', 'NothingLost', 'Independent', 'OrderFree']
    model = ck.mc('MC_Decode', emit='R', workers=1, invariants=invs, constraint='Emit', constants={'MaxFields': 2})
    if ck.thorough:
        ck.mc('MC_Decode', invariants=invs, constants={'MaxFields': 3})
    ck.notes['model_records'] = len(model)

    def case(cid, src, f, kind):
        af = recs.ascii_fields(f)
        alt = recs.names(src)
        keys = [x['t'] for x in f] + [alt[x['t']] for x in f if x['t'] in alt] + recs.SPECIALS
        if kind in ('dict', 'text') or r.random() < .2:
            t = r.sample(recs.ALL[src], 3)
            keys += t + [alt[x] for x in t if x in alt] + r.sample(recs.ODD, 4)
        keys = list(dict.fromkeys(keys))

        def make():
            if src in 'WM' and kind == 'text':
                if src == 'W':
                    return WOSRecord('\n'.join(l for x in f for l in [(x['t'] + ' ' if i == 0 else '   ') + s for i, s in enumerate(x['v'])]) + '\nER')
                return MedlineRecord({x['t']: list(x['v']) for x in f})
            return recs.make(src, f)

        def go(ev):
            for k in keys:
                R = make()
                e = {'op': 'look', 'key': k, 'val': recs.look(R, k)}
                e['has'] = bool(k in make())
                ev.append(e)
            for k in r.sample(keys, min(len(keys), 4)):
                v = make().get(k, default=[], raw=True)
                ev.append({'op': 'raw', 'key': k, 'v': [recs.text(s) for s in ([v] if isinstance(v, str) else v)]})
            ev.append({'op': 'cites', 'v': [recs.text(str(c)) for c in make().createCitation(multiCite=True)]})
            if src == 'S':
                R = make()
                ev.append({'op': 'own', 'v': [{'bad': bool(c.bad), 'year': str(c.year), 'journal': recs.text(str(c.journal)), 'name': recs.text(str(getattr(c, 'name', '')))}
                                              for c in [R.createCitation()] + list(R.createCitation(multiCite=True))]})
            R = make()
            ev.append({'op': 'names', 'title': recs.val(R.title), 'authors': {'k': 'a', 'v': ''} if R.authors is None else recs.val(R.authors)})
        ck.case(cid, src + ':' + kind, go, src=src, f=af)
    def recorded(f):
        """Several addresses of one author, or a wrapped one: recorded findings, replayed once each below."""
        ad = [x for t in f if t['t'] == 'AD' for x in t['v']]
        own = [x.split(' : ')[0] for x in ad]
        return len(set(own)) < len(own) or any('\n' in x for x in ad)
    model = [c for c in model if not recorded(c['f'])]
    for n, c in enumerate(model if ck.thorough else r.sample(model, min(len(model), 500))):
        case('M%d' % n, c['src'], c['f'], 'model')
    for n in range(ck.n(480, 8000)):
        src = 'WWMMSP'[n % 6]
        case('R%d' % n, src, recs.raw(r, src, '%d' % r.randrange(1000)), 'text' if src == 'W' and r.random() < .5 else 'dict')
    pm = {'t': 'PMID', 'v': ['1']}
    case('KF-addresses', 'M', [pm, {'t': 'AU', 'v': ['Lee K']}, {'t': 'AD', 'v': ['Lee K : X Univ', 'Lee K : Y Univ']}], 'known')
    case('KF-wrapped-address', 'M', [pm, {'t': 'AU', 'v': ['Lee K']}, {'t': 'AD', 'v': ['Lee K : Department of\nPhysics']}], 'known')
    ck.validate('Trace_Decode')
