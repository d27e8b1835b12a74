"""Builders of Web of Science records and collections."""
import metaknowledge as mk
from metaknowledge.WOS import WOSRecord


def rec(uid, **tags):
    """WOSRecord from tag=list-of-lines (a string is one line; None leaves the tag out)."""
    d = {'PT': ['J']}
    d['UT'] = [uid]
    for k, v in tags.items():
        if v is None:
            d.pop(k, None)
            continue
        d[k] = [v] if isinstance(v, str) else list(v)
    return WOSRecord(d)


def text(uid, **tags):
    """The same record as the text block of an export file."""
    d = {'PT': ['J']}
    d['UT'] = [uid]
    for k, v in tags.items():
        if v is None:
            d.pop(k, None)
            continue
        d[k] = [v] if isinstance(v, str) else list(v)
    out = []
    for k, lines in d.items():
        for i, x in enumerate(lines):
            out.append((k + ' ' if i == 0 else '   ') + x)
    return '\n'.join(out + ['ER', ''])


def wosfile(path, blocks, end=True):
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n')
        for b in blocks:
            f.write(b + '\n')
        if end:
            f.write('EF')
