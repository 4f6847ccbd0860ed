"""Abstract interpretation of ConnectionManager under scripts: all short histories of open, close, receive, tick and time-out over two connections, ids that differ only in some bits, unknown ids, refused opens, closes of connections that are gone, several managers and re-used ids; each path's deliveries, closings and registry answers are replayed against a reference registry."""
import itertools
from checks.iomodel import *

PROBES = ['p_io']
RULES = {'registry', 'open', 'close', 'outcome', 'quiet', 'stale', 'drop', 'route', 'deliver', 'watchdog', 'ends'}
S = dict(trig=0, t2oRT=0, t2oP=P2P | 6, oapi=0xffffffff, tapi=10000, mult=0)
HOLD = ('handle', 0)


def data(to, n='p', ok=True):
    return Data(to, n, exact=6 if ok else 5)


def run(cx):
    def go(conns, script, **kw):
        judge(cx, scenario(cx, conns, script, **kw), conns, RULES)

    # all histories of a given length
    ids = (0x00010007, 0x00020007)
    two = lambda: [Conn(i, t2o=ids[i], o2t=5 + i, **S) for i in (0, 1)]
    ALPHA = {'o0': [('open', 0)], 'o1': [('open', 1)], 'c0': [('close', 0)], 'c1': [('close', 1)],
             'd': [arrive(data(ids[0], 'a'), data(ids[1], 'b'), data(7, 'z')), HOLD], 't': [wait(30000), HOLD], 'T': [wait(50000), HOLD],
             'D1': [wait(30000), arrive(data(ids[1], 'b')), HOLD]}
    names = sorted(ALPHA)
    for n in range(1, 5 if cx.deep else 4):
        for h in itertools.product(names, repeat=n):
            if not any(x in ('o0', 'o1') for x in h[:-1]) and n > 2:
                continue
            if n >= 3 and h[0] not in ('o0', 'o1'):
                continue
            go(two(), [s for x in h for s in ALPHA[x]] + ALPHA['d'])
    # which connection an id belongs to
    for a, b in ((7, 0x10007), (0xffff, 0xffffffff), (0, 0x10000), (0x80000000, 0), (0x12345678, 0x12345679), (0xffffffff, 0x7fffffff), (256, 1)):
        c = [Conn(0, t2o=a, **S), Conn(1, t2o=b, **S)]
        for d in ([data(a)], [data(b)], [data(a, 'x'), data(b, 'y'), data(a, 'z')], [data(a & 0xffff, 'x'), data(b | 0x40000000, 'y')]):
            go(c, [('open', 0), ('open', 1), arrive(*d), HOLD, ('close', 0), arrive(*d), HOLD, ('close', 1), arrive(*d), HOLD])
    c = [Conn(0, **S), Conn(1, **S)]
    go(c, [('open', 0), arrive(data(u32('to'))), HOLD])
    go(c, [('open', 0), assume(cne(u32('t2o0'), u32('t2o1'))), ('open', 1), arrive(data(u32('to'))), HOLD, ('close', 1), arrive(data(u32('to'), 'q')), HOLD])
    # the id the target already uses
    go(c, [('open', 0), ('open', 1), arrive(data(u32('t2o0'))), HOLD, ('close', 0), arrive(data(u32('t2o0'), 'q')), HOLD])
    # opens that fail
    for st in (1, 0x05, 0xff, u8('st')):
        c = [Conn(0, t2o=7, status=st, **S), Conn(1, t2o=8, **S)]
        go(c, [('open', 0), arrive(data(7)), HOLD, wait(50000), HOLD])
        go(c, [('open', 1), ('open', 0), arrive(data(7), data(8, 'q')), HOLD, ('close', 0), wait(50000), HOLD])
    # closing what is gone, in the caller's hands or not
    c = [Conn(0, t2o=7, **S), Conn(1, t2o=7, **S)]
    for h in ([('close', 0), ('close', 0)], [('close-twice', 0)], [('close-held', 0), ('close-held', 0)], [wait(50000), HOLD, ('close', 0)], [('handle-held', 0), wait(50000), ('handle-held', 0), ('close', 0)]):
        go(c, [('open', 0)] + h + [arrive(data(7)), HOLD])
        go(c, [('open', 0)] + h + [('open', 1), arrive(data(7)), HOLD, ('close', 0), arrive(data(7, 'q')), HOLD, ('close', 1), arrive(data(7, 'r')), HOLD])
    # a timed-out connection whose id is in use again
    go(c, [('open', 0), wait(50000), HOLD, arrive(data(7)), HOLD], nested={('closed', 0): [[('open', 1), ('close', 0)]]})
    go(c, [('open', 0), arrive(data(7)), HOLD, arrive(data(7, 'q')), HOLD], nested={('received', 0): [[('close', 0), ('open', 1), ('close', 0)]]})
    # the target refuses the close
    for st in (1, 0x0c, u8('st')):
        go(c, [('open', 0), ('close', 0), arrive(data(7)), HOLD, ('open', 1), arrive(data(7, 'q')), HOLD],
           on_request=lambda I, S_, r, st=st: (st, Seq()) if r[1] == 0x4e else None)
    # managers are independent of each other
    go(c, [('open', 0, 0), ('open', 1, 1), arrive(data(7)), ('handle', 0, 1), arrive(data(7, 'q')), ('handle', 0, 0), ('close', 0, 0), arrive(data(7, 'r')), ('handle', 0, 1)])
    go(c, [('open', 0, 0), ('open', 1, 1), ('destroy', 0, 0), arrive(data(7)), ('handle', 0, 1)])
    go(c, [('open', 0), ('destroy', 0, 0)])
    # listeners set later, or never
    go(c, [('open-bare', 0), arrive(data(7)), HOLD, ('close', 0)])
    go(c, [('open-bare', 0), ('listen', 0), arrive(data(7)), HOLD, wait(50000), HOLD, ('open', 1), arrive(data(7, 'q')), HOLD])
    # large opens
    L = dict(S, t2oP=(2 << 29) | 6, o2tP=(2 << 29) | 8)
    go([Conn(0, t2o=7, **L)], [('large', 0), arrive(data(7)), HOLD, ('close', 0), arrive(data(7)), HOLD])
