"""Abstract interpretation of the I/O datagram path under scripts that interleave malformed, truncated and foreign datagrams (arbitrary bytes of arbitrary length, item counts 0..4, every truncation of a valid datagram, unknown ids) with the data and ticks of healthy connections; each path is replayed against a reference model in which a stray datagram has no effect at all, and every abort, throw, out-of-bounds access or lost delivery is an alarm."""
from checks.iomodel import *

PROBES = ['p_io']
RULES = {'outcome', 'ends', 'deliver', 'drop', 'route', 'produce', 'due', 'watchdog', 'stale', 'registry', 'quiet'}
OBL = ('bounds', 'null', 'use-after-free', 'iterator', 'assert', 'pure-virtual', 'allocation')
HOLD = ('handle', 0)
MINE = 0x00031234


def run(cx):
    def go(conns, script, **kw):
        judge(cx, scenario(cx, conns, script, obls=OBL, **kw), conns, RULES)

    def conns(**kw):
        d = dict(trig=1, t2oRT=0, t2oP=P2P | 6, o2tP=P2P | VARIABLE | 8, oapi=10000, tapi=10000, mult=0)
        d.update(kw)
        return [Conn(0, t2o=MINE, o2t=5, **d), Conn(1, t2o=8, o2t=6, **d)]
    start = [('open', 0), ('open', 1), output(0, cat((fix('o0'), 0, 4))), ('data', 0), output(1, cat((fix('o1'), 0, 4))), ('data', 1)]
    good = lambda n: [Data(MINE, n + 'a', exact=8), Data(8, n + 'b', exact=8)]

    def series(stray, cs=None):
        """strays alone, before, between and after data, with production and the watchdog running"""
        cs = cs or conns()
        s = stray()
        a, b = good('g')
        go(cs, start + [wait(4000), arrive(s, a, b), HOLD, wait(6000), HOLD, wait(20000), arrive(*good('h')), HOLD])
        go(cs, start + [wait(4000), arrive(a, s, b), HOLD, wait(36001), HOLD])
        if cx.deep:
            go(cs, start + [wait(39000), arrive(s), HOLD, wait(1000), HOLD, wait(1), HOLD])
            go(cs, start + [arrive(s, s), HOLD, arrive(a, b, s), HOLD, wait(10000), HOLD])
        # the watchdog of a connection that only hears strays
        go([conns()[0]], [('open', 0), wait(39000), arrive(s), HOLD, wait(1001), HOLD])
    # arbitrary items
    series(lambda: Raw(0, 'r0'))
    series(lambda: Raw(1, 'r1'))
    for n in (2, 3, 4) if cx.deep else (2, 3):
        go([conns()[0]], [('open', 0), arrive(Raw(n), good('g')[0]), HOLD])
    # arbitrary bytes: whatever happens, handling neither fails nor loses the following data
    for n in (1, 4, 40, 1500) if cx.deep else (1, 40):
        cs = conns(t2oRT=1, trig=1)
        ps = scenario(cx, cs, [('open', 0), arrive(Stray(lambda f, n=n: cat(inp('junk', n))), Stray(lambda f: Data(MINE, 'ga', exact=12).build(f))), HOLD], obls=OBL)
        for p in ps:
            if not p.decided:
                continue
            cx.must(p, 'ends', CM, f'handling arbitrary bytes ends with {p.kind} {p.exc or p.o.why}', p.kind == 'return', p.facts)
            for e in p.ev('after'):
                cx.must(p, 'outcome', CM + ' (handleConnections)', 'handling connections throws because of a datagram', ceq(e[3], 0), p.facts)
            r = p.ev('received')
            cx.must(p, 'deliver', CM, 'data after a stray datagram does not reach its listener', bool(r), p.facts)
            if r:
                cx.expect(p, 'deliver', CM, 'data after a stray datagram', r[-1][4], cat((fix('ga'), 6, 6)), p.facts)
    # every truncation of a valid datagram
    full = lambda f: Data(MINE, 'x', exact=8).build(f)
    for cut in range(0, 26) if cx.deep else (0, 1, 2, 5, 8, 13, 16, 19, 20, 21, 25):
        series(lambda: Stray(lambda f, cut=cut: cat([('e', e) for e in flat(full(f), cut)])))
    # an address too short, no data item, wrong ids
    items = lambda *it: (lambda f: cat(byt(len(it), 2, f), *[z for t, d in it for z in (byt(t, 2, f), byt(len(d), 2, f), bytes(d))]))
    ID = MINE.to_bytes(4, 'little')
    for it in ([(0x8002, ID + bytes(4))], [(0x8002, ID[:3]), (0xb1, bytes(8))], [(0x8002, b''), (0xb1, bytes(8))], [(0x8002, b''), (0xb1, b'')], [(0x8002, bytes(8)), (0xb1, bytes(8))],
               [(0x8002, b'\x34\x12\0\0' + bytes(4)), (0xb1, bytes(8))], [(0x8002, b'\x34\x12\x03\x80' + bytes(4)), (0xb1, bytes(8))], [(0x8002, ID + bytes(4)), (0xb1, b'')],
               [(0x8002, ID + bytes(4)), (0xb1, b'\0')], [(0x8002, ID + bytes(4)), (0xb1, bytes(7))], [(0x8002, ID + bytes(4)), (0xb1, bytes(9))]):
        series(lambda: Stray(items(*it)))
    series(lambda: Data(9, 'x', exact=8))
    series(lambda: Data(0xffffffff, 'x'))
    # counts that the data does not back up
    for n in (3, 255, 256, 0xffff):
        series(lambda: Stray(lambda f, n=n: cat(byt(n, 2, f), [('e', e) for e in flat(full(f), 26)[2:]])))
    # strays before anything is open and after everything is closed
    c = conns()
    go(c, [('open', 0), ('close', 0), arrive(Raw(1), *good('g')), HOLD, ('open', 1), arrive(Raw(1), *good('h')), HOLD])
    # consumers with other headers
    for kw in (dict(trig=0, t2oRT=1), dict(trig=0, t2oRT=0, t2oP=P2P | VARIABLE), dict(trig=3, t2oRT=1, t2oP=P2P)):
        cs = conns(**kw)
        n = (2 if kw['trig'] else 0) + (4 if kw['t2oRT'] else 0)
        for m in range(0, n + 8) if cx.deep else (0, 1, 3, 5):
            go([cs[0]], [('open', 0), arrive(Data(MINE, 'x', exact=m)), HOLD, arrive(Data(MINE, 'y', exact=m), Raw(1)), HOLD])
