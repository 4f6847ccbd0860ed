"""Abstract interpretation of the receive path of ConnectionManager and IOConnection: for every transport class, header, size and format option, series of datagrams with unknown payloads (and arbitrary bytes as items) arrive; each path's listener calls are replayed against a reference model of the consumer, including that dropped data does not feed the watchdog."""
from checks.iomodel import *

PROBES = ['p_io']
RULES = {'deliver', 'drop', 'route', 'outcome', 'ends', 'watchdog'}


def run(cx):
    def go(conns, script, **kw):
        judge(cx, scenario(cx, conns, script, **kw), conns, RULES)
    t = u32('t2o0')
    slow = dict(oapi=0xffffffff)
    grid = [(trig, rt, size, large) for trig in (0, 1, 2, 3, 0x81, 0x10) for rt in (0, 1) for size in (0, 8, VARIABLE | 8) for large in (0, 1)]
    for trig, rt, size, large in grid if cx.deep else [(0, 0, 8, 0), (1, 1, 8, 0), (1, 0, 8, 1), (1, 0, VARIABLE | 8, 0), (3, 1, VARIABLE | 8, 1), (0, 1, 4, 0), (0, 1, VARIABLE, 0), (2, 1, 0, 0), (0x81, 1, 300, 0), (0x10, 1, 8, 0), (0x10, 0, VARIABLE, 1)]:
        ncp = P2P | size
        if large:
            ncp = (2 << 29) | (size & 511) | (1 << 25 if size & VARIABLE else 0)
        c = Conn(0, trig=trig, t2oRT=rt, t2oP=ncp, o2tP=(2 << 29) | 8 if large else P2P | 8, **slow)
        op = 'large' if large else 'open'
        go([c], [(op, 0), arrive(Data(t)), ('handle', 0)])
        # accepted or dropped data and the watchdog
        go([c], [(op, 0), wait(u32('dt1')), arrive(Data(t)), ('handle', 0), wait(u32('dt2')), ('handle', 0)])
    go([Conn(0, trig=u8('trig'), t2oP=P2P | VARIABLE | 8, **slow)], [('open', 0), arrive(Data(t)), ('handle', 0)])
    c = Conn(0, trig=1, t2oRT=1, t2oP=P2P | VARIABLE | 8, **slow)
    # several datagrams in one wait and in several
    go([c], [('open', 0), arrive(Data(t, 'p1', exact=9), Data(t, 'p2', exact=6), Data(t, 'p3', exact=5), Data(t, 'p4', exact=106)), ('handle', 0), arrive(Data(t, 'p5', exact=9)), ('handle', 0), arrive(Data(t, 'p5', exact=9)), ('handle', 0)])
    go([c], [('open', 0), arrive(Data(t, 'p1', extra=True)), ('handle', 0)])
    go([c], [('open', 0), arrive(Data(t, 'p1', exact=1400), Data(t, 'p2', exact=8160)), ('handle', 0)])
    go([Conn(0, trig=1, t2oRT=0, t2oP=P2P | 8, **slow)], [('open', 0), arrive(*[Data(t, f'p{i}', exact=10) for i in range(10)]), ('handle', 0)])
    # the caller's own data stays what it was
    go([Conn(0, trig=0, t2oRT=0, t2oP=P2P | VARIABLE | 8, oapi=1000, o2tP=P2P | 4)], [('open', 0), output(0, cat((fix('a'), 0, 4))), ('data', 0), arrive(Data(t)), ('handle', 0)])
    # a replaced listener
    go([c], [('open', 0), ('mute', 0), arrive(Data(t, exact=20)), ('handle', 0), ('listen', 0), arrive(Data(t, 'p2', exact=20)), ('handle', 0)])
    # arbitrary items
    for n in (2, 3) if cx.deep else (2,):
        go([c], [('open', 0), arrive(Raw(n)), ('handle', 0)])
    # two connections
    two = [Conn(0, trig=1, t2oRT=1, t2oP=P2P | VARIABLE | 8, **slow), Conn(1, trig=0, t2oRT=0, t2oP=P2P | 6, **slow)]
    go(two, [('open', 0), ('open', 1), assume(cne(u32('t2o0'), u32('t2o1'))), arrive(Data(u32('to'), 'p1'), Data(u32('t2o1'), 'p2')), ('handle', 0)])
