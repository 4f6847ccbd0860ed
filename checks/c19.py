"""Abstract interpretation of the whole life of an I/O connection under a scripted clock: for every multiplier 0..7, with the granted packet intervals, the waiting times and the arriving data unknown, each path's ticks, closings, deliveries and datagrams are replayed against a reference watchdog (limit (4 << multiplier) * interval in unbounded arithmetic)."""
from checks.iomodel import *

PROBES = ['p_io']
RULES = {'watchdog', 'stale', 'registry', 'quiet', 'outcome', 'ends'}


def run(cx):
    def go(conns, script, **kw):
        judge(cx, scenario(cx, conns, script, **kw), conns, RULES)
    t = u32('t2o0')
    slow = dict(oapi=0xffffffff)
    hold = ('handle', 0)

    def far(n):
        # up to half a year at once
        def f(I, S):
            I.assume(cle(u64(n), 1 << 44))
            wait(u64(n))(I, S)
        return f
    for mult in range(8):
        c = Conn(0, mult=mult, trig=0, t2oRT=0, t2oP=P2P | 6, **slow)
        # silence from the opening
        go([c], [('open', 0), far('dt1'), hold])
        # data, accepted or dropped, then silence
        go([c], [('open', 0), wait(u32('dt1')), arrive(Data(t)), hold, far('dt2'), hold])
        # small and large intervals with all remainders
        for tapi in (0, 1, 999, 1000, 1001, 0xffffffff) if cx.deep or mult in (0, 3, 7) else (0xffffffff,):
            go([Conn(0, mult=mult, tapi=tapi, trig=0, t2oP=P2P | 6, **slow)], [('open', 0), far('dt1'), hold, far('dt2'), hold])
        # gone afterwards: later data and ticks do nothing
        c = Conn(0, mult=mult, tapi=10000, trig=0, oapi=1000, o2tP=P2P | 4, t2oP=P2P | 6)
        lim = (4 << mult) * 10000
        late = [arrive(Data(t, 'late', exact=6)), hold, wait(5000), hold]
        for dt in (lim - 1, lim, lim + 1):
            go([c], [('open', 0), output(0, cat((fix('o'), 0, 4))), ('data', 0), wait(dt), hold] + late)
        # many short waits accumulate, and accepted data restarts while dropped data does not
        step = lim // 4
        for good in (6, 5):
            s = [('open', 0)]
            for i in range(6):
                s += [wait(step if i < 4 else step - 1)] + ([arrive(Data(t, f'p{i}', exact=good))] if i == 1 else []) + [hold]
            go([c], s + late)
        # half a microsecond is not lost in sums
        go([Conn(0, mult=mult, tapi=1, **slow)], [('open', 0)] + [z for i in range(6) for z in (wait_ns((4 << mult) * 1000 // 4 + 1), hold)])
    # header configurations: what counts as accepted
    for trig, rt, size, large in ((1, 1, 8, 0), (1, 0, VARIABLE | 8, 0), (0, 1, VARIABLE, 1), (3, 1, 0, 1)):
        ncp = (2 << 29) | (size & 511) | (1 << 25 if size & VARIABLE else 0) if large else P2P | size
        c = Conn(0, trig=trig, t2oRT=rt, t2oP=ncp, o2tP=(2 << 29) | 8 if large else P2P | 8, tapi=10000, mult=2, **slow)
        go([c], [('large' if large else 'open', 0), wait(160000), arrive(Data(t)), hold, wait(1), hold, wait(159999), hold, wait(1), hold])
    # stray data does not feed it
    for b in (lambda f: cat(inp('junk', 60)), lambda f: Data(u32('other'), 'x', exact=6).build(f)):
        c = Conn(0, trig=0, t2oP=P2P | 6, tapi=10000, mult=2, t2o=0x10203, **slow)
        go([c], [assume(cne(u32('other'), 0x10203)), ('open', 0), wait(160000), arrive(Stray(b)), hold, wait(1), hold])
    # each connection has its own
    two = [Conn(0, tapi=10000, mult=0, trig=0, t2oP=P2P | 6, t2o=7, **slow), Conn(1, tapi=u32('tapi1'), mult=5, trig=0, t2oP=P2P | 6, t2o=8, **slow)]
    go(two, [('open', 0), wait(30000), ('open', 1), wait(u32('dt1')), arrive(Data(8, 'p1', exact=6)), hold, wait(u32('dt2')), hold])
    go(two, [('open', 0), ('open', 1), wait(20000), arrive(Data(8, 'p1', exact=6)), hold, wait(20001), hold, wait(1279999 - 20000), hold])
    # a connection without listeners, and with replaced ones
    c = Conn(0, tapi=10000, mult=2, trig=0, oapi=1000, o2tP=P2P | VARIABLE | 4, t2oP=P2P | 6)
    go([c], [('open-bare', 0), wait(u32('dt1')), hold, arrive(Data(t, 'late', exact=6)), hold, wait(5000), hold])
    go([c], [('open', 0), ('mute', 0), wait(u32('dt1')), hold, ('listen', 0), arrive(Data(t, 'late', exact=6)), hold, wait(5000), hold])
    # time that passes inside the wait counts
    c = Conn(0, tapi=10000, mult=0, trig=0, t2oP=P2P | 6, **slow)
    go([c], [('open', 0), ('handle', 39), ('handle', 1), ('handle', 1)])
    go([c], [('open', 0), ('handle', 39), arrive(Data(t, 'p1', exact=6)), ('handle', 20), ('handle', 20), ('handle', 20)])
    # a listener that handles connections itself
    go([c], [('open', 0), wait(30000), arrive(Data(t, 'p1', exact=6)), hold], nested={('received', 0): [[wait(40001), hold]]})
