"""Abstract interpretation of ConnectionManager and IOConnection under a scripted clock and network: for every transport class, header, size and format option, open, set data, let an unknown time pass and handle; each path's listener calls and datagrams are replayed against a reference model of the producer (ids, sequence numbers, counts, headers, data, target address, when due, fixed size)."""
from checks.iomodel import *

PROBES = ['p_io']
RULES = {'produce', 'due', 'fixed', 'outcome', 'ends', 'stale'}
CALM = dict(tapi=0xffffffff, mult=7)


def run(cx):
    d = lambda n, mx=600: cat(inp(n, mx))

    def target(port, addr):
        def f(M, c, e):
            for k, got, want in zip(('family', 'port', 'address'), e[4] or (None,) * 3, (2, swap(port), addr)):
                M.expect('produce', CM + ' (forwardOpen)', f'target {k}', got, want)
        return f

    def swap(p):
        return ((p & 255) << 8) | p >> 8
    home = target(2222, 10 | 1 << 8 | 2 << 16 | 3 << 24)

    def go(conns, script, tgt=home, **kw):
        judge(cx, scenario(cx, conns, script, **kw), conns, RULES, target=tgt)

    def twice(c, op='open'):
        go([c], [(op, 0), output(0, d('o0')), ('data', 0), wait(u32('dt1')), ('handle', 0), wait(u32('dt2')), ('handle', 0)])
    grid = [(trig, rt, size, large) for trig in (0, 1, 2, 3, 0x81, 0x10) for rt in (0, 1) for size in (0, 8, VARIABLE | 8) for large in (0, 1)]
    for trig, rt, size, large in grid if cx.deep else [(0, 0, 8, 0), (1, 1, 8, 0), (1, 0, VARIABLE | 8, 0), (3, 1, VARIABLE | 8, 1), (0x81, 1, 0, 0), (2, 0, 8, 1), (0x10, 1, VARIABLE | 8, 0)]:
        ncp = P2P | size
        if large:
            ncp = (2 << 29) | (size & 511) | (1 << 25 if size & VARIABLE else 0)
        twice(Conn(0, trig=trig, o2tRT=rt, o2tP=ncp, t2oP=(2 << 29) | 8 if large else P2P | 8, **CALM), 'large' if large else 'open')
    # any trigger byte
    go([Conn(0, trig=u8('trig'), o2tP=P2P | VARIABLE | 100, **CALM)], [('open', 0), output(0, d('o0')), ('data', 0), wait(u32('dt1')), ('handle', 0)])
    # many rounds
    per = 5000
    for rt, trig in ((1, 1), (0, 0), (1, 0), (0, 1)):
        s = [('open', 0), output(0, d('o0', 8)), ('data', 0)]
        for i in range(12 if cx.deep else 6):
            s += [wait(per if i % 3 else per - 1), ('handle', 0)]
            if i == 3:
                s += [output(0, d('o1')), ('data', 0)]
        go([Conn(0, oapi=per, trig=trig, o2tRT=rt, o2tP=P2P | VARIABLE | 8, **CALM)], s)
    # data of another size between matching data
    go([Conn(0, oapi=per, **CALM)], [('open', 0), output(0, cat((fix('a'), 0, 8))), ('data', 0), wait(per), ('handle', 0), output(0, d('o1')), ('data', 0), wait(per), ('handle', 0),
                                     output(0, cat((fix('b'), 0, 8))), ('data', 0), wait(per), ('handle', 0)])
    # no data set
    for size in (0, 8, VARIABLE | 8):
        go([Conn(0, o2tP=P2P | size, **CALM)], [('open', 0), wait(u32('dt1')), ('handle', 0)])
    # the listener supplies the data
    for size in (8, VARIABLE | 8):
        go([Conn(0, oapi=per, o2tP=P2P | size, **CALM)], [('open', 0), answer(0, d('x0'), cat((fix('a'), 0, 8)), d('x1')), wait(per), ('handle', 0), wait(per), ('handle', 0), wait(per), ('handle', 0)])
    # without listeners
    for size in (8, VARIABLE | 8):
        go([Conn(0, o2tP=P2P | size, **CALM)], [('open-bare', 0), output(0, d('o0')), ('data', 0), wait(u32('dt1')), ('handle', 0)])
    # two connections
    two = [Conn(0, oapi=per, **CALM), Conn(1, oapi=2 * per, o2tRT=0, trig=0, o2tP=P2P | VARIABLE | 4, **CALM)]
    go(two, [('open', 0), ('open', 1), output(0, cat((fix('a'), 0, 8))), ('data', 0), output(1, d('o1')), ('data', 1), assume(cne(u32('t2o0'), u32('t2o1')))]
       + [z for i in range(3) for z in (wait(per), ('handle', 0))])
    # time passes while waiting for data
    go([Conn(0, oapi=7000, **CALM)], [('open', 0), output(0, cat((fix('a'), 0, 8))), ('data', 0), ('handle', 7), ('handle', 6), ('handle', 8)])
    # received data does not disturb production
    go([Conn(0, oapi=per, t2oP=P2P | VARIABLE | 8, **CALM)], [('open', 0), output(0, cat((fix('a'), 0, 8))), ('data', 0), arrive(Data(u32('t2o0'))), wait(per), ('handle', 0), arrive(Data(u32('t2o0'))), ('handle', 0), wait(per), ('handle', 0)])
    # targets
    sockaddr = lambda fam, port, addr: (lambda f: cat([('e', 0), ('e', fam), ('e', port >> 8), ('e', port & 255)], byt(addr, 4, f), [('e', 0)] * 8))
    ip = 192 | 168 << 8 | 77 << 16 | 5 << 24
    for items, port, addr in (([(0x8000, sockaddr(2, 40001, 0))], 40001, 10 | 1 << 8 | 2 << 16 | 3 << 24),
                              ([(0x8000, sockaddr(2, 2222, ip))], 2222, ip),
                              ([(0x8000, sockaddr(2, 40001, u32('ip')))], 40001, u32('ip')),
                              ([(0x8001, sockaddr(2, 40001, ip))], 2222, 10 | 1 << 8 | 2 << 16 | 3 << 24),
                              ([(0x8001, sockaddr(2, 40001, ip)), (0x8000, sockaddr(2, 40002, ip + 1))], 40002, ip + 1),
                              ([(0x8000, sockaddr(2, 40002, ip + 1)), (0x8001, sockaddr(2, 40001, ip))], 40002, ip + 1)):
        go([Conn(0, oapi=per, items=items, **CALM)], [('open', 0), assume(cne(u32('ip'), 0)), output(0, cat((fix('a'), 0, 8))), ('data', 0), wait(per), ('handle', 0)], tgt=target(port, addr))
