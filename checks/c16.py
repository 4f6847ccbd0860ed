"""Abstract interpretation of forwardOpen, largeForwardOpen and forwardClose with every connection parameter unknown (and of the request and response classes on their own): the request sent is compared byte by byte with the CIP layout, the chosen serial numbers and ids of any series of opens, over several managers and with failing opens in between, are compared pairwise, and values that do not fit have to be refused before anything is sent."""
from checks.iomodel import *

PROBES = ['p_io', 'p_connreq']
RULES = {'open', 'close', 'outcome', 'ends', 'request'}
SITE = CM + ' (forwardOpen)'


def open_reply(cx):
    for p in cx.run('open_response'):
        site = 'src/cip/connectionManager/ForwardOpenResponse.cpp (expand)'
        m = inp('reply', 600)
        L = length(m)
        if not p.done:
            if p.decided:
                cx.bad(p, 'response', site, f'decoding ends with {p.kind} {p.exc or p.o.why}')
            continue
        n = elem(m, 24)
        for f, a in split(p.facts, cle(26, L)):
            for f, b in split(f, cle(add(26, scale(n, 2)), L)):
                whole = a and b
                cx.must(p, 'response' if whole else 'truncated', site, 'a complete reply is refused' if whole else 'a truncated reply is accepted', bool(whole) == ('refused' not in p.marks), f)
                if 'refused' in p.marks:
                    continue
                o, w = 0, []
                for k in (4, 4, 2, 2, 4, 4, 4, 1):
                    w.append(dec(m, o, k, f))
                    o += k
                for i, (what, x) in enumerate(zip(('O->T id', 'T->O id', 'serial number', 'vendor id', 'originator serial number', 'O->T interval', 'T->O interval', 'application reply size'), w)):
                    cx.expect(p, 'response', site, what, p.out(f'ok{i}', 0), x, f)
                cx.expect(p, 'response', site, 'application reply', p.out('ok8', 0), cat((m, 26, scale(n, 2))), f)


def run(cx):
    for name, entry, w in (('Forward Open', 'open_request', 2), ('Large Forward Open', 'large_open_request', 4)):
        for p in cx.run(entry):
            f = p.facts
            want = cat(*[byt(u(n), k, f) for u, n, k in ((u8, 'tick', 1), (u8, 'ticks', 1), (u32, 'o2tId', 4), (u32, 't2oId', 4), (u16, 'serial', 2), (u16, 'vendor', 2), (u32, 'oserial', 4), (u8, 'mult', 1))],
                       bytes(3), byt(u32('o2tRPI'), 4, f), byt(u32('o2tP'), w, f), byt(u32('t2oRPI'), 4, f), byt(u32('t2oP'), w, f), byt(u8('trig'), 1, f), byt(u8('words'), 1, f), inp('path', 510))
            if p.done:
                cx.expect(p, 'request', f'src/cip/connectionManager/{name.replace(" ", "")}Request.cpp (pack)', name + ' request', p.out('data', 0), want)
            elif p.decided:
                cx.bad(p, 'request', f'src/cip/connectionManager/{name.replace(" ", "")}Request.cpp (pack)', f'{name} request ends with {p.kind} {p.exc or p.o.why}')
    for p in cx.run('close_request'):
        site = 'src/cip/connectionManager/ForwardCloseRequest.cpp (pack)'
        m = inp('path', 700)
        L = length(m)
        for f, a in split(p.facts, cle(L, 510)):
            for f, b in split(f, ceq(bits(L, 0, 1, f), 0)):
                fits = a and b
                if p.done and 'refused' not in p.marks:
                    cx.must(p, 'refuse', site, 'a path that does not fit is sent', bool(fits), f)
                    cx.expect(p, 'request', site, 'Forward Close request', p.out('data', 0), cat(bytes(2), byt(u16('serial'), 2, f), byt(u16('vendor'), 2, f), byt(u32('oserial'), 4, f), byt(bits(L, 1, 8, f), 1, f), bytes(1), m), f)
                elif p.done:
                    cx.must(p, 'refuse', site, 'a path that fits is refused', not fits, f)
                elif p.decided:
                    cx.bad(p, 'request', site, f'Forward Close request ends with {p.kind} {p.exc or p.o.why}')
    open_reply(cx)

    # what the connection manager sends
    def over(M, c, d):
        return (2 if M.decide(cnot(ceq(bits(c.p['trig'], 0, 2, M.f, 8), 0))) else 0) + (4 if M.truth(c.p[d + 'RT']) else 0)

    def size(M, c, d, large):
        return bits(c.p[d + 'P'], 0, 16 if large else 9, M.f)

    def kind(M, c, d, large):
        return bits(c.p[d + 'P'], 29 if large else 13, 2, M.f)

    def path_len(c):
        return seqlen(c.p['path'])

    def refuse(M, c, large):
        if M.decide(clt(7, c.p['mult'])):
            return True
        L = path_len(c)
        if M.decide(clt(510, L)) or M.decide(cnot(ceq(bits(L, 0, 1, M.f), 0))):
            return True
        for d in ('o2t', 't2o'):
            if not large and M.decide(clt(0xffff, c.p[d + 'P'])):
                return True
            if M.decide(clt(0xffff if large else 0x1ff, add(size(M, c, d, large), over(M, c, d)))):
                return True
        return False

    def request(M, c, large, r):
        if r is None:
            M.wrong('open', SITE, 'nothing is sent')
        f = M.f
        M.expect('request', SITE, 'session handed on', r[1], True)
        M.expect('request', SITE, 'service', r[2], 0x5b if large else 0x54)
        M.expect('request', SITE, 'path', r[3], spec16(f, [6, 1]))
        el = flat(r[4], 12)
        fresh = M.__dict__.setdefault('fresh', {'serial': [], 'o2t': [], 't2o': []})
        ser, oid, tid = (bits_join([z for e in el[a:b] for z in bits_take(bits_of(e, 8, f), 0, 8)], f) for a, b in ((10, 12), (2, 6), (6, 10)))

        def new(what, k, v, site=SITE):
            for o in fresh[k]:
                M.cx.must(M.p, 'request', site, f'{what} is used twice', cnot(ceq(v, o)), f)
            fresh[k].append(v)
        new('the connection serial number', 'serial', ser)
        own = {'o2t': M.decide(ceq(kind(M, c, 'o2t', large), 1)), 't2o': M.decide(ceq(kind(M, c, 't2o', large), 2))}
        if own['o2t']:
            new('an originator-to-target id', 'o2t', oid)
        else:
            oid = c.p['o2tId']
        if own['t2o']:
            new('a target-to-originator id', 't2o', tid)
        else:
            tid = c.p['t2oId']
        w = 4 if large else 2
        M.expect('request', SITE, ('Large ' if large else '') + 'Forward Open request', r[4],
                 cat(byt(c.p['tick'], 1, f), byt(c.p['ticks'], 1, f), byt(oid, 4, f), byt(tid, 4, f), byt(ser, 2, f), byt(c.p['vendor'], 2, f), byt(c.p['oserial'], 4, f), byt(c.p['mult'], 1, f), bytes(3),
                     byt(c.p['o2tRPI'], 4, f), byt(add(c.p['o2tP'], over(M, c, 'o2t')), w, f), byt(c.p['t2oRPI'], 4, f), byt(add(c.p['t2oP'], over(M, c, 't2o')), w, f),
                     byt(c.p['trig'], 1, f), byt(bits(path_len(c), 1, 8, f), 1, f), c.p['path']))

    def close(M, c, r):
        f = M.f
        site = CM + ' (forwardClose)'
        M.expect('close', site, 'session handed on', r[1], True)
        M.expect('close', site, 'service', r[2], 0x4e)
        M.expect('close', site, 'path', r[3], spec16(f, [6, 1]))
        M.expect('close', site, 'Forward Close request', r[4],
                 cat(bytes(2), [('e', e) for e in flat(c.req[4], 12)[10:12]], byt(c.p['vendor'], 2, f), byt(c.p['oserial'], 4, f), byt(bits(path_len(c.c), 1, 8, f), 1, f), bytes(1), c.p['path']))

    def go(conns, script, **kw):
        judge(cx, scenario(cx, conns, script, **kw), conns, RULES, request=request, close=close, refuse=refuse)
    free = dict(tick=u8('tick'), ticks=u8('ticks'), o2tId=u32('o2tId'), t2oId=u32('t2oId'), serial=u16('serial'), vendor=u16('vendor'), oserial=u32('oserial'), o2tRPI=u32('o2tRPI'), t2oRPI=u32('t2oRPI'),
                pathSize=u8('words'), oapi=0xffffffff, tapi=0xffffffff)
    for large in (0, 1):
        op = 'large' if large else 'open'
        sh = 29 if large else 13
        big = 0xffff if large else 0x1ff
        # every value of the plain fields
        go([Conn(0, **dict(free, mult=5, o2tP=2 << sh | 8, t2oP=2 << sh | 8))], [(op, 0), ('close', 0)])
        go([Conn(0, **dict(free, mult=u8('mult'), o2tP=2 << sh | 8, t2oP=2 << sh | 8))], [(op, 0), ('close', 0)])
        # every type, owner, priority, size type and size
        for rt in ((0, 1), (1, 0), (0, 0), (1, 1)) if cx.deep else ((0, 1), (1, 0)):
            for trig in (0, 1, 2, 3, 0x10, 0x80, 0xff, u8('trig')) if cx.deep else (0, 1, 0x83, u8('trig')):
                go([Conn(0, **dict(free, o2tRT=rt[0], t2oRT=rt[1], trig=trig, o2tP=u32('o2tP'), t2oP=2 << sh | 8))], [(op, 0), ('close', 0)])
                go([Conn(0, **dict(free, o2tRT=rt[0], t2oRT=rt[1], trig=trig, o2tP=1 << sh | 8, t2oP=u32('t2oP')))], [(op, 0), ('close', 0)])
        # sizes at the limit
        for s in (big, big - 1, big - 2, big - 3, big - 5, big - 6, big - 7):
            for t in (big - 6, s):
                for trig, a, b in ((1, 1, 1), (0, 0, 0), (0, 1, 0), (1, 0, 1)):
                    go([Conn(0, **dict(free, trig=trig, o2tRT=a, t2oRT=b, o2tP=2 << sh | s, t2oP=2 << sh | t))], [(op, 0)])
                    go([Conn(0, **dict(free, trig=trig, o2tRT=a, t2oRT=b, o2tP=2 << sh | t, t2oP=1 << sh | s))], [(op, 0)])
        # paths
        for n in (0, 1, 2, 7, 254, 255, 256, 508, 509, 510, 511, 512, 600, 66000):
            go([Conn(0, **dict(free, o2tP=2 << sh | 8, t2oP=2 << sh | 8, path=cat((fix('path'), 0, n))))], [(op, 0), ('close', 0)])
        go([Conn(0, **dict(free, o2tP=2 << sh | 8, t2oP=2 << sh | 8, path=cat(inp('path', 700))))], [(op, 0), ('close', 0)])
        # fresh numbers in series of opens over both services and two managers, with failing and refused ones between
        for ko, kt in ((1, 2), (2, 1), (1, 1), (2, 2), (0, 3), (3, 0)):
            P = dict(o2tP=ko << sh | 8, t2oP=kt << sh | 8, **{k: v for k, v in free.items() if k not in ('o2tP', 't2oP')})
            P2 = dict(P, o2tP=1 << 13 | 8, t2oP=2 << 13 | 8)
            cs = [Conn(0, t2o=1, **P), Conn(1, t2o=2, **P2), Conn(2, t2o=3, status=1, **P), Conn(3, t2o=4, **dict(P, mult=9)), Conn(4, t2o=5, **P)]
            go(cs, [(op, 0), ('open', 1), (op, 2), ('close', 1), (op, 3), (op, 4), ('close', 4), (op, 4), ('open', 1, 1), ('close', 0), (op, 4, 1)])
    # a failing close, and closes in any order
    cs = [Conn(i, t2o=i + 1, **dict(free, oserial=u32(f'os{i}'), vendor=u16(f'v{i}'), path=cat((fix(f'path{i}'), 0, 2 * i + 2)))) for i in range(3)]
    go(cs, [('open', 0), ('open', 1), ('open', 2), ('close', 1), ('close', 2), ('close', 0)])
    go(cs, [('open', 2), ('open', 0), ('close', 2), ('open', 1), ('close-held', 0), ('close', 1)], on_request=lambda I, S_, r: (8, Seq()) if r[1] == 0x4e else None)
