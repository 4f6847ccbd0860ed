"""Abstract interpretation of every operation that reads a reply, with the reply of each of its requests cut at every point (a symbolic cut position in a reply of unknown contents): the operation has to end in std::runtime_error with values, states and registrations as before; and of the decoders of primitives, frames, common packets, paths, explicit and connection-open replies, discovery replies and I/O datagrams on truncated input."""
from checks.replies import *
from checks.c05 import split
from checks import replies, c03, c04, c05, c06, c08, c16, c32

PROBES = replies.PROBES + ['p_buffer', 'p_frames', 'p_paths', 'p_explicit']


def sockaddr(cx, n):
    """a socket address item of n bytes in a connection-open reply"""
    opening(cx, 'cut', 'open', items=[(0x8000, lambda f: cat(sub_seq('sockaddr', n)))])


def datagrams(cx, n, **kw):
    """the first n bytes of a valid datagram of an open connection, then a whole one"""
    P = dict(BOTH, **kw)
    head = (2 if P['trig'] else 0) + (4 if P['t2oRT'] else 0)
    c = Conn(0, t2o=5, o2t=6, **P)
    whole = Data(5, 'x', exact=head + 6)
    s = Stray(lambda f: cat([('e', e) for e in flat(whole.build(f), n)]))
    for p in scenario(cx, [c], [('open', 0), arrive(s), ('handle', 0), arrive(whole), ('handle', 0)]):
        if not p.decided:
            continue
        if p.kind != 'return':
            cx.bad(p, 'truncated', CM + ' (handleConnections)', f'a truncated datagram ends with {p.kind} {p.exc or p.o.why}')
            continue
        i = [j for j, e in enumerate(p.events) if e[0] == 'dgram']
        got = [j for j, e in enumerate(p.events) if e[0] == 'received']
        if any(j < i[1] for j in got) or not got:
            cx.bad(p, 'truncated', CM + ' (handleConnections)', f'the first {n} bytes of a datagram are delivered as data' if got else 'after a truncated datagram data is not delivered')
        else:
            cx.ok()


KINDS = ['a byte', '2 bytes', '4 bytes', '8 bytes', 'five bytes', 'two words', 'a short string', 'a revision', 'a socket address', 'a string', 'no bytes', 'a double']
FIXED = {0: 1, 1: 2, 2: 4, 3: 8, 4: 5, 5: 4, 7: 2, 8: 16, 10: 0, 11: 8}


def series(cx, kind):
    """a buffer that ran out of data stays invalid, and says so exactly when it did"""
    site = 'src/utils/Buffer.cpp (isValid)'
    m = inp('msg')
    L = length(m)

    def needed(k, pos, f):
        """(facts, bytes needed by a read of kind k at pos)"""
        if k in FIXED:
            yield f, FIXED[k]
            return
        w = 1 if k == 6 else 2
        for g, b in split(f, cle(add(pos, w), L)):
            yield g, add(dec(m, pos, w, g), w) if b else w
    for p in cx.run(f'rp_reads{kind}'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'truncated', site, f'reading ends with {p.kind} {p.exc or p.o.why}')
            continue
        k2 = p.out('second')
        for f, n in needed(kind, 0, p.facts):
            for g, ok in split(f, cle(n, L)):
                cx.expect(p, 'truncated', site, f'valid after reading {KINDS[kind]}', p.out('valid1'), ok, g)
                if not ok:
                    cx.expect(p, 'truncated', site, f'valid after reading {KINDS[k2]} behind the end', p.out('valid2'), False, g)
                    cx.expect(p, 'truncated', site, 'valid after reading another byte behind the end', p.out('valid3'), False, g)
                    continue
                for h, n2 in needed(k2, n, g):
                    t = h.simp(norm(add(n, n2), h))
                    for i, ok2 in split(h, cle(t, L)):
                        cx.expect(p, 'truncated', site, f'valid after reading {KINDS[kind]} and {KINDS[k2]}', p.out('valid2'), ok2, i)
                        for j, ok3 in split(i, cle(add(t, 1), L)):
                            cx.expect(p, 'truncated', site, f'valid after reading {KINDS[kind]}, {KINDS[k2]} and a byte', p.out('valid3'), ok2 and ok3, j)


def run(cx):
    for k in range(12):
        cx.par(series, cx, k)
    cx.part(c32.run, 'truncated', 'refuse', 'malformed')
    cx.part(c08.run, 'refuse')
    cx.part(c05.run, 'truncated', 'refuse')
    cx.part(c06.run, 'malformed')
    cx.part(c03.run, 'truncated')
    cx.part(c04.run, 'refuse')
    cx.part(c16.open_reply, 'truncated')
    for op in OPS:
        for at in op.cut:
            cx.par(judged, cx, op, at, 'cut', cut)
    for op in ('open', 'large'):
        cx.par(opening, cx, 'cut', op, cut)
    for n in range(16):
        cx.par(sockaddr, cx, n)
    for kw in (dict(), dict(t2oRT=1), dict(trig=0), dict(t2oP=P2P | VARIABLE | 6)):
        P = dict(BOTH, **kw)
        head = (2 if P['trig'] else 0) + (4 if P['t2oRT'] else 0)
        for n in range(18 + head + 6):
            cx.par(datagrams, cx, n, **kw)
