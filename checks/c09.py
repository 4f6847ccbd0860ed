"""Abstract interpretation of SessionInfo over the modelled TCP socket: every reply to the registration and to up to two exchanges (any bytes of any length, with arbitrary fragmentation, end of stream or time-out), and every call failing; the frames sent, the bytes read, the handle adopted, the frames returned and the errors raised are compared with the life cycle of a session."""
from checks.util import *
from checks.c04 import frame
from checks.c05 import split
from eip.sysmodel import E_AGAIN

PROBES = ['p_session']
SITE = 'src/SessionInfo.cpp'
ADDR = (2, 44818 * 256 % 65536 + 44818 // 256, 10 | 1 << 24)
OBL = ('bounds', 'null', 'use-after-free', 'uninit')
NAMES = ('registration', 'reply1', 'reply2')


def good(name, f, status=0, handle=None, mx=65535, data=None):
    d = inp(name + 'data', mx) if data is None else data
    return cat(byt(u16(name + 'cmd'), 2, f), byt(length(d), 2, f), byt(u32(name + 'handle') if handle is None else handle, 4, f), byt(status, 4, f), [('e', elem(fix(name + 'ctx'), i)) for i in range(12)], d)


def conversation(p, fd):
    """sends and reads on a descriptor, in order: ('send', data, result) / ('recv', asked, got) / ('mark', text)"""
    for e in p.events:
        if e[0] == 'mark':
            yield ('mark', e[1])
        elif e[0] == 'sys' and e[1] == 'send' and e[2] == fd:
            yield ('send', e[3], e[6], e[5])
        elif e[0] == 'sys' and e[1] == 'recv' and e[2] == fd:
            yield ('recv', e[3], e[4])
        elif e[0] == 'sys' and e[1] == 'close' and e[2] == fd:
            yield ('close',)


def reads(cx, p, f, got, asked, m, site):
    """one header, then exactly the announced number of bytes"""
    c = 0
    for n, g in zip(asked, got):
        if f.decide(clt(c, 24)) is True:
            cx.must(p, 'reads', site, 'reads beyond the header before knowing the length', cle(add(c, n), 24), f)
        elif f.decide(cle(24, c)) is True:
            cx.must(p, 'reads', site, 'reads beyond the end of the reply', cle(add(c, n), add(24, dec(m, 2, 2, f))), f)
        if f.const(g) != -1:
            c = f.simp(norm(add(c, g), f))
    return c


def run(cx):
    inputs = {n: inp(n, 66000) for n in NAMES}

    def verdict(f, m, handle):
        """(facts, is the reply acceptable?)"""
        L = length(m)
        for g, full in split(f, cle(24, L)):
            if not full:
                yield g, False
                continue
            for h, all_ in split(g, cle(add(24, dec(m, 2, 2, g)), L)):
                if not all_:
                    yield h, False
                    continue
                for i, st in split(h, ceq(dec(m, 8, 4, h), 0)):
                    if not st:
                        yield i, False
                        continue
                    if handle is None:
                        yield i, True
                        continue
                    yield from split(i, ceq(dec(m, 4, 4, i), handle))

    def talk(probe, peer, nfail=0, exchanges=0, shapes=None, raw=(), **cfg):
        for p in cx.run(probe, oscfg=peer.cfg(**cfg), obls=OBL, tune=lambda I: setattr(I, 'UNROLL', 6), maxpaths=2500):
            if not p.decided:
                continue
            if p.kind in ('terminate', 'ub') or p.threw and not p.throws('std::runtime_error'):
                cx.bad(p, 'ends', SITE, f'a session ends with {p.kind} {p.exc or p.o.why}')
                continue
            judge(p, raw)

    def judge(p, raw):
        f = p.facts
        opened = [e[2] for e in p.events if e[0] == 'sys' and e[1] == 'socket']
        conns = p.sys('connect')
        if len(conns) != len(opened) and p.done and 'open' in p.marks:
            cx.bad(p, 'connect', SITE + ' (SessionInfo)', f'{len(conns)} connects')
        if not opened:
            return
        fd = opened[0]
        ev = list(conversation(p, fd))
        stage, ex = 0, 0
        i = 0
        # ---- registration
        sends = [e for e in ev if e[0] == 'send']
        site = SITE + ' (SessionInfo)'
        up = 'open' in p.marks
        if not sends:
            if up:
                cx.bad(p, 'register', site, 'a session is open without a registration')
            return
        if conns and conns[0][2] != ADDR:
            cx.bad(p, 'connect', site, f'connects to {conns[0][2]}')
        cx.expect(p, 'register', site, 'first frame', sends[0][1], frame(f, 0x65, 0, 0, Seq([('e', 1), ('e', 0), ('e', 0), ('e', 0)])))
        blocks, cur, recvs = [], None, []
        marks = []
        for e in ev:
            if e[0] == 'send':
                cur = {'send': e, 'asked': [], 'got': [], 'marks': []}
                blocks.append(cur)
            elif e[0] == 'recv':
                if cur is None:
                    cx.bad(p, 'reads', site, 'reads before anything was sent')
                else:
                    cur['asked'].append(e[1])
                    cur['got'].append(e[2])
            elif e[0] == 'close':
                if cur is not None:
                    cur['closed'] = True
            elif cur is not None:
                cur['marks'].append(e[1])
        b = blocks[0]
        failed = f.const(b['send'][2]) == -1 or any(f.const(g) == -1 for g in b['got'])
        m = inputs['registration']
        ok = None
        if raw and raw[0]:
            total = reads(cx, p, f, b['got'], b['asked'], m, site)
            if failed:
                if up:
                    cx.bad(p, 'register', site, 'a session is open although an exchange of bytes failed')
                return finish(p, blocks, 1, None, up)
            for g, acc in verdict(f, m, None):
                if acc and not up:
                    cx.bad(p, 'register', site, 'a successful registration is refused') if not g.bad else None
                elif not acc and up:
                    cx.must(p, 'register', site, 'a session is open without a successful registration', False, g)
                elif up:
                    cx.expect(p, 'handle', site, 'session handle', p.out('session'), dec(m, 4, 4, g), g)
                    cx.must(p, 'reads', site, 'the reply is not read completely', ceq(total, add(24, dec(m, 2, 2, g))), g)
                else:
                    cx.ok()
            handle = dec(m, 4, 4, f)
        else:
            handle = u32('granted')
            if failed and up:
                cx.bad(p, 'register', site, 'a session is open although an exchange of bytes failed')
            elif not failed and not up:
                cx.bad(p, 'register', site, 'a successful registration is refused')
            elif up:
                cx.expect(p, 'handle', site, 'session handle', p.out('session'), handle)
        if not up:
            return finish(p, blocks, 1, None, up)
        # ---- exchanges
        site = SITE + ' (sendAndReceive)'
        n = sum(1 for x in p.marks if x == 'exchange')
        if p.probe == 'sess_request':
            return
        outs = 0
        marks = [x for x in p.marks if x in ('fine', 'refused', 'failed')]
        for k in range(n):
            res = marks[k] if k < len(marks) else None
            if 1 + k >= len(blocks):
                cx.bad(p, 'exchange', site, f'exchange {k} sends nothing')
                return
            b = blocks[1 + k]
            cx.expect(p, 'exchange', site, 'frame sent', b['send'][1], frame(f, u16('command'), handle, 0, inp('data', 65535)))
            bad = f.const(b['send'][2]) == -1 or any(f.const(g) == -1 for g in b['got'])
            m = inputs[NAMES[1 + k]]
            if bad:
                if res == 'fine':
                    cx.bad(p, 'exchange', site, 'an exchange whose bytes failed is reported as done')
                continue
            total = reads(cx, p, f, b['got'], b['asked'], m, site)
            want = [] if p.probe == 'sess_two' else handle
            for g, acc in verdict(f, m, handle):
                isreg = split_reg(g)
                for h, reg in isreg:
                    if reg and not acc:
                        continue      # a second registration through an open session: the reply may bring any handle
                    if acc and res != 'fine':
                        cx.must(p, 'exchange', site, 'a valid reply is refused', False, h)
                    elif not acc and res == 'fine':
                        cx.must(p, 'exchange', site, 'a reply that is incomplete, unsuccessful or of another session is returned', False, h)
                    elif acc:
                        ln = dec(m, 2, 2, h)
                        for key, v in (('command', dec(m, 0, 2, h)), ('length', ln), ('handle', handle), ('status', 0), ('body', cat((m, 24, ln)))):
                            cx.expect(p, 'exchange', site, f'{key} of the reply', p.out(key, outs), v, h)
                        cx.must(p, 'reads', site, 'the reply is not read completely', ceq(total, add(24, ln)), h)
                    else:
                        cx.ok()
            if res == 'fine':
                outs += 1
        finish(p, blocks, 1 + n, handle, up)

    def split_reg(f):
        yield from split(f, ceq(u16('command'), 0x65))

    def finish(p, blocks, n, handle, up):
        site = SITE + ' (~SessionInfo)'
        f = p.facts
        rest = blocks[n:]
        if not up:
            if rest:
                cx.bad(p, 'unregister', site, 'a session that never opened sends further frames')
            return
        if len(rest) != 1:
            cx.bad(p, 'unregister', site, f'{len(rest)} frames are sent at the end of a session instead of one')
            return
        cx.expect(p, 'unregister', site, 'last frame', rest[0]['send'][1], frame(f, 0x66, handle, 0, Seq()))
        if rest[0]['asked']:
            cx.bad(p, 'unregister', site, 'reads a reply that never comes')
        if not rest[0].get('closed'):
            cx.bad(p, 'unregister', site, 'the connection is not closed after the session')

    anyreply = lambda I, j, k: cat(inputs[NAMES[k]]) if k < 3 else None
    reg = lambda I, k: good('reg', I.facts, handle=u32('granted'), data=inp('regdata', 400))

    def then(I, j, k):
        if k == 0 or k > 2:
            return reg(I, k) if k == 0 else None
        m = inputs[NAMES[k]]
        if k == 1 and two:
            # a complete reply of any content (what follows the announced length would be the beginning of the next reply), or one that ends early
            I.assume(cle(24, length(m)))
            if I.choose(2):
                I.assume(ceq(length(m), add(24, dec(m, 2, 2, I.facts))))
            else:
                I.assume(clt(length(m), add(24, dec(m, 2, 2, I.facts))))
                I.assume(ceq(dec(m, 8, 4, I.facts), 0))
        return cat(m)
    two = False
    for end in (None, E_AGAIN):
        for frags in (0, 1) if not cx.deep else (0, 1, 2, 3):
            cx.par(talk, 'sess_open', Peer(anyreply, end, frags), raw=(1,))
        cx.par(talk, 'sess_default', Peer(anyreply, end), raw=(1,))
        cx.par(talk, 'sess_unwind', Peer(anyreply, end), raw=(1,))
        for frags in (0, 1) if not cx.deep else (0, 1, 2):
            cx.par(talk, 'sess_exchange', Peer(then, end, frags, frag_from=1))
        two = True
        cx.par(talk, 'sess_exchange2', Peer(then, end))
        two = False
    cx.par(talk, 'sess_shared', Peer(then))
    # the socket fails

    def fail(I, name, k, args):
        if name in ('send', 'recv', 'connect', 'setsockopt', 'socket') and 'c9' not in I.env and I.choose(2):
            I.env['c9'] = 1
            e = sym(f'errno:{name}#{k}', 1, 133)
            I.assume(cand(cne(e, 4), cne(e, 115)))
            return e
        return False

    def fail_all(I, name, k, args):
        """from some send or receive on, everything fails"""
        if name in ('send', 'recv') and ('c9' in I.env or I.choose(2)):
            I.env['c9'] = 1
            return 104
        return False
    two = True
    for fl in (fail, fail_all):
        for pr in ('sess_open', 'sess_exchange', 'sess_unwind') + (('sess_exchange2',) if cx.deep else ()):
            cx.par(talk, pr, Peer(then, fail=fl))
    # the receive timeout of the session
    for p in cx.run('sess_open', oscfg=Peer(then).cfg(), obls=OBL):
        if p.done and 'open' in p.marks:
            s = [e for e in p.sys('setsockopt') if e[2:4] == (1, 20)]
            if not s:
                cx.bad(p, 'timeout', SITE + ' (SessionInfo)', 'no receive timeout is set')
            else:
                cx.expect(p, 'timeout', SITE + ' (SessionInfo)', 'receive timeout', add(scale(s[-1][4][0], 1000000), s[-1][4][1]), scale(u16('ms'), 1000))
            cx.expect(p, 'endpoint', SITE + ' (getRemoteEndPoint)', 'port', p.out('port'), 44818)
