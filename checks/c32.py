"""Abstract interpretation of IdentityObject over a scripted device and of DiscoveryManager over the modelled socket calls: scripted series of datagrams (well-formed with one to three identity items of unknown content, foreign items, arbitrary bytes, truncations), the time-out and every other receive error; devices, their order and fields are traced back to the bytes of their item."""
from checks.util import *
from checks.c05 import split
from checks.c29 import text, lit, swap16

PROBES = ['p_discovery']
ID = 'src/IdentityObject.cpp'
DM = 'src/DiscoveryManager.cpp (discover)'
DP = 'src/DiscoveryManager.cpp (parseListIdentityReply)'
FIELDS = ('vendor', 'device', 'product', 'major', 'minor', 'status', 'serial', 'name')
WIDTH = {'vendor': 2, 'device': 2, 'product': 2, 'major': 1, 'minor': 1, 'status': 2, 'serial': 4}


def attrs(t=''):
    """symbolic attribute values of device t"""
    v = {k: (u8 if w == 1 else u16 if w == 2 else u32)(k + t) for k, w in WIDTH.items()}
    v['name'] = sub_seq('name' + t, u8('len' + t))
    return v


def encode(v, f, t=''):
    return cat(*[byt(v[k], WIDTH[k], f) for k in FIELDS[:7]], byt(u8('len' + t), 1, f), v['name'])


def identity_item(t, f, typ=0x0c):
    body = cat(byt(u16('version' + t), 2, f), [('e', 0), ('e', 2)], swapped(u16('port' + t), f), byt(u32('addr' + t), 4, f), [('e', 0)] * 8, encode(attrs(t), f, t), byt(u8('state' + t), 1, f))
    return cat(byt(typ, 2, f), byt(seqlen(body), 2, f), body)


def swapped(v, f):
    b = bits_of(v, 16, f)
    return [('e', bits_join(bits_take(b, 8, 8), f)), ('e', bits_join(bits_take(b, 0, 8), f))]


def header(k):
    return [('e', elem(fix(f'header{k}'), i)) for i in range(24)]


def reply(k, f, *items):
    return cat(header(k), byt(len(items), 2, f), *items)


def other(f, n=3):
    return cat(byt(0x8001, 2, f), byt(n, 2, f), [('e', elem(fix('other'), i)) for i in range(n)])


def run(cx):
    # ---- identity object
    site = ID + ' (IdentityObject)'
    for p in cx.run('id_read', oscfg={'hook': router(lambda I, k, r: (0, encode(attrs(), I.facts)))}):
        if not p.done:
            if p.decided:
                cx.bad(p, 'read', site, f'reading a complete identity ends with {p.kind} {p.exc or p.o.why}')
            continue
        rs = reqs(p)
        if len(rs) != 1:
            cx.bad(p, 'request', site, f'{len(rs)} requests instead of one')
        else:
            check_request(cx, p, site, 'identity', rs[0], GET_ALL, [1, 1], Seq())
        for k, v in attrs().items():
            cx.expect(p, 'read', site, k, p.out(k), v if not isinstance(v, list) else cat(v))
        cx.expect(p, 'read', site, 'instance id', p.out('instance'), u16('id'))
        cx.expect(p, 'read', site, 'class id', p.out('class'), 1)
    m = inp('msg', 500)
    L = length(m)
    for st in (0, None):
        for p in cx.run('id_read', oscfg={'hook': router(lambda I, k, r: (0 if st == 0 else u8('general'), cat(m)))}):
            if not p.decided:
                continue
            if not p.done:
                if not p.throws('std::runtime_error'):
                    cx.bad(p, 'refuse', site, f'refused with {p.kind} {p.exc or p.o.why}')
                for g, (s, full) in cx.cases(p, ceq(u8('general'), 0) if st is None else True, cle(15, L)):
                    if s and full:
                        for h, (c,) in cx_cases(cx, g, cle(add(15, elem(m, 14)), L)):
                            if c:
                                cx.must(p, 'read', site, 'a complete identity is refused', False, h)
                continue
            if st is None:
                cx.must(p, 'status', site, 'a reply with a failing status is used', ceq(u8('general'), 0))
            cx.must(p, 'truncated', site, 'a truncated identity is accepted', cle(15, L))
            check_fields(cx, p, site, m, 0, p.facts, 0)
    for p in cx.run('id_local'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'fields', ID, f'{p.kind} {p.exc or p.o.why}')
            continue
        for k, v in attrs().items():
            cx.expect(p, 'fields', ID, f'{k} of an empty identity', p.out(k), Seq() if k == 'name' else 0)
            for i in (1, 2):
                cx.expect(p, 'fields', ID, f'{k} after setting it', p.out(k, i), v if k != 'name' else cat(strg('name', 255)))

    # ---- discovery
    def series(*grams, end=11):
        def incoming(I, name, fd, n, k):
            if k <= len(grams):
                g = grams[k - 1](I.facts)
                for t in 'ABCD':
                    I.assume(cle(u8('len' + t), 100))
                return g if isinstance(g, int) else (g, None)
            return end
        return {'incoming': incoming}

    def device(p, t, i, f=None):
        f = f or p.facts
        for k, v in attrs(t).items():
            cx.expect(p, 'device', DP, f'{k} of device {i}', p.out(k, i), v if k != 'name' else cat(v), f)
        pt = u16('port' + t)
        cx.expect(p, 'device', DP, f'port of device {i}', p.out('port', i), pt, f)
        a = u32('addr' + t)
        host = lit('0.0.0.0') if f.const(a) == 0 else cat(arr(('ntoa', a), 46, 57, 15))
        cx.expect(p, 'device', DP, f'address of device {i}', p.out('host', i), host, f)

    def traffic(p, addr, port, ms, rounds):
        """one broadcast request on a socket configured for broadcasts and with the receive time-out"""
        f = p.facts
        s = p.sys('socket')
        if len(s) != 1 or s[0][2:] != (2, 2):
            cx.bad(p, 'socket', DM, f'sockets opened: {s}')
            return
        fd = s[0][1]
        so = [e for e in p.sys('setsockopt')]
        if not any(e[2:4] == (1, 6) and f.const(e[4]) for e in so):
            cx.bad(p, 'socket', DM, 'broadcasting is not enabled on the socket')
        tv = [e[4] for e in so if e[2:4] == (1, 20)]
        if not tv or not isinstance(tv[-1], tuple):
            cx.bad(p, 'socket', DM, 'no receive time-out is set')
        else:
            cx.expect(p, 'timeout', DM, 'receive time-out (us)', add(scale(tv[-1][0], 1000000), tv[-1][1]), ms * 1000)
        snd = p.sys('send', 'sendto')
        if len(snd) != 1:
            cx.bad(p, 'request', DM, f'{len(snd)} requests sent instead of one')
        else:
            e = snd[0]
            cx.expect(p, 'request', DM, 'list identity frame', e[2], cat([('e', 0x63)], [('e', 0)] * 23))
            cx.expect(p, 'request', DM, 'address family', e[3][0], 2)
            cx.expect(p, 'request', DM, 'destination port', e[3][1], ((port & 255) << 8) | port >> 8)
            cx.expect(p, 'request', DM, 'destination address', e[3][2], addr)
        rc = p.sys('recv', 'recvfrom')
        for e in rc:
            if f.decide(cle(504, e[2])) is not True:
                cx.must(p, 'receive', DM, 'the receive buffer is smaller than a discovery reply', cle(504, e[2]))
        if len(rc) != rounds:
            cx.bad(p, 'receive', DM, f'{len(rc)} receive calls instead of {rounds}')
        if any(x[0] == 'sys' and x[1] in ('sendto', 'send') for i, x in enumerate(p.events) if any(y[0] == 'sys' and y[1] in ('recv', 'recvfrom') for y in p.events[:i])):
            cx.bad(p, 'request', DM, 'the request is sent after receiving')
        cl = p.sys('close')
        if [e[1] for e in cl] != [fd]:
            cx.bad(p, 'socket', DM, f'descriptors closed: {[e[1] for e in cl]}')
        cx.ok()

    BC = (255 << 24) | (1 << 16) | (168 << 8) | 192
    one = lambda t: (lambda f: reply(t, f, identity_item(t, f)))
    bad1 = lambda f: cat(header('b'), byt(1, 2, f), byt(0x0c, 2, f), byt(9, 2, f), [('e', elem(fix('bad'), i)) for i in range(9)])
    scripts = [
        ('no reply', [], []),
        ('one device', [one('A')], ['A']),
        ('two devices', [one('A'), one('B')], ['A', 'B']),
        ('two items', [lambda f: reply('A', f, identity_item('A', f), identity_item('B', f))], ['A', 'B']),
        ('three items', [lambda f: reply('A', f, identity_item('A', f), identity_item('B', f), identity_item('C', f)), one('D')], ['A', 'B', 'C', 'D']),
        ('foreign item first', [lambda f: reply('A', f, other(f), identity_item('A', f))], ['A']),
        ('foreign item last', [lambda f: reply('A', f, identity_item('A', f), other(f))], ['A']),
        ('identity layout under a foreign type', [lambda f: reply('A', f, identity_item('A', f, 0x86)), one('B')], ['B']),
        ('malformed first', [bad1, one('A')], ['A']),
        ('malformed between', [one('A'), bad1, one('B')], ['A', 'B']),
        ('malformed last', [one('A'), bad1], ['A']),
        ('empty datagram', [lambda f: Seq(), one('A')], ['A']),
        ('header only', [one('A'), lambda f: cat(header('h')), one('B')], ['A', 'B']),
        ('short header', [lambda f: cat(header('h')[:23]), one('A')], ['A']),
        ('no items', [one('A'), lambda f: reply('n', f), one('B')], ['A', 'B']),
        ('announced item missing', [lambda f: cat(header('h'), byt(2, 2, f)), one('A')], ['A']),
        ('same device twice', [one('A'), one('A')], ['A', 'A']),
        ('interrupted receive', [one('A'), lambda f: 4, one('B')], ['A', 'B']),
    ]
    if cx.deep:
        scripts.append(('twenty devices', [one(f'T{i}') for i in range(20)], [f'T{i}' for i in range(20)]))
    for name, grams, want in scripts:
        for p in cx.run('disc', oscfg=series(*grams), maxpaths=4000):
            if not p.done:
                if p.decided:
                    cx.bad(p, 'collect', DM, f'{name}: discovery ends with {p.kind} {p.exc or p.o.why}')
                continue
            traffic(p, BC, 44818, 1500, len(grams) + 1)
            n = p.facts.const(p.out('n'))
            if n != len(want):
                cx.bad(p, 'collect', DM, f'{name}: {n} devices instead of {len(want)}')
                continue
            for i, t in enumerate(want):
                device(p, t, i)
    for p in cx.run('disc_short', oscfg=series(one('A'))):
        if p.done:
            ch = [e[1] for e in p.ev('choice')][0]
            traffic(p, BC, 44818, 250 if ch else 3000, 2)
    for p in cx.run('disc_twice', oscfg=series(one('A'), lambda f: 11, one('B'))):
        if p.done:
            for i, t in enumerate('AB'):
                cx.expect(p, 'collect', DM, f'devices of discovery {i + 1}', p.out('n', i), 1)
                for k, v in attrs(t).items():
                    cx.expect(p, 'device', DP, f'{k} of discovery {i + 1}', p.out(k, i), v if k != 'name' else cat(v))
            if len(p.sys('sendto')) != 2:
                cx.bad(p, 'request', DM, 'the second discovery sends no request of its own')
        elif p.decided:
            cx.bad(p, 'collect', DM, f'two discoveries end with {p.kind} {p.exc or p.o.why}')
    # errors
    codes = range(1, 134) if cx.deep else (1, 9, 12, 14, 22, 88, 100, 101, 104, 107, 110, 111, 113)
    for e in codes:
        if e in (4, 11):
            continue
        for p in cx.run('disc', oscfg=series(one('A'), end=e)):
            if not p.decided:
                continue
            if p.done:
                cx.bad(p, 'error', DM, f'receive error {e} is reported as the end of the discovery')
            elif not p.throws('std::system_error'):
                cx.bad(p, 'error', DM, f'receive error {e} ends with {p.kind} {p.exc or p.o.why}')
            else:
                cx.ok()
    for call in ('socket', 'setsockopt', 'sendto'):
        for p in cx.run('disc', oscfg=dict(series(one('A')), fail=lambda I, n, k, a: 'may' if n == call else False)):
            failed = [e for e in p.events if e[0] == 'fail' and e[1] == call]
            if failed and p.done:
                cx.bad(p, 'error', DM, f'a failing {call} is not reported')
            elif failed and p.decided and not p.throws('std::system_error'):
                cx.bad(p, 'error', DM, f'a failing {call} ends with {p.kind} {p.exc or p.o.why}')
            elif p.decided:
                cx.ok()
    # one reply with arbitrary items
    m = inp('msg', 478)
    L = length(m)
    for n in (0, 1, 2) if cx.deep else (0, 1):
        def gram(f, n=n):
            return cat(header('x'), byt(n, 2, f), m)
        for p in cx.run('disc', oscfg=series(gram, one('Z'))):
            if not p.decided:
                continue
            if not p.done:
                cx.bad(p, 'malformed', DM, f'an arbitrary reply ends discovery with {p.kind} {p.exc or p.o.why}')
                continue
            got = p.facts.const(p.out('n'))
            for g, its in walk(p.facts, m, L, n):
                if its is None:
                    cx.must(p, 'malformed', DM, 'a malformed reply yields a device or loses one', got == 1, g)
                    continue
                for h, offs in pick(g, m, its):
                    ok = True
                    for off, ln in offs:
                        if h.decide(cle(33, ln)) is not True:
                            ok = None if h.decide(cle(33, ln)) is None else False
                    if ok is False:
                        cx.must(p, 'malformed', DM, 'a truncated identity item yields a device or loses one', got == 1, h)
                    elif ok:
                        for i, (off, ln) in enumerate(offs):
                            if got == 1 + len(offs):
                                check_fields(cx, p, DP, m, h.simp(add(off, 18)), h, i, add(off, ln))
                        if got != 1 + len(offs):
                            c = False
                            for off, ln in offs:
                                c = cor(c, clt(ln, add(33, dec(m, h.simp(add(off, 32)), 1, h))))
                            cx.must(p, 'malformed', DM, 'a complete identity item is lost', c, h)
                device_last(cx, p, got)


def device_last(cx, p, got):
    if got:
        for k, v in attrs('Z').items():
            cx.expect(p, 'device', DP, f'{k} of the device after an arbitrary reply', p.out(k, got - 1), v if k != 'name' else cat(v))


def walk(f, m, L, n):
    def go(f, i, off):
        if i == n:
            yield f, []
            return
        for g, b in split(f, cle(add(off, 4), L)):
            if not b:
                yield g, None
                continue
            ln = dec(m, add(off, 2), 2, g)
            for h, b2 in split(g, cle(add(add(off, 4), ln), L)):
                if not b2:
                    yield h, None
                    continue
                for k, r in go(h, i + 1, h.simp(norm(add(add(off, 4), ln), h))):
                    yield k, None if r is None else [(dec(m, off, 2, h), add(off, 4), ln)] + r
    yield from go(f, 0, 0)


def pick(f, m, its):
    """the identity items among them"""
    def go(f, l):
        if not l:
            yield f, []
            return
        t, off, ln = l[0]
        for g, b in split(f, ceq(t, 0x0c)):
            for h, r in go(g, l[1:]):
                yield h, ([(off, ln)] if b else []) + r
    yield from go(f, its)


def cx_cases(cx, f, *conds):
    class P:
        facts = f
    return cx.cases(P, *conds)


def check_fields(cx, p, site, m, off, f, i, end=None):
    o = off
    for k in FIELDS[:7]:
        cx.expect(p, 'read', site, k, p.out(k, i), dec(m, f.simp(norm(o, f)), WIDTH[k], f), f)
        o = add(o, WIDTH[k])
    n = dec(m, f.simp(norm(o, f)), 1, f)
    cx.must(p, 'truncated', site, 'a product name longer than the data is accepted', cle(add(add(o, 1), n), end if end is not None else length(m)), f)
    cx.expect(p, 'read', site, 'name', p.out('name', i), cat((m, add(o, 1), n)), f)
