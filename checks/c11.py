"""Abstract interpretation of every socket operation with every system call failing, interrupted or partial on its own and in combination (error numbers unknown): opening, connecting (pending, refused, timed out, interrupted), binding, configuring, sending, receiving in fragments, discovery; each path must report the code of the first failure that is not to be retried, or else deliver exactly what the calls did."""
from eip.check import *
from eip.sysmodel import E_INTR, E_INPROGRESS, E_TIMEDOUT, E_AGAIN, os_of, count

PROBES = ['p_sockets']
OBL = ('fdset', 'bounds', 'null', 'uninit', 'use-after-free')
ADDR = (2, 44818 * 256 % 65536 + 44818 // 256, 10 | 1 << 24)
RETRY = {'select': (E_INTR,), 'recv': (E_INTR,), 'recvfrom': (E_INTR,), 'connect': (E_INPROGRESS,)}
IGNORED = ('close', 'shutdown')
ms = sym('ms', -2 ** 31, 2 ** 31 - 1)


def logs(I):
    """writing a message may change errno (the appender belongs to the user)"""
    k = count(I, 'log')
    os_of(I).errno.v = sym(f'errno-after-log{k}', 1, 133)
    I.assume(cand(cne(os_of(I).errno.v, E_INTR), cne(os_of(I).errno.v, E_INPROGRESS)))


def run(cx):
    U_, T_, B_, D_ = ('src/sockets/UDPSocket.cpp', 'src/sockets/TCPSocket.cpp', 'src/sockets/UDPBoundSocket.cpp', 'src/DiscoveryManager.cpp')

    def go(probe, site, fails=(), limit=2, after=0, judge=None, may=None, maxretry=2, **cfg):
        """all paths on which up to `limit` of the calls named in `fails` (counted after the first `after` of them) fail with any code"""
        def fail(I, name, k, args):
            if name not in fails:
                return False
            st = I.env.setdefault('c11', {'n': 0, 'intr': 0})
            if may is not None and not may(I, name, k):
                return False
            if st['n'] >= limit:
                return False
            opts = ['ok', 'err'] + (['retry'] if name in RETRY and (name == 'connect' or st['intr'] < maxretry) else [])
            w = opts[I.choose(len(opts))]
            if w == 'ok':
                return False
            if w == 'retry':
                st['intr'] += 1
                return RETRY[name][0]
            st['n'] += 1
            e = sym(f'errno:{name}#{k}', 1, 133)
            for r in RETRY.get(name, ()):
                I.assume(cne(e, r))
            return e

        def world(I, k):
            t = I.env.get('t11')
            if t is None:
                t = I.env['t11'] = sym('t0', 0, 2 ** 61)
            return t

        def ready(I, k, allfds, tmo):
            if I.env.get('late11') is None and I.choose(2):
                I.env['late11'] = 1
                return []
            return list(allfds)

        # time passes while waiting
        def fail_(I, name, k, args):
            r = fail(I, name, k, args)
            if name == 'select':
                t = world(I, 0)
                I.events.append(('world', t))
                d = sym(f'd{k}', 0, 2 ** 50)
                I.env['t11'] = add(t, d)
            return r

        c = {'fail': fail_, 'ready': ready, 'now': world}
        c.update(cfg)
        for p in cx.run(probe, oscfg=c, obls=OBL, tune=lambda I: (setattr(I, 'UNROLL', 6), setattr(I, 'on_log', logs)), maxpaths=3000):
            if not p.decided:
                continue
            if p.kind in ('terminate', 'ub'):
                cx.bad(p, 'ends', site, f'ends with {p.kind} {p.o.why}')
                continue
            so = [e[3] for e in p.events if e[0] == 'sys' and e[1] == 'getsockopt' and p.facts.const(e[3]) != -1]
            for f, zero in cx.cases(p, *[ceq(v, 0) for v in so]):
                first(p, site, f)
            if judge:
                judge(p, site)

    def first(p, site, f):
        """the first failure decides the outcome"""
        bad = None
        for e in p.events:
            if e[0] == 'fail' and e[1] not in IGNORED:
                if e[1] == 'connect' and f.const(e[3]) == E_INPROGRESS:
                    continue
                if e[1] in ('select', 'recv', 'recvfrom') and f.const(e[3]) == E_INTR:
                    continue
                bad = e
                break
            if e[0] == 'sys' and e[1] == 'select' and e[5] == () and e[4] is not None:
                bad = ('fail', 'select', 0, E_TIMEDOUT)
                break
            if e[0] == 'sys' and e[1] == 'getsockopt' and f.decide(ceq(e[3], 0)) is False and f.const(e[3]) != -1:
                bad = ('fail', 'SO_ERROR', 0, e[3])
                break
        err = p.outs.get('error')
        if bad is None:
            if err or not p.done:
                cx.bad(p, 'spurious', site, f'nothing failed, but the operation ends with {p.kind} {p.exc or ""}{err or ""}')
            elif 'fine' not in p.marks:
                cx.bad(p, 'spurious', site, 'nothing failed, but the operation does not complete')
            else:
                cx.ok()
            return
        what = bad[1]
        if p.threw:
            if not p.throws('std::system_error'):
                cx.bad(p, 'kind', site, f'a failing {what} raises {p.exc}')
            elif p.val is not None and getattr(p.val, 'code', None) is not None and not what.startswith('short'):
                cx.expect(p, 'code', site, f'code of the failing {what}', p.val.code, bad[3], f)
            else:
                cx.ok()
            return
        if not err:
            cx.bad(p, 'silent', site, f'a failing {what} is not reported')
            return
        if not what.startswith('short'):
            cx.expect(p, 'code', site, f'code of the failing {what}', err[0], bad[3], f)
        else:
            cx.ok()

    # ---- opening
    for probe in ('udp_open', 'udp_open_host'):
        go(probe, f'{U_} (UDPSocket)', ('socket',))

    def bound(p, site):
        if 'made' in p.marks and [b[2] for b in p.sys('bind')] != [(2, 2222 * 256 % 65536 + 2222 // 256, 0)]:
            cx.bad(p, 'bind', site, f'binds {[b[2] for b in p.sys("bind")]} instead of port 2222 of every address')
    for probe in ('bound_open', 'bound_open_host'):
        go(probe, f'{B_} (UDPBoundSocket)', ('socket', 'setsockopt', 'bind'), judge=bound)

    def connected(p, site):
        """the waits of a connect watch the socket for writing, at most for the time that is left"""
        t0 = None
        lim = ms if p.probe == 'tcp_open_timeout' else 1000
        worlds = [e[1] for e in p.events if e[0] == 'world']
        for i, s in enumerate(p.sys('select')):
            nfds, watched, tmo, res = s[1:5]
            if watched[0] or watched[2] or len(watched[1]) != 1:
                cx.bad(p, 'wait', site, f'the connect waits on {watched}')
            if t0 is None:
                t0 = worlds[i]
            if tmo is None:
                cx.bad(p, 'wait', site, 'the connect waits without limit')
                continue
            t = scale(tmo, 1000)
            left = sub(add(t0, scale(lim, 1000000)), worlds[i])
            cx.must(p, 'wait', site, f'wait {i} of a connect lasts {tmo!r} us, longer than is left of the timeout', cor(cle(t, add(left, 1000000)), ceq(t, 0)))
            cx.must(p, 'wait', site, f'wait {i} of a connect lasts a negative time', cle(0, t))
            cx.must(p, 'wait', site, f'wait {i} of a connect lasts {tmo!r} us, shorter than is left of the timeout', cle(sub(left, 1000000), t))
        if p.sys('select-miss'):
            cx.bad(p, 'wait', site, 'the wait of a connect does not cover its descriptor')
        if 'made' in p.marks:
            c = p.sys('connect')
            if len(c) != 1 or c[0][2] != ADDR:
                cx.bad(p, 'connect', site, f'connects {[x[2] for x in c]} instead of {ADDR}')
            fl = [e for e in p.sys('fcntl') if e[2] == 4]
            if fl and fl[-1][3] is not None:
                # the socket blocks again
                cx.must(p, 'blocking', site, 'the connected socket is left non-blocking', ceq(bits_join(bits_take(bits_of(wrap(fl[-1][3], 32, False, p.facts), 32, p.facts), 11, 1), p.facts), 0))
            n = [e for e in p.events if e[0] == 'fail' and e[1] == 'connect']
            if n and p.sys('select') and p.sys('select')[-1][4] in ((), -1):
                cx.bad(p, 'pending', site, 'a pending connect is taken as done although the socket is not ready')
            if n and not p.sys('getsockopt'):
                cx.bad(p, 'pending', site, 'a pending connect is taken as done without asking for its result')
    for probe in ('tcp_open', 'tcp_open_host', 'tcp_open_timeout'):
        go(probe, f'{T_} (TCPSocket)', ('socket', 'fcntl', 'connect', 'select', 'getsockopt', 'setsockopt'), limit=1 if not cx.deep else 2, judge=connected, maxretry=2 if probe != 'tcp_open_host' else 0)
    # ---- sending
    def sent(kind):
        def j(p, site):
            calls = p.sys('send', 'sendto')
            if len(calls) != 1 and 'fine' in p.marks:
                cx.bad(p, 'send', site, f'{len(calls)} sends')
                return
            for s in calls[:1]:
                cx.expect(p, 'send', site, 'data handed to the system', s[2], cat(inp('data')))
                if kind == 'udp' and s[3] != ADDR:
                    cx.bad(p, 'send', site, f'datagram sent to {s[3]} instead of {ADDR}')
                if 'fine' in p.marks:
                    cx.must(p, 'send', site, 'a send that did not take all bytes is reported as done', ceq(s[5], length(inp('data'))))
        return j
    for kind, site in (('udp', f'{U_} (Send)'), ('tcp', f'{T_} (Send)')):
        for short in (False, True):
            go(f'{kind}_send', site, ('send', 'sendto'), judge=sent(kind), short_send=short)

    # ---- receiving
    size = u16('size')

    def received(p, site):
        if 'fine' not in p.marks:
            return
        parts = []
        for s in p.sys('recv'):
            if p.facts.const(s[3]) == -1:
                continue
            parts.append(s[3])
        got = p.out('got')
        want, k = [], 0
        for e in p.events:
            if e[0] == 'sys' and e[1] in ('recv', 'recvfrom'):
                k += 1
                if p.facts.const(e[4]) not in (-1, 0):
                    want.append(('s', arr(f'received#{k}', 0, 255, 65507), 0, e[4]))
        cx.expect(p, 'received', site, 'data returned', got, Seq(want))
        if p.probe.startswith('tcp'):
            tot = 0
            for w in want:
                tot = add(tot, w[3])
            eof = any(p.facts.const(e[4]) == 0 for e in p.events if e[0] == 'sys' and e[1] == 'recv')
            if not eof:
                cx.must(p, 'received', site, 'a receive returns before all bytes arrived', ceq(tot, size))
            asked = size
            for e in p.events:
                if e[0] == 'sys' and e[1] == 'recv':
                    cx.expect(p, 'received', site, 'number of bytes asked for', e[3], asked)
                    if p.facts.const(e[4]) not in (-1,):
                        asked = sub(asked, e[4])
        else:
            for e in p.events:
                if e[0] == 'sys' and e[1] == 'recvfrom':
                    cx.expect(p, 'received', site, 'size of the receive buffer', e[3], size)
    for probe, site in (('udp_receive', f'{U_} (Receive)'), ('udp_receive_from', f'{U_} (ReceiveFrom)')):
        go(probe, site, ('recvfrom',), judge=received)
    go('tcp_receive', f'{T_} (Receive)', ('recv',), judge=received)

    # ---- receive timeout
    def timed(p, site):
        s = p.sys('setsockopt')
        s = s[-1] if s else None
        if s is None or s[2:4] != (1, 20):
            cx.bad(p, 'timeout', site, f'the receive timeout is not handed to the system ({s})')
            return
        if 'fine' in p.marks:
            v = s[4]
            tot = add(scale(v[0], 1000000), v[1])
            for f, (neg,) in cx.cases(p, clt(ms, 0)):
                cx.expect(p, 'timeout', site, 'receive timeout', tot, 0 if neg else scale(ms, 1000), f)
                cx.must(p, 'timeout', site, 'the receive timeout is not normalised', cand(cle(0, v[1]), clt(v[1], 1000000)), f)
            cx.expect(p, 'timeout', site, 'timeout remembered', p.out('timeout'), ms)
    for k in ('udp', 'tcp'):
        go(f'{k}_timeout', 'src/sockets/BaseSocket.cpp (setRecvTimeout)', ('setsockopt',), judge=timed)
    # ---- discovery: every step before the replies
    discovery(cx)


def discovery(cx):
    site = 'src/DiscoveryManager.cpp (discover)'

    def fail(I, name, k, args):
        if name in ('socket', 'setsockopt', 'sendto') and 'c11d' not in I.env:
            if I.choose(2):
                I.env['c11d'] = 1
                return sym(f'errno:{name}#{k}', 1, 133)
        return False
    for short in (False, True):
        for p in cx.run('discover_faults', oscfg={'fail': fail, 'incoming': lambda I, name, fd, n, k: E_AGAIN, 'short_send': short}, obls=OBL, tune=lambda I: setattr(I, 'on_log', logs)):
            if not p.decided:
                continue
            bad = [e for e in p.events if e[0] == 'fail' and e[1] not in IGNORED and not e[1].startswith('recv')]
            err = p.outs.get('error')
            if p.kind != 'return' and not p.throws('std::system_error'):
                cx.bad(p, 'ends', site, f'ends with {p.kind} {p.exc or p.o.why}')
            elif not bad:
                if err or not p.done:
                    cx.bad(p, 'spurious', site, 'nothing failed, but the discovery fails')
                else:
                    cx.ok()
            elif not err:
                cx.bad(p, 'silent', site, f'a failing {bad[0][1]} is not reported')
            elif not bad[0][1].startswith('short'):
                cx.expect(p, 'code', site, f'code of the failing {bad[0][1]}', err[0], bad[0][3])
            else:
                cx.ok()
