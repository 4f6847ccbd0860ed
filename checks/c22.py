"""Abstract interpretation of the event wait over a modelled clock and descriptor sets: sets of zero to four sockets with arbitrary (also unrepresentable) descriptors, any timeout, and every sequence of readiness, interruptions and failures up to the tier's number of rounds, plus endless floods and endless interruptions; watched sets, remaining timeouts, listener calls and the bound on late rounds are checked on each path."""
from eip.check import *
from eip.sysmodel import E_INTR

PROBES = ['p_sockets']
SITE = 'src/sockets/BaseSocket.cpp (select)'
OBL = ('fdset', 'bounds', 'null', 'use-after-free', 'iterator', 'assert', 'uninit', 'pure-virtual')
MS = 1000000                     # ns
ms = sym('ms', -2 ** 31, 2 ** 31 - 1)


def run(cx):
    def wait(probe, rounds, fds=None, quantum=None, bare=(), n=None, alone=None, limit=None, deaf=()):
        """rounds(I, k) -> 'any' (a choice), 'all', 'none', 'intr', 'error'; quantum(k): how long round k takes (default: any time)"""
        def reset(I):
            if 'w22' not in I.env:
                I.env['w22'] = sym('t0', 0, 2 ** 61)
                if limit is not None:
                    I.assume(cand(cle(limit[0], ms), cle(ms, limit[1])))

        def advance(I, k, least=None):
            reset(I)
            d = quantum(k) if quantum else None
            if d is None:
                d = sym(f'd{k}', 0, 2 ** 50)
            t0 = I.env['w22']
            I.env['w22'] = add(t0, d)
            I.events.append(('world', 'after', k, I.env['w22']))

        def now(I, k):
            reset(I)
            return I.env['w22']

        def fail(I, name, k, args):
            if name != 'select':
                return False
            reset(I)
            what = rounds(I, k)
            I.env['what'] = what
            I.events.append(('world', 'before', k, I.env['w22']))
            if what in ('intr', 'error'):
                advance(I, k)
                if what == 'intr':
                    return E_INTR
                e = sym(f'err{k}', 1, 133)
                I.assume(cne(e, E_INTR))
                return e
            return False

        def ready(I, k, allfds, tmo):
            what = I.env['what']
            sel = list(allfds) if what == 'all' else [] if what == 'none' else [z for z in allfds if I.choose(2) == 0]
            advance(I, k)
            if not sel and not quantum and tmo is not None:
                I.assume(cle(scale(tmo, 1000), sub(I.env['w22'], [e for e in I.events if e[0] == 'world' and e[1] == 'before'][-1][3])))
            return sel

        def hook(I, name, a, ref):
            I.events.append(('ready', I.facts.const(I.rd(a[0])), I.rd(a[1])))

        cfg = {'fail': fail, 'ready': ready, 'now': now, 'hook': hook}
        if fds is not None:
            names = iter(())
            cfg['fd'] = lambda I, n_: fds[n_ - 3] if callable(fds) is False else fds(I, n_ - 3)
        for p in cx.run(probe, oscfg=cfg, obls=OBL, tune=lambda I: setattr(I, 'UNROLL', 8), maxpaths=4000):
            if not p.decided:
                continue
            judge(p, bare, deaf)

    def judge(p, bare, deaf):
        f = p.facts
        created = []
        sel = []          # (before, after, k, event, ready list, calls)
        pend = {}
        intr = None
        t0 = None
        waiting = False
        for e in p.events:
            if e[0] == 'sys' and e[1] == 'socket':
                created.append(e[2])
            elif e[0] == 'mark' and e[1] == 'wait':
                waiting = True
            elif e[0] == 'world':
                if e[1] == 'before':
                    pend = {'before': e[3], 'k': e[2]}
                else:
                    pend['after'] = e[3]
            elif e[0] == 'sys' and e[1] == 'select':
                pend['e'], pend['calls'] = e, []
                pend['errno'] = None
                sel.append(pend)
            elif e[0] == 'sys' and e[1] == 'select-miss':
                cx.bad(p, 'watched', SITE, f'the wait does not cover descriptor {e[2]!r} (limit {e[3]!r})')
            elif e[0] == 'fail' and e[1] == 'select':
                pend['err'] = e[3]
            elif e[0] == 'ready':
                if not sel:
                    cx.bad(p, 'served', SITE, 'a listener is called before any wait')
                else:
                    sel[-1]['calls'].append((e[1], e[2]))
        if created and not sel and p.done and not p.outs.get('error'):
            cx.bad(p, 'waits', SITE, 'the wait returns without waiting')
            return
        start = sel[0]['before'] if sel else None
        stop = add(start, scale(ms, MS)) if sel else None
        ends_in_error = p.outs.get('error')
        late = 0
        for i, s in enumerate(sel):
            e = s['e']
            nfds, watched, tmo, res = e[2:6]
            rd = list(watched[0])
            last = i == len(sel) - 1
            if sorted(map(repr, rd)) != sorted(set(map(repr, created))) or watched[1] or watched[2]:
                cx.bad(p, 'watched', SITE, f'round {i} watches {watched} instead of reading {created}')
                continue
            # the timeout of the round: what is left, to a millisecond
            rem = sub(stop, s['before'])
            if tmo is None:
                cx.bad(p, 'timeout', SITE, f'round {i} waits without limit')
            else:
                t = scale(tmo, 1000)
                cx.must(p, 'timeout', SITE, f'round {i} waits for {tmo!r} us, longer than is left', cor(cle(t, add(rem, MS)), ceq(t, 0)))
                cx.must(p, 'timeout', SITE, f'round {i} waits a negative time', cle(0, t))
                if i == 0 or sel[i - 1].get('err') is not None:
                    cx.must(p, 'timeout', SITE, f'round {i} waits for {tmo!r} us, shorter than is left', cle(sub(rem, MS), t))
            if f.decide(cle(stop, s['before'])) is True and i > 0:
                late += 1
            if 'err' in s:
                if s['calls']:
                    cx.bad(p, 'served', SITE, f'listeners {s["calls"]} are called after a failed wait')
                if f.const(s['err']) == E_INTR:
                    if last:
                        if ends_in_error:
                            cx.bad(p, 'interrupted', SITE, 'an interrupted wait ends in an error')
                        elif len(sel) < 16:
                            cx.must(p, 'interrupted', SITE, 'an interrupted wait returns before its timeout', cle(stop, add(s['after'], MS)))
                else:
                    if not last:
                        cx.bad(p, 'error', SITE, 'the wait goes on after a failure')
                    elif not ends_in_error:
                        cx.bad(p, 'error', SITE, 'a failed wait is not reported')
                    else:
                        cx.expect(p, 'error', SITE, 'code of the failure', ends_in_error[0], s['err'])
                continue
            want = [fd for j, fd in res if j == 0]
            idx = sorted(i_ for i_, fd in enumerate(created) if fd in want and i_ not in deaf)
            got = sorted(c[0] for c in s['calls'])
            if idx != got:
                cx.bad(p, 'served', SITE, f'round {i}: sockets {idx} are readable, listeners of {got} are called')
            for j, fd in s['calls']:
                if j < len(created):
                    cx.expect(p, 'served', SITE, f'socket given to listener {j}', fd, created[j])
        if late > 16:
            cx.bad(p, 'bounded', SITE, f'{late} rounds after the timeout has passed')
        bad = [fd for fd in created if f.decide(cand(cle(0, fd), clt(fd, 1024))) is not True]
        if bad and sel:
            cx.bad(p, 'descriptor', SITE, f'waits on descriptor {bad[0]!r}')
        if ends_in_error and not bad and not any('err' in s for s in sel):
            cx.bad(p, 'error', SITE, 'the wait fails although nothing failed')
        if p.threw or p.kind == 'terminate':
            cx.bad(p, 'error', SITE, f'the wait ends with {p.kind} {p.exc or p.o.why}')

    def pattern(s, then='none'):
        m = {'*': 'any', 'a': 'all', '0': 'none', 'i': 'intr', 'e': 'error'}
        return lambda I, k: m[s[k - 1]] if k <= len(s) else then

    # no socket: no system call
    for p in cx.run('wait0', obls=OBL):
        if p.decided:
            if not p.done or p.sys('select') or 'returned' not in p.marks:
                cx.bad(p, 'empty', SITE, f'a wait on no socket: {p.kind} {p.exc or p.o.why or "calls select"}')
            else:
                cx.ok()
    small = (-5, 5000)
    for n, probe in ((1, 'wait1'), (2, 'wait2'), (3, 'wait3')):
        pats = ['0', '*', 'e', 'i', 'a', 'ia', 'ai', 'ie', 'ii', 'ae'] + (['**', 'i*', '*i', 'aaa', 'iai', 'aia', 'iii'] if n < 3 or cx.deep else []) + (['i**', 'aaaa', 'iaia'] if n == 1 or cx.deep else []) + (['***', '*i*', '**i', 'aiaia', 'iiii'] if cx.deep and n < 3 else [])
        for s in pats:
            wait(probe, pattern(s))
    wait('wait4', pattern('*'))
    wait('wait4', pattern('aia'))
    wait('wait_kinds', pattern('*'), deaf=(1,))
    if cx.deep:
        wait('wait_kinds', pattern('a*'), deaf=(1,))
    # any descriptors, in any order
    for fds in ([5], [1023], [0], [1024], [65535]):
        wait('wait1', pattern('*'), fds=fds)
    for fds in ([1023, 3], [3, 1023], [0, 7], [1024, 3], [3, 1024], [1022, 1023], [1023, 1024], [2000, 1000]):
        wait('wait2', pattern('*'), fds=fds)
    for fds in ([9, 3, 4], [4, 9, 3], [3, 4, 9], [3, 5000, 4]):
        wait('wait3', pattern('*'), fds=fds)

    def anyfd(I, i):
        v = sym(f'fd{i}', 0, 2 ** 20)
        for j in range(i):
            I.assume(cne(v, sym(f'fd{j}', 0, 2 ** 20)))
        return v
    wait('wait1', pattern('*'), fds=anyfd)
    wait('wait2', pattern('a'), fds=anyfd)
    # floods: data keep coming, or interruptions do, and every round takes part of the timeout
    many = lambda what: lambda I, k: what if k < 200 else 'none'
    for what in ('all', 'intr'):
        for q in (MS // 10, 3 * MS, 40 * MS, 1000 * MS):
            for lim in ((0, 0), (-7, -7), (1, 1), (100, 100)):
                if lim[0] * MS > 150 * q:
                    continue
                wait('wait1', many(what), quantum=lambda k, q=q: q, limit=lim)
    alt = lambda I, k: ('all', 'intr')[k % 2] if k < 200 else 'none'
    wait('wait1', alt, quantum=lambda k: 5 * MS, limit=(12, 12))
    wait('wait2', many('all'), quantum=lambda k: 5 * MS, limit=(12, 12))
    # slow rounds from the start: every round ends late
    wait('wait1', lambda I, k: 'all' if k < 200 else 'none', quantum=lambda k: MS, limit=(0, 0))
