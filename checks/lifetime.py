"""Lives of every object that owns a descriptor, a session or connections, with every system call failing: used by C12 (descriptors) and C13 (destructors)."""
from checks.util import *
from checks.iomodel import *
from checks.c09 import good
from eip.sysmodel import E_INTR, E_INPROGRESS, E_AGAIN

PROBES = ['p_sockets', 'p_session', 'p_io', 'p_discovery']
CALLS = ('socket', 'connect', 'bind', 'setsockopt', 'getsockopt', 'fcntl', 'select', 'send', 'sendto', 'recv', 'recvfrom', 'close', 'shutdown')


def failing(limit, after=None, calls=CALLS):
    """up to `limit` calls fail with any code, wherever they are; after='all': from the first failure on everything fails"""
    def fail(I, name, k, args):
        if name not in calls:
            return False
        n = I.env.get('lf', 0)
        if after == 'all' and n:
            return 104
        if n >= limit or not I.choose(2):
            return False
        I.env['lf'] = n + 1
        if name == 'connect' and I.choose(2):
            return E_INPROGRESS
        e = sym(f'errno:{name}#{k}', 1, 133)
        if name in ('select', 'recv', 'recvfrom', 'connect'):
            I.assume(cand(cne(e, E_INTR), cne(e, E_INPROGRESS)))
        return e
    return fail


def lives(cx, visit, deep=False):
    ext = lambda I: setattr(I, 'UNROLL', 6)

    def go(probe, cfg, setup=None):
        c = {'now': lambda I, k: k * 10 ** 15, 'so_error': lambda I, k: sym(f'soerr{k}', 0, 133), 'ready': lambda I, k, a, t: list(a), 'incoming': lambda I, n, fd, m, k: (Seq([('s', inp('data', 400), 0, length(inp('data', 400)))]), None)}
        c.update(cfg)
        for p in cx.run(probe, oscfg=c, tune=ext, maxpaths=3000):
            if p.decided:
                visit(p)

    def sockets():
        for fl in (failing(1), failing(1, 'all')) + ((failing(2),) if deep else ()):
            for pr in ('udp_open', 'udp_open_host', 'bound_open', 'bound_open_host', 'tcp_open', 'tcp_open_host', 'tcp_open_timeout', 'udp_send', 'tcp_send', 'udp_timeout', 'tcp_timeout'):
                go(pr, {'fail': fl})
                go(pr, {'fail': fl, 'ready': lambda I, k, a, t: []})
        for pr in ('udp_receive', 'udp_receive_from', 'discover_faults'):
            go(pr, {'fail': failing(1), 'incoming': lambda I, n, fd, m, k: (Seq([('e', 1)] * 30), None) if k < 1 else E_AGAIN})
        go('tcp_receive', {'fail': failing(1), 'incoming': lambda I, n, fd, m, k: (Seq([('e', 1)]), None)})

    def waits():
        for pr in ('wait1', 'wait_kinds', 'wait_replace', 'wait_remove', 'wait_drop', 'wait_nested'):
            go(pr, {'fail': failing(1), 'hook': lambda *a: None, 'ready': lambda I, k, a, t: list(a) if k < 2 else []})
            go(pr, {'fail': failing(1), 'hook': lambda *a: None, 'ready': lambda I, k, a, t: []})

    def sessions(all_):
        reg = lambda I, j, k: good('reply', I.facts, handle=u32('granted'), data=inp('some', 40))
        for pr in ('sess_open', 'sess_exchange', 'sess_unwind', 'sess_shared', 'sess_default'):
            for fl in (failing(1), failing(1, 'all'), failing(2)) if all_ else (failing(1), failing(1, 'all')):
                go(pr, Peer(reg, fail=fl).cfg())
            go(pr, Peer(lambda I, j, k: None, fail=failing(1)).cfg())
            go(pr, Peer(lambda I, j, k: good('reply', I.facts, status=u32('st'), handle=u32('granted'), data=inp('some', 40)), fail=failing(1)).cfg())
    cx.par(sockets)
    cx.par(waits)
    cx.par(sessions, deep)

    def moves():
        for k in ('udp', 'bound', 'tcp'):
            for w in ('move', 'assign'):
                go(f'{w}_{k}', {})
        for w in ('move', 'assign'):
            go(f'{w}_session', Peer(lambda I, j, k: good(f'reply{j}', I.facts, handle=u32(f'granted{j}'), data=inp('some', 40))).cfg())
    cx.par(moves)

    # ---- connections
    def conns():
        d = dict(trig=1, t2oRT=0, t2oP=P2P | 6, o2tP=P2P | VARIABLE | 4, oapi=10000, tapi=10000, mult=0)
        return [Conn(i, t2o=20 + i, o2t=5 + i, **d) for i in range(2)]

    def io(script, fl=None, boom=None):
        def req(I, S, r):
            if boom and boom(S, r):
                I.throw_std('std::runtime_error', 'no answer')
            return None
        cfg = {'fail': fl} if fl else {}
        for p in scenario(cx, conns(), script, on_request=req, **cfg):
            if p.decided:
                visit(p)
    D = lambda: arrive(*[Data(20 + i, f'd{i}', exact=8) for i in range(2)])
    H = ('handle', 0)
    tails = [[('destroy', 0)], [H, ('destroy', 0)], [('close', 0), ('destroy', 0)], [('close', 0), ('close', 1), H], [wait(41000), H], []]

    def managers():
        for t in tails:
            for first in ([('open', 0)], [('open', 0), ('open', 1)], [('open', 0), ('open', 1), output(0, cat((fix('o'), 0, 4))), ('data', 0), wait(10000), D(), H]):
                io(first + t, failing(1))
                io(first + t, failing(1, 'all'))
                io(first + t, None, lambda S, r: r[1] == 0x4E)
                io(first + t, None, lambda S, r: S.nreq > 1)
        # the object is destroyed from inside its own listener: the caller holds the manager elsewhere
    cx.par(managers)
