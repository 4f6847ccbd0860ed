"""Abstract interpretation of the life of every object that owns a descriptor (sockets, sessions, connection managers, discovery) with every system call failing on its own and with everything failing from any call on: each descriptor obtained is closed exactly once on every path, nothing else is ever closed, shut down or used; copying is refused by the type checker (traits evaluated on the real headers), and moving, where the types allow it, keeps the balance."""
from checks.lifetime import *
from checks import lifetime

PROBES = lifetime.PROBES
SITES = {'udp': 'src/sockets/UDPSocket.cpp', 'bound': 'src/sockets/UDPBoundSocket.cpp', 'tcp': 'src/sockets/TCPSocket.cpp', 'sess': 'src/SessionInfo.cpp', 'io': 'src/ConnectionManager.cpp', 'disc': 'src/DiscoveryManager.cpp', 'wait': 'src/sockets/BaseSocket.cpp',
         'move': 'src/sockets', 'assi': 'src/sockets'}


def balance(cx, p):
    site = SITES.get(p.probe.split('_')[0], SITES.get(p.probe[:4], 'src/sockets')) + f' ({p.probe})'
    if p.kind not in ('return', 'throw'):
        return
    owned, closed = [], {}
    for e in p.events:
        if e[0] != 'sys':
            continue
        if e[1] == 'socket':
            fd = p.facts.const(e[2])
            if fd is not None and fd >= 0:
                owned.append(fd)
        elif e[1] == 'close':
            closed[e[2]] = closed.get(e[2], 0) + 1
            if not e[3]:
                cx.bad(p, 'close', site, f'closes descriptor {e[2]}, which is not open')
        elif e[1] == 'shutdown' and not e[3]:
            cx.bad(p, 'shutdown', site, f'shuts down descriptor {e[2]}, which is not open')
        elif e[1] == 'badfd':
            cx.bad(p, 'use', site, f'uses descriptor {e[2:]}, which is not open')
    for fd in owned:
        n = closed.get(fd, 0)
        if n != 1:
            cx.bad(p, 'leak' if n == 0 else 'twice', site, f'descriptor {fd} is closed {n} times')
        else:
            cx.ok()


def run(cx):
    lives(cx, lambda p: balance(cx, p), cx.deep)
    for k, f in (('udp', 'src/sockets/UDPSocket.h'), ('bound', 'src/sockets/UDPBoundSocket.h'), ('tcp', 'src/sockets/TCPSocket.h'), ('session', 'src/SessionInfo.h'), ('manager', 'src/ConnectionManager.h')):
        for p in cx.run('traits_' + k):
            for w in ('copyable', 'assignable'):
                v = p.out(w)
                cx.rule_ok()
                if v is not False and v != 0:
                    cx.bad(p, 'copy', f, f'an object that owns descriptors is {w}')
