"""Shared pieces of the specifications."""
from eip.check import *
from checks.c06 import spec16, spec8

GET_ALL, GET_ONE, SET_ONE = 0x01, 0x0E, 0x10


def bits(v, lo, w, f, n=32):
    return bits_join(bits_take(bits_of(v, n, f), lo, w), f)


def requests(I):
    return [e for e in I.events if e[0] == 'req']


def router(script, log=None):
    """environment hook for FakeRouter: script(I, k, req) -> (status, data Seq[, items]); req = (session, service, path, data)"""
    def h(I, name, a, ref):
        if name == 'item':
            I.events.append(('item', I.rd(a[0]), I.seq_of(a[1])))
            return None
        if name == 'request':
            k = len(requests(I))
            req = (I.rd(a[0]), I.rd(a[1]), I.seq_of(a[2]), I.seq_of(a[3]))
            I.events.append(('req', k) + req)
            r = script(I, k, req)
            status, data = r[0], r[1]
            I.store(a[4], status)
            I.store(a[5], data)
            items = r[2] if len(r) > 2 else []
            I.store(a[6], len(items))
            for i, (t, d) in enumerate(items[:2]):
                I.store(a[7 + 2 * i], t)
                I.store(a[8 + 2 * i], d)
            return None
        if log:
            return log(I, name, a, ref)
    return h


def reqs(p):
    return [e[2:] for e in p.events if e[0] == 'req']


def check_request(cx, p, site, what, r, service, ids, data, facts=None, rule='request'):
    """one request of FakeRouter against the specification"""
    f = facts or p.facts
    cx.expect(p, rule, site, f'{what}: service', r[1], service, f)
    cx.expect(p, rule, site, f'{what}: path', r[2], spec16(f, ids), f)
    cx.expect(p, rule, site, f'{what}: request data', r[3], data, f)
    cx.expect(p, rule, site, f'{what}: session handed on', r[0], True, f)


def sub_seq(name, n):
    """the first n bytes of an unknown endless byte source"""
    return [('s', fix(name), 0, n)]


class Peer:
    """the other end of TCP connections: after the k-th send on the j-th connected socket, replies(I, j, k) is queued (a sequence, or None)"""

    def __init__(self, replies, end=None, frags=0, fail=None, frag_from=0):
        self.replies, self.end, self.frags, self.failing, self.frag_from = replies, end, frags, fail, frag_from

    def incoming(self, I, name, fd, n, k):
        st = I.env.setdefault('peer', {})
        fds = st.setdefault('fds', [])
        if fd not in fds:
            fds.append(fd)
        j = fds.index(fd)
        q = st.setdefault(('rx', fd), [])
        for e in I.events[st.get(('pos', fd), 0):]:
            if e[0] == 'sys' and e[1] == 'send' and e[2] == fd and e[6] != -1:
                r = self.replies(I, j, st.get(('n', fd), 0))
                st[('n', fd)] = st.get(('n', fd), 0) + 1
                if r is not None:
                    q = q + list(r.segs)
        st[('pos', fd)] = len(I.events)
        have = seqlen(Seq(q))
        if I.branch(cle(have, 0)):
            st[('rx', fd)] = []
            if self.end is not None:
                return self.end
            return Seq(), None
        take = n if I.branch(cle(n, have)) else have
        if st.get('frags', 0) < self.frags and st.get(('n', fd), 0) > self.frag_from and I.facts.decide(cle(take, 1)) is not True and I.choose(2):
            st['frags'] = st.get('frags', 0) + 1
            m = sym(f'fragment{st["frags"]}', 1, 70000)
            I.assume(clt(m, take))
            take = m
        a, b = I.seq_split(q, take)
        st[('rx', fd)] = b
        return Seq(a), None

    def cfg(self, **more):
        d = {'incoming': self.incoming, 'fail': self.failing, 'so_error': lambda I, k: 0, 'ready': lambda I, k, a, t: list(a), 'now': lambda I, k: 0}
        d.update(more)
        return d
