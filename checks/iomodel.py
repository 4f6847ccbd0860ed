"""Reference model of I/O connections: drives the probe `io` with a script and replays the observable events of every abstract path against what the properties demand."""
from checks.util import *
from checks.c05 import split

OPS = {'open': 1, 'large': 2, 'close': 3, 'handle': 4, 'data': 5, 'listen': 6, 'destroy': 7, 'open-bare': 8, 'handle-held': 9, 'close-held': 10, 'close-twice': 11, 'copy': 12, 'mute': 13}
CM = 'src/ConnectionManager.cpp'
IO = 'src/IOConnection.cpp'
P2P, MULTICAST, VARIABLE = 2 << 13, 1 << 13, 1 << 9
FIELDS = ('tick', 'ticks', 'o2tId', 't2oId', 'serial', 'vendor', 'oserial', 'mult', 'o2tRPI', 'o2tP', 't2oRPI', 't2oP', 'trig', 'pathSize', 'o2tRT', 't2oRT', 'path')
T0 = 1000000000


def params(i=0, **kw):
    d = dict(tick=10, ticks=14, o2tId=0, t2oId=0, serial=0, vendor=0x1337, oserial=0x4242 + i, mult=1, o2tRPI=100000, o2tP=P2P | 8, t2oRPI=200000, t2oP=P2P | 8,
             trig=1, pathSize=0, o2tRT=1, t2oRT=0, path=cat(bytes([0x20, 4, 0x24, 0x97, 0x2c, 0x97 + i, 0x2c, 0x64])))
    d.update(kw)
    return d


class Conn:
    def __init__(self, i, **kw):
        self.i = i
        self.p = params(i, **{k: v for k, v in kw.items() if k in FIELDS})
        self.o2t, self.t2o = kw.get('o2t', u32(f'o2t{i}')), kw.get('t2o', u32(f't2o{i}'))
        self.oapi, self.tapi = kw.get('oapi', u32(f'oapi{i}')), kw.get('tapi', u32(f'tapi{i}'))
        self.status = kw.get('status', 0)
        self.reply = kw.get('reply')
        self.items = kw.get('items', [])
        self.grant_serial = kw.get('grant_serial')


class Data:
    """a well-formed datagram for the connection with id `to`, whose data is the unknown bytes `name`"""
    def __init__(self, to, name='pl', mx=1200, extra=False, exact=None):
        self.to, self.name, self.mx, self.extra, self.exact = to, name, mx, extra, exact

    def payload(self):
        if self.exact is not None:
            return fix(self.name), 0, self.exact
        m = inp(self.name, self.mx)
        return m, 0, length(m)

    def build(self, f):
        b = cat(self.payload())
        n = 3 if self.extra else 2
        x = [byt(0x8000, 2, f), byt(4, 2, f), [('e', elem(fix('extra'), i)) for i in range(4)]] if self.extra else []
        return cat(byt(n, 2, f), byt(0x8002, 2, f), byt(8, 2, f), byt(self.to, 4, f), byt(u32('addrseq'), 4, f), byt(0xb1, 2, f), byt(seqlen(b), 2, f), b, *x)

    def parse(self, M):
        yield_ = (self.to,) + self.payload() + (True,)
        return yield_


class Stray:
    """a datagram that belongs to nobody"""
    def __init__(self, build, what=''):
        self.b, self.what = build, what

    def build(self, f):
        return self.b(f)

    def parse(self, M):
        return None


class Raw:
    """item count n, arbitrary other bytes"""
    def __init__(self, n, name='raw', mx=300):
        self.n, self.m = n, inp(name, mx)

    def build(self, f):
        return cat(byt(self.n, 2, f), self.m)

    def parse(self, M):
        m, L = self.m, length(self.m)
        its, off = [], 0
        for i in range(self.n):
            if not M.decide(cle(add(off, 4), L)):
                return None
            ln = dec(m, add(off, 2), 2, M.f)
            if not M.decide(cle(add(add(off, 4), ln), L)):
                return None
            its.append((dec(m, off, 2, M.f), add(off, 4), ln))
            off = M.f.simp(norm(add(add(off, 4), ln), M.f))
        if len(its) < 2 or not M.decide(cle(4, its[0][2])):
            return None
        typed = M.decide(ceq(its[0][0], 0x8002)) and M.decide(ceq(its[1][0], 0xb1))
        return dec(m, its[0][1], 4, M.f), m, its[1][1], its[1][2], typed


class State:
    """of the scripted environment on one path"""

    def __init__(self, conns, script, nested):
        self.conns = conns
        self.stack = [list(script)]
        self.nested = {k: [list(z) for z in v] for k, v in (nested or {}).items()}
        self.time = T0
        self.queue = []
        self.out = {}
        self.opening = None
        self.listener_data = {}
        self.nreq = 0
        self.log = []


def scenario(cx, conns, script, nested=None, probe='io', fail=None, setup=None, maxpaths=None, obls=(), tune=None, on_request=None, **cfg):
    """paths of the script; conns: list of Conn"""
    conns = {c.i: c for c in conns}

    def env():
        return {'io': State(conns, script, nested)}

    def hook(I, name, a, ref):
        S = I.env['io']
        E = I.events
        if name == 'next':
            fr = S.stack[-1]
            while fr:
                s = fr.pop(0)
                if callable(s):
                    s(I, S)
                    continue
                op, x, b = (s + (0, 0))[:3]
                E.append(('op', op, x, b, S.time, len(S.stack)))
                if op in ('open', 'large', 'open-bare'):
                    S.opening = conns[x]
                I.store(a[0], OPS[op])
                I.store(a[1], x)
                I.store(a[2], b)
                return None
            S.stack.pop()
            I.store(a[0], 0)
            return None
        if name == 'params':
            c = conns[I.facts.const(I.rd(a[0]))]
            for k, cell in zip(FIELDS, a[1:]):
                I.store(cell, c.p[k] if not isinstance(c.p[k], bool) else int(c.p[k]))
            return None
        if name == 'item':
            E.append(('item', I.rd(a[0]), I.seq_of(a[1])))
            return None
        if name == 'request':
            req = (I.rd(a[0]), I.rd(a[1]), I.seq_of(a[2]), I.seq_of(a[3]))
            E.append(('req',) + req)
            S.nreq += 1
            st, d, items = 0, Seq(), []
            r = on_request(I, S, req) if on_request else None
            if r is not None:
                st, d = r[:2]
                items = r[2] if len(r) > 2 else []
            elif req[1] in (0x54, 0x5b):
                c = S.opening
                st, items = c.status, c.items
                d = c.reply(I.facts) if c.reply else granted(c, req[3], I.facts)
            I.store(a[4], st)
            I.store(a[5], d)
            I.store(a[6], len(items))
            for i, (t, dd) in enumerate(items):
                I.store(a[7 + 2 * i], t)
                I.store(a[8 + 2 * i], dd(I.facts))
            return None
        if name == 'opened':
            E.append(('opened', I.facts.const(I.rd(a[0])), I.rd(a[1])))
            return None
        if name == 'after':
            E.append(('after', len(S.stack), S.time) + tuple(I.rd(z) for z in a))
            return None
        i = I.facts.const(I.rd(a[0]))
        if name == 'data':
            I.store(a[1], S.out[i])
            E.append(('setdata', i, S.out[i]))
            return None
        if name == 'received':
            E.append(('received', i, I.rd(a[1]), I.rd(a[2]), I.seq_of(a[3]), S.time))
        elif name == 'sending':
            new = None
            if S.listener_data.get(i):
                new = S.listener_data[i].pop(0)
            E.append(('sending', i, I.seq_of(a[1]), S.time, new))
            if new is not None:
                I.store(a[1], new)
        elif name == 'closed':
            E.append(('closed', i, S.time))
        nest = S.nested.get((name, i))
        S.stack.append(nest.pop(0) if nest else [])
        return None

    def ready(I, k, allfds, tmo):
        S = I.env['io']
        if S.queue and allfds:
            return [allfds[0]]
        S.time = add(S.time, scale(tmo, 1000)) if tmo is not None else S.time
        return []

    def incoming(I, name, fd, n, k):
        S = I.env['io']
        if not S.queue:
            I.events.append(('blocked',))
            return 11
        d = S.queue.pop(0)
        I.events.append(('dgram', d, S.time))
        return d.build(I.facts), None

    os_ = {'hook': hook, 'ready': ready, 'incoming': incoming, 'now': lambda I, k: I.env['io'].time}
    if fail:
        os_['fail'] = fail
    os_.update(cfg)
    return cx.run(probe, env=env, oscfg=os_, maxpaths=maxpaths, obls=obls, setup=setup, tune=tune)


def granted(c, req, f):
    """reply of a target that opens the connection: serial number, vendor and originator as in the request"""
    # request: tick, ticks, o2t id, t2o id, serial (10..12), vendor (12..14), originator serial (14..18)
    el = flat(req, 18)
    who = [('e', b) for b in el[10:18]]
    if c.grant_serial is not None:
        who = byt(c.grant_serial, 2, f) + who[2:]
    return cat(byt(c.o2t, 4, f), byt(c.t2o, 4, f), who, byt(c.oapi, 4, f), byt(c.tapi, 4, f), [('e', 0), ('e', 0)])


def flat(q, n):
    """the first n bytes of a sequence that starts with single elements"""
    out = []
    for s in q.segs:
        if s[0] == 'e':
            out.append(s[1])
        elif s[0] == 's' and isinstance(s[3], int):
            out += [elem(s[1], add(s[2], i)) for i in range(s[3])]
        else:
            break
        if len(out) >= n:
            return out[:n]
    return out + [0] * (n - len(out))


# ---- script steps
def wait(us):
    """time passes"""
    def f(I, S):
        S.time = add(S.time, scale(us, 1000) if not isinstance(us, int) else us * 1000)
    return f


def wait_ns(ns):
    def f(I, S):
        S.time = add(S.time, ns)
    return f


def arrive(*d):
    def f(I, S):
        S.queue += list(d)
    return f


def output(i, data):
    def f(I, S):
        S.out[i] = data(I.facts) if callable(data) else data
    return f


def answer(i, *data):
    """what the send listener of connection i writes into its argument, call by call"""
    def f(I, S):
        S.listener_data.setdefault(i, []).extend(d(I.facts) if callable(d) else d for d in data)
    return f


def assume(c):
    def f(I, S):
        I.assume(c)
    return f


class Need(Exception):
    pass


class Contra(Exception):
    pass


class MC:
    """model of one connection"""

    def __init__(self, c, T, fd, mgr):
        self.c, self.p, self.i = c, c.p, c.i
        self.open, self.mgr = True, mgr
        self.fd = fd
        self.last_handle = self.last_recv = T
        self.timer = 0
        self.seqs = {0}
        self.cnts = {0}
        self.out = Seq()
        self.ticked = False
        self.listening = True
        self.closed_by = None
        self.lost = False


class Model:
    def __init__(self, cx, p, choices, rules):
        self.cx, self.p, self.choices, self.rules = cx, p, choices, rules
        self.k = 0
        self.f = p.facts.copy()
        self.conns = {}
        self.pend = None
        self.send = None
        self.strays = 0

    # decisions that the path has not taken are split
    def decide(self, c):
        d = c if isinstance(c, bool) else self.f.decide(c)
        if d is not None:
            return d
        if self.k >= len(self.choices):
            raise Need()
        v = self.choices[self.k]
        self.k += 1
        if not self.f.assume(c if v else cnot(c)):
            raise Contra()
        return v

    def rule(self, r):
        return self.rules is None or r in self.rules

    def wrong(self, r, site, msg):
        if self.rule(r):
            self.cx.must(self.p, r, site, msg, False, self.f)
        raise Contra()

    def expect(self, r, site, what, got, want):
        if self.rule(r):
            self.cx.expect(self.p, r, site, what, got, want, self.f)

    def ok(self):
        self.cx.ok()

    # ---- specification
    def accept(self, d, T):
        """what has to happen with datagram d: (connection, header, count, data, surely) or None"""
        r = d.parse(self)
        if r is None:
            return None
        to, m, off, ln, sure = r
        for c in list(self.conns.values()):
            if c.open and c.mgr == self.mgr and self.decide(ceq(to, c.c.t2o)):
                o, cnt, hd = off, 0, 0
                if self.decide(cnot(ceq(bits(c.p['trig'], 0, 2, self.f, 8), 0))):
                    if not self.decide(cle(2, ln)):
                        return None
                    cnt = dec(m, o, 2, self.f)
                    o, ln = add(o, 2), sub(ln, 2)
                if self.truth(c.p['t2oRT']):
                    if not self.decide(cle(4, ln)):
                        return None
                    hd = dec(m, self.f.simp(norm(o, self.f)), 4, self.f)
                    o, ln = add(o, 4), sub(ln, 4)
                if self.decide(ceq(bits(c.p['t2oP'], *((25, 1) if c.large else (9, 1)), self.f), 0)):
                    if not self.decide(ceq(ln, bits(c.p['t2oP'], 0, 16 if c.large else 9, self.f))):
                        return None
                prev = c.last_recv
                c.last_recv = T
                return c, hd, cnt, (m, o, ln), sure, prev
        return None

    def truth(self, v):
        return self.decide(v if isinstance(v, (bool, Cond)) else i2b(v))

    def tick(self, c, T, saw='open'):
        """'timeout', 'send' or None; within the microsecond after the limit both are right"""
        c.ticked = True
        silence = sub(T, c.last_recv)
        limit = self.limit(c)
        if self.decide(clt(limit, silence)) and (saw == 'timeout' or self.decide(cle(add(limit, 1000), silence))):
            return 'timeout'
        c.timer = add(c.timer, sub(T, c.last_handle))
        c.last_handle = T
        if self.decide(cle(scale(c.c.oapi, 1000), c.timer)):
            c.timer = 0
            return 'send'
        return None

    def limit(self, c):
        m = c.p['mult']
        for k in range(8):
            if self.decide(ceq(m, k)):
                return scale(c.c.tapi, (4 << k) * 1000)
        raise Contra()

    def datagram(self, c, data):
        """the datagrams allowed now (sequence numbers after a suppressed one may or may not have advanced)"""
        f = self.f
        out = []
        body = [byt(1, 4, f)] if self.truth(c.p['o2tRT']) else []
        has = self.decide(cnot(ceq(bits(c.p['trig'], 0, 2, f, 8), 0)))
        for s in sorted(c.seqs):
            for n in sorted(c.cnts) if has else [0]:
                b = cat(*([byt((n + 1) & 0xffff, 2, f)] if has else []), *body, data)
                out.append((s + 1, n + 1, cat(byt(2, 2, f), byt(0x8002, 2, f), byt(8, 2, f), byt(c.c.o2t, 4, f), byt((s + 1) & 0xffffffff, 4, f), byt(0xb1, 2, f), byt(seqlen(b), 2, f), b)))
        return out

    # ---- replay
    def run(self):
        p = self.p
        self.ev = p.events
        self.pos = 0
        self.mgr = 0
        while self.pos < len(self.ev):
            e = self.next()
            if e[0] == 'op':
                self.op(e)
            elif e[0] == 'mark' and e[1] == 'leaving':
                break
        if p.kind != 'return' and p.decided:
            self.wrong('ends', CM, f'the program ends with {p.kind} {p.exc or p.o.why}')

    def next(self):
        self.pos += 1
        return self.ev[self.pos - 1]

    def op(self, e):
        _, op, a, b, T, depth = e
        if op == 'handle-held':
            op, a = 'handle', 0
        fn = {'open': self.do_open, 'large': self.do_open, 'open-bare': self.do_open, 'handle': self.do_handle, 'close': self.do_close, 'close-held': self.do_close, 'close-twice': self.do_close}.get(op)
        keep = self.mgr, self.pend, self.send
        self.mgr, self.pend, self.send = b, None, None
        if op == 'listen' and a in self.conns:
            self.conns[a].listening = True
        if op == 'mute' and a in self.conns:
            self.conns[a].listening = False
        if fn:
            r = fn(op, a, T, depth)
        else:
            r = self.plain(op, a, T, depth)
        self.mgr, self.pend, self.send = keep
        # r is the 'after' event
        if r is None:
            return
        outcome, h0, h1 = r[3:6]
        want = getattr(self, 'outcome', 0)
        self.outcome = 0
        if self.f.const(outcome) != want:
            names = {0: 'returns', 1: 'throws std::runtime_error', 2: 'throws std::system_error', 3: 'throws something else'}
            self.wrong('outcome', CM + f' ({op})', f'{op} {names.get(self.f.const(outcome), outcome)} but it {names[want]}')
        for m, h in ((0, h0), (1, h1)):
            w = any(c.open and c.mgr == m for c in self.conns.values())
            self.expect('registry', CM + ' (hasOpenConnections)', f'open connections reported after {op}', h, w)
        for i in range(3):
            c = self.conns.get(i)
            if c and c.open and not c.lost:
                self.expect('registry', CM, f'connection {i} is kept while open (expired) after {op}', r[6 + i], False)

    def plain(self, op, a, T, depth):
        while self.pos < len(self.ev):
            e = self.next()
            if e[0] == 'after' and e[1] == depth:
                if op == 'destroy':
                    for c in self.conns.values():
                        c.open = c.open and c.mgr != self.mgr
                return e
            if e[0] == 'setdata' and e[1] in self.conns:
                self.conns[e[1]].out = e[2]
            if e[0] in ('req', 'received', 'sending', 'closed') or e[0] == 'sys' and e[1] in ('sendto', 'send'):
                self.wrong('quiet', CM, f'{op} causes {e[0] if e[0] != "sys" else e[1]}')
            if e[0] == 'op':
                self.op(e)

    def do_open(self, op, a, T, depth):
        fd, c, req = None, None, None
        spec = None
        while self.pos < len(self.ev):
            e = self.next()
            if e[0] == 'after' and e[1] == depth:
                self.opened(op, a, T, fd, spec, req)
                return e
            if e[0] == 'req':
                if req is not None:
                    self.wrong('open', CM + ' (forwardOpen)', 'more than one request for one connection')
                req = e
            elif e[0] == 'sys' and e[1] == 'socket' and fd is None:
                fd = e[2]
            elif e[0] == 'opened':
                spec = e[2]
            elif e[0] in ('received', 'sending', 'closed') or e[0] == 'sys' and e[1] in ('sendto', 'send'):
                self.wrong('quiet', CM, f'opening causes {e[0] if e[0] != "sys" else e[1]}')

    def opened(self, op, a, T, fd, flag, req):
        c = [x for x in self.scenario_conns if x.i == a][0]
        if self.spec_refuse and self.spec_refuse(self, c, op == 'large'):
            # a value that does not fit its field
            self.outcome = 1
            if req is not None:
                self.wrong('open', CM + ' (forwardOpen)', 'a request is sent although a value does not fit its field')
            return
        good = self.decide(ceq(c.status, 0)) and c.reply is None
        if good:
            for o in self.conns.values():
                if o.open and o.mgr == self.mgr and self.decide(ceq(o.c.t2o, c.t2o)):
                    good = False
        if flag is not None:
            self.expect('open', CM + ' (forwardOpen)', 'connection handed out', flag, good)
        if self.spec_request:
            self.spec_request(self, c, op == 'large', req)
        if good:
            m = MC(c, T, fd, self.mgr)
            m.large = op == 'large'
            m.req = req
            m.listening = op != 'open-bare'
            m.ticked = True
            self.conns[a] = m
        elif a in self.conns:
            self.conns[a].lost = True   # the caller's handle was overwritten

    spec_request = None
    spec_refuse = None
    spec_close = None

    def do_close(self, op, a, T, depth):
        c = self.conns.get(a)
        reqs_ = []
        while self.pos < len(self.ev):
            e = self.next()
            if e[0] == 'after' and e[1] == depth:
                break
            if e[0] == 'req':
                reqs_.append(e)
            if e[0] in ('received', 'sending', 'closed') or e[0] == 'sys' and e[1] in ('sendto', 'send'):
                self.wrong('quiet', CM + ' (forwardClose)', f'closing a connection causes {e[0] if e[0] != "sys" else e[1]}')
        else:
            return None
        if c and c.open and not c.lost:
            if not reqs_:
                self.wrong('close', CM + ' (forwardClose)', 'the target is not asked to close the connection')
            if self.spec_close:
                for r in reqs_:
                    self.spec_close(self, c, r)
            c.open = False
            c.closed_by = 'caller'
        return e

    def do_handle(self, op, a, T, depth):
        for c in self.conns.values():
            c.ticked = False
        self.pend = None
        self.send = None
        phase_site = IO + ' (notifyReceiveData)'
        tick_site = IO + ' (notifyTick)'

        def finish():
            if self.pend is not None and self.pend != 'done':
                if self.pend[4]:
                    self.wrong('deliver', phase_site, 'data of an open connection does not reach its listener')
                self.pend[0].last_recv = self.pend[5]
            self.pend = None

        def sent():
            if self.send is not None:
                if self.send[1]:
                    self.wrong('produce', tick_site, 'data that is due is not sent')
                self.send = None
        Tn = T
        while self.pos < len(self.ev):
            e = self.next()
            if e[0] == 'op':
                keep = {i: c.ticked for i, c in self.conns.items()}
                self.op(e)
                for i, c in self.conns.items():
                    c.ticked = keep.get(i, True)
            elif e[0] == 'dgram':
                finish()
                Tn = e[2]
                self.pend = self.accept(e[1], Tn)
                if self.pend is not None and not self.pend[0].listening:
                    self.pend = None
            elif e[0] == 'blocked':
                self.wrong('receive', CM, 'data is received from a socket that is not readable')
            elif e[0] == 'received':
                i = e[1]
                if self.pend in (None, 'done'):
                    c = self.conns.get(i)
                    if self.pend == 'done':
                        self.wrong('deliver', phase_site, f'the receive listener is called twice for one datagram')
                    if c is None or not c.open:
                        self.wrong('stale', CM, f'connection {i}, which is not open, receives data')
                    self.wrong('drop', phase_site, f'data that has to be dropped reaches the listener of connection {i}')
                c = self.pend[0]
                if c.i != i:
                    self.wrong('route', CM, f'data for connection {c.i} reaches connection {i}')
                self.expect('deliver', phase_site, 'run/idle header', e[2], self.pend[1])
                self.expect('deliver', phase_site, 'sequence count', e[3], self.pend[2])
                self.expect('deliver', phase_site, 'data', e[4], cat(self.pend[3]))
                self.pend = 'done'
            elif e[0] == 'sending':
                finish()
                sent()
                Tn = e[3]
                c = self.conns.get(e[1])
                if c is None or not c.open:
                    self.wrong('stale', CM, f'the send listener of connection {e[1]}, which is not open, is called')
                if c.ticked:
                    self.wrong('produce', tick_site, f'the send listener of connection {e[1]} is called more than once')
                r = self.tick(c, Tn)
                if r == 'timeout':
                    self.wrong('watchdog', tick_site, f'connection {e[1]} produces data after its watchdog has expired')
                if r is None:
                    self.wrong('due', tick_site, f'connection {e[1]} produces data before its packet interval has elapsed')
                self.expect('produce', tick_site, 'output data offered to the send listener', e[2], c.out)
                if e[4] is not None:
                    c.out = e[4]
                self.send = (c, None)
                # nested operations run before the data is taken
                while self.pos < len(self.ev) and self.ev[self.pos][0] == 'op' and self.ev[self.pos][5] > depth:
                    keep = {i: z.ticked for i, z in self.conns.items()}
                    s = self.send
                    self.op(self.next())
                    self.send = s
                    for i, z in self.conns.items():
                        z.ticked = keep.get(i, True)
                self.prepare(c)
            elif e[0] == 'sys' and e[1] in ('sendto', 'send'):
                finish()
                if self.send is None:
                    c = [z for z in self.conns.values() if z.fd == e[2]]
                    c = c[-1] if c else None
                    if c is None or not c.open:
                        self.wrong('stale', CM, 'data is sent for a connection that is not open')
                    if c.listening:
                        self.wrong('produce', tick_site, 'data is sent without asking the send listener')
                    if c.ticked:
                        self.wrong('produce', tick_site, 'data is sent twice')
                    Tn = self.now_at(self.pos)
                    if Tn is None:
                        Tn = T
                    r = self.tick(c, Tn)
                    if r != 'send':
                        self.wrong('due' if r is None else 'watchdog', tick_site, 'data is sent when it is not due')
                    self.prepare(c)
                c, want = self.send
                if not want:
                    self.wrong('fixed', tick_site, 'data of another size is sent on a connection of fixed size')
                if e[2] != c.fd:
                    self.wrong('produce', tick_site, 'data is sent on a socket of another connection')
                hit = [w for w in want if val_same(e[3], w[2], self.f)]
                if hit:
                    self.ok()
                else:
                    self.expect('produce', tick_site, 'datagram', e[3], want[-1][2])
                    hit = want[-1:]
                c.seqs, c.cnts = {hit[0][0]}, {hit[0][1]}
                if self.spec_target:
                    self.spec_target(self, c, e)
                self.send = None
            elif e[0] == 'closed':
                finish()
                sent()
                Tn = e[2]
                c = self.conns.get(e[1])
                if c is None or not c.open:
                    self.wrong('stale', CM, f'the close listener of connection {e[1]} is called for a connection that is not open')
                r = self.tick(c, Tn, 'timeout') if not c.ticked else None
                if r != 'timeout':
                    self.wrong('watchdog', tick_site, f'connection {e[1]} is closed before its watchdog expires')
                c.open = False
                c.closed_by = 'timeout'
                self.ok()
            elif e[0] == 'after' and e[1] == depth:
                finish()
                sent()
                Tn = e[2]
                for c in list(self.conns.values()):
                    if c.open and not c.ticked and c.mgr == self.mgr:
                        r = self.tick(c, Tn)
                        if r == 'timeout':
                            if c.listening:
                                self.wrong('watchdog', tick_site, f'connection {c.i} stays open after its watchdog has expired')
                            c.open = False
                        elif r == 'send':
                            if c.listening:
                                self.wrong('produce', tick_site, f'connection {c.i} does not produce although its packet interval has elapsed')
                            self.prepare(c)
                            if self.send[1]:
                                self.wrong('produce', tick_site, f'connection {c.i} does not send although its packet interval has elapsed')
                            self.send = None
                        else:
                            self.ok()
                return e

    spec_target = None

    def now_at(self, pos):
        for e in reversed(self.ev[:pos]):
            if e[0] == 'sys' and e[1] == 'now':
                return e[2]

    def prepare(self, c):
        """what is to be sent for c"""
        if c.open is False:
            # closed by its own send listener: sending or not is both fine
            self.send = None
            return
        fixed = self.decide(ceq(bits(c.p['o2tP'], *((25, 1) if c.large else (9, 1)), self.f), 0))
        n = seqlen(c.out)
        want = self.datagram(c, c.out)
        if fixed and not self.decide(ceq(n, bits(c.p['o2tP'], 0, 16 if c.large else 9, self.f))):
            c.seqs |= {w[0] for w in want}
            c.cnts |= {w[1] for w in want}
            want = []
        self.send = (c, want)


def judge(cx, ps, conns, rules=None, request=None, close=None, target=None, skip=None, refuse=None):
    for p in ps:
        if not p.decided:
            continue
        if skip and skip(p):
            continue
        todo = [[]]
        n = 0
        while todo and n < 400:
            ch = todo.pop()
            n += 1
            M = Model(cx, p, ch, rules)
            M.scenario_conns = conns
            M.spec_request, M.spec_close, M.spec_target, M.spec_refuse = request, close, target, refuse
            try:
                M.run()
            except Need:
                todo += [ch + [True], ch + [False]]
            except Contra:
                pass
