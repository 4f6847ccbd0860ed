"""Models of the operating-system interface and of the probe intrinsics."""
from .values import *
from .interp import CxxThrow, Undecided, PathEnd
from .stdmodel import range_segs, mem_copy, seqlit, cstr, bare

X = {}
E_INTR, E_AGAIN, E_INPROGRESS, E_TIMEDOUT = 4, 11, 115, 110


def x(*names):
    def d(f):
        for n in names:
            X[n] = f
        return f
    return d


class OS:
    """per-path state of the operating system"""

    def __init__(self):
        self.n = {}
        self.next = 3
        self.open = {}
        self.closed = []
        self.errno = None
        self.sets = {}
        self.clock = None
        self.state = {}


def os_of(I):
    o = I.env.get('os')
    if o is None:
        o = I.env['os'] = OS()
        o.errno = I.new_cell(None, 0, 'errno')
    return o


def count(I, name):
    o = os_of(I)
    o.n[name] = o.n.get(name, 0) + 1
    return o.n[name]


def fails(I, name, args=()):
    """does this call fail on this path?  A failing call sets errno to an arbitrary error number."""
    k = count(I, name)
    h = I.oscfg.get('fail')
    r = h(I, name, k, args) if h else False
    if r is False or r is None:
        return False
    e = None
    if isinstance(r, (int, Lin)) and r is not True:
        e = r
    elif r != 'always' and r is not True:
        if I.choose(2) == 0:
            return False
    if e is None:
        e = sym(f'errno:{name}#{k}', 1, 133)
    os_of(I).errno.v = e
    I.events.append(('fail', name, k, e))
    return True


def ev(I, name, *a):
    I.events.append(('sys', name) + a)


@x('__errno_location')
def f(I, ref, this, a, node):
    c = os_of(I).errno
    c.T = ref.r.to
    return Ptr(c, ref.r)


@x('__assert_fail')
def f(I, ref, this, a, node):
    I.fail('assert', 'assertion failed')


@x('socket')
def f(I, ref, this, a, node):
    dom, typ, proto = (I.rd(v) for v in a)
    if fails(I, 'socket'):
        return -1
    o = os_of(I)
    mk = I.oscfg.get('fd')
    fd = mk(I, o.next) if mk else o.next
    o.next += 1
    o.open[fd] = typ
    ev(I, 'socket', fd, dom, typ)
    return fd


def addr_of(I, p):
    p = I.val(p)
    l = p.loc if isinstance(p, Ptr) else None
    if l is None:
        return None
    l = I.lv(l) if isinstance(l, Cell) else l
    if not isinstance(l, Obj):
        raise Undecided('socket address')
    return l


def addr_val(I, o):
    """(family, port in network order, address in network order)"""
    if o is None:
        return None
    fam = port = ad = None
    for k, c in o.f.items():
        n = k.rsplit('.', 1)[-1]
        if n == 'sin_family':
            fam = I.rd(c)
        elif n == 'sin_port':
            port = I.rd(c)
        elif n == 'sin_addr':
            ad = I.rd(list(c.v.f.values())[0])
    return fam, port, ad


def addr_cells(o):
    r = {}
    for k, c in o.f.items():
        n = k.rsplit('.', 1)[-1]
        if n == 'sin_addr':
            r['s_addr'] = list(c.v.f.values())[0]
        else:
            r[n] = c
    return r


def own_fd(I, name, fd):
    """a call must not be given a descriptor that was closed or never opened"""
    o = os_of(I)
    c = I.facts.const(fd)
    fd = fd if c is None else c
    if fd in o.open:
        return fd
    ev(I, 'badfd', name, fd)
    return fd


@x('bind', 'connect')
def f(I, ref, this, a, node):
    fd = own_fd(I, ref.n, I.rd(a[0]))
    ad = addr_val(I, addr_of(I, a[1]))
    r = fails(I, ref.n, (fd, ad))
    ev(I, ref.n, fd, ad, -1 if r else 0)
    return -1 if r else 0


@x('close')
def f(I, ref, this, a, node):
    fd = I.rd(a[0])
    o = os_of(I)
    c = I.facts.const(fd)
    fd = fd if c is None else c
    ok = fd in o.open
    if ok:
        del o.open[fd]
    o.closed.append(fd)
    ev(I, 'close', fd, ok)
    if ok and fails(I, 'close'):
        return -1
    return 0 if ok else -1


@x('shutdown')
def f(I, ref, this, a, node):
    fd = I.rd(a[0])
    c = I.facts.const(fd)
    fd = fd if c is None else c
    ev(I, 'shutdown', fd, fd in os_of(I).open)
    return -1 if fails(I, 'shutdown') else 0


def data_arg(I, p, n):
    if I.facts.decide(ceq(n, 0)) is True:
        return Seq()
    p = I.val(p)
    if not isinstance(p, Ptr) or p.loc is None:
        raise Undecided('buffer argument')
    return seq_norm([s if s[0] != 'e' else ('e', wrap(s[1], 8, False, I.facts) if isinstance(s[1], (int, Lin)) else s[1])
                     for s in range_segs(I, p, I.ptr_elem(p, n))], I.facts)


def to_u8(I, q):
    out = []
    for s in q.segs:
        if s[0] == 'e' and isinstance(s[1], (int, Lin)):
            out.append(('e', wrap(s[1], 8, False, I.facts)))
        elif s[0] == 's' and isinstance(s[1], Arr) and s[1].lo < 0:
            out.append(s)
        else:
            out.append(s)
    return Seq(out)


@x('send', 'sendto')
def f(I, ref, this, a, node):
    fd = own_fd(I, ref.n, I.rd(a[0]))
    n = I.rd(a[2])
    data = data_arg(I, a[1], n)
    flags = I.rd(a[3])
    ad = addr_val(I, addr_of(I, a[4])) if ref.n == 'sendto' else None
    if fails(I, ref.n, (fd, data, ad)):
        ev(I, ref.n, fd, data, ad, flags, -1)
        return -1
    k = count(I, 'sent')
    if I.oscfg.get('short_send') and I.facts.decide(ceq(n, 0)) is not True and I.choose(2) == 1:
        s = sym(f'sent#{k}', 0, 2 ** 31 - 1)
        I.assume(clt(s, n))
        os_of(I).errno.v = 0
        I.events.append(('fail', 'short ' + ref.n, k, 0))
        ev(I, ref.n, fd, data, ad, flags, s)
        return s
    ev(I, ref.n, fd, data, ad, flags, n)
    return n


@x('recv', 'recvfrom')
def f(I, ref, this, a, node):
    fd = own_fd(I, ref.n, I.rd(a[0]))
    p = I.val(a[1])
    n = I.rd(a[2])
    k = os_of(I).n.get(ref.n, 0) + 1
    if fails(I, ref.n, (fd,)):
        ev(I, ref.n, fd, n, -1)
        return -1
    h = I.oscfg.get('incoming')
    got = h(I, ref.n, fd, n, k) if h else None
    if got is None:
        got = (Seq(), None)
        ln = sym(f'recvlen#{k}', 0, 65507)
        I.assume(cle(ln, n))
        if ref.n == 'recv' and I.facts.decide(ceq(ln, 0)) is None and I.choose(2) == 1:
            I.assume(ceq(ln, 0))
        elif ref.n == 'recv':
            I.assume(clt(0, ln))
        ar = arr(f'received#{k}', 0, 255, 65507)
        got = (seq_norm([('s', ar, 0, ln)], I.facts), None)
    elif isinstance(got, int):
        os_of(I).errno.v = got
        I.events.append(('fail', ref.n, k, got))
        ev(I, ref.n, fd, n, -1)
        return -1
    q, frm = got
    ln = seqlen(q)
    if ref.n == 'recvfrom' and I.facts.decide(cle(ln, n)) is not True:
        # longer datagrams are cut to the buffer
        if I.branch(cle(ln, n)):
            pass
        else:
            q = Seq(I.seq_split(q.segs, n)[0])
            ln = n
    if I.facts.decide(ceq(ln, 0)) is not True:
        src = I.new_cell(None, q)
        l = p.loc
        if not isinstance(l, ElemLoc):
            raise Undecided('receive buffer')
        cur = seqlen(I.seq_of(l.c))
        I.oblige('bounds', cand(cle(0, l.i), cle(add(l.i, n), cur)), lambda: f'receive of {n!r} bytes at {l.i!r} into a buffer of {cur!r}')
        I.store(l.c, I.seq_replace(I.seq_of(l.c), l.i, ln, list(q.segs)))
    else:
        l = p.loc
        if l is not None and isinstance(l, ElemLoc):
            cur = seqlen(I.seq_of(l.c))
            I.oblige('bounds', cand(cle(0, l.i), cle(add(l.i, n), cur)), lambda: f'receive of {n!r} bytes at {l.i!r} into a buffer of {cur!r}')
    if ref.n == 'recvfrom':
        o = addr_of(I, a[4])
        if o is not None:
            c = addr_cells(o)
            vals = frm or (2, sym(f'from.port#{k}', 0, 65535), sym(f'from.addr#{k}', 0, 2 ** 32 - 1))
            c['sin_family'].v, c['sin_port'].v, c['s_addr'].v = vals
            for z, cell in c.items():
                if z == 'sin_zero' and cell.v is not UNINIT:
                    cell.v = I.seq_fill(cell.T.to, cell.T.n, True)
    ev(I, ref.n, fd, n, ln)
    return ln


@x('setsockopt')
def f(I, ref, this, a, node):
    fd = own_fd(I, 'setsockopt', I.rd(a[0]))
    lev, opt = I.rd(a[1]), I.rd(a[2])
    p = I.val(a[3])
    v = None
    l = p.loc if isinstance(p, Ptr) else None
    if isinstance(l, ByteLoc):
        v = I.rd(l.l)
    elif isinstance(l, Cell) and isinstance(l.v, Obj) or isinstance(l, Obj):
        o = I.lv(l)
        v = tuple(I.rd(c) for c in o.f.values())
    r = fails(I, 'setsockopt', (fd, lev, opt))
    ev(I, 'setsockopt', fd, lev, opt, v, -1 if r else 0)
    return -1 if r else 0


@x('getsockopt')
def f(I, ref, this, a, node):
    fd = own_fd(I, 'getsockopt', I.rd(a[0]))
    if fails(I, 'getsockopt', (fd,)):
        ev(I, 'getsockopt', fd, -1)
        return -1
    p = I.val(a[3])
    l = p.loc
    if isinstance(l, ByteLoc):
        l = l.l
    k = os_of(I).n['getsockopt']
    h = I.oscfg.get('so_error')
    v = h(I, k) if h else sym(f'so_error#{k}', 0, 133)
    if v is None:
        v = sym(f'so_error#{k}', 0, 133)
    I.store(l, v)
    ev(I, 'getsockopt', fd, v)
    return 0


@x('fcntl', 'ioctl')
def f(I, ref, this, a, node):
    fd = own_fd(I, ref.n, I.rd(a[0]))
    cmd = I.rd(a[1])
    arg = I.val(a[2]) if len(a) > 2 else 0
    if fails(I, ref.n, (fd, cmd)):
        ev(I, ref.n, fd, cmd, arg, -1)
        return -1
    o = os_of(I)
    if cmd == 3:
        v = o.state.get(('fl', fd))
        if v is None:
            v = o.state[('fl', fd)] = sym(f'flags:{fd}', 0, 2 ** 20 - 1)
        ev(I, ref.n, fd, cmd, arg, v)
        return v
    if cmd == 4:
        o.state[('fl', fd)] = I.rd(arg)
    ev(I, ref.n, fd, cmd, arg, 0)
    return 0


# ---- descriptor sets
def set_of(I, p):
    p = I.val(p)
    if not isinstance(p, Ptr) or p.loc is None:
        return None, None
    o = I.lv(p.loc) if isinstance(p.loc, Cell) else p.loc
    return o, os_of(I).sets


@x('eip_fd_zero')
def f(I, ref, this, a, node):
    o, s = set_of(I, a[0])
    s[id(o)] = (o, [])


@x('eip_fd_set')
def f(I, ref, this, a, node):
    fd = I.rd(a[0])
    o, s = set_of(I, a[1])
    I.oblige('fdset', cand(cle(0, fd), clt(fd, 1024)), lambda: f'FD_SET of descriptor {fd!r}, a set holds 0..1023')
    if id(o) not in s:
        I.uninit_read('fd_set')
        s[id(o)] = (o, [])
    if fd not in s[id(o)][1]:
        s[id(o)][1].append(fd)


@x('eip_fd_clr')
def f(I, ref, this, a, node):
    fd = I.rd(a[0])
    o, s = set_of(I, a[1])
    if fd in s.get(id(o), (o, []))[1]:
        s[id(o)][1].remove(fd)


@x('eip_fd_isset')
def f(I, ref, this, a, node):
    fd = I.rd(a[0])
    o, s = set_of(I, a[1])
    I.oblige('fdset', cand(cle(0, fd), clt(fd, 1024)), lambda: f'FD_ISSET of descriptor {fd!r}')
    l = s.get(id(o), (o, []))[1]
    r = False
    for z in l:
        r = cor(r, ceq(z, fd))
    return b2i(r) if isinstance(r, Cond) else int(r)


def timeval_us(I, p):
    p = I.val(p)
    if not isinstance(p, Ptr) or p.loc is None:
        return None
    o = I.lv(p.loc) if isinstance(p.loc, Cell) else p.loc
    s = us = 0
    for k, c in o.f.items():
        if k.endswith('tv_sec'):
            s = I.rd(c)
        elif k.endswith('tv_usec'):
            us = I.rd(c)
    return add(scale(s, 1000000), us)


@x('select')
def f(I, ref, this, a, node):
    nfds = I.rd(a[0])
    k = os_of(I).n.get('select', 0) + 1
    sets = []
    for z in a[1:4]:
        v = I.val(z)
        if isinstance(v, Ptr) and v.loc is not None:
            o, s = set_of(I, v)
            sets.append((o, s, list(s.get(id(o), (o, []))[1])))
        else:
            sets.append(None)
    tmo = timeval_us(I, a[4])
    watched = tuple(tuple(z[2]) if z else () for z in sets)
    if fails(I, 'select', watched):
        ev(I, 'select', nfds, watched, tmo, -1)
        return -1
    allfds = [(i, fd) for i, z in enumerate(sets) if z for fd in z[2]]
    for i, fd in allfds:
        if I.facts.decide(clt(fd, nfds)) is False:
            ev(I, 'select-miss', fd, nfds)
    h = I.oscfg.get('ready')
    sel = h(I, k, allfds, tmo) if h else None
    if sel is None:
        # any subset may be ready
        sel = [z for z in allfds if I.choose(2) == 0]
    for i, z in enumerate(sets):
        if z:
            z[1][id(z[0])] = (z[0], [fd for j, fd in sel if j == i])
    ev(I, 'select', nfds, watched, tmo, tuple(sel))
    return len(sel)


# ---- addresses
def ntoa_host(I, ad):
    c = I.facts.const(ad)
    if c is None:
        if I.branch(ceq(ad, 0)):
            c = 0
    if c is not None:
        return seqlit('.'.join(str((c >> (8 * i)) & 255) for i in range(4)))
    ar = arr(('ntoa', ad), 46, 57, 15)
    I.assume(cle(7, length(ar)))
    q = Seq([('s', ar, 0, length(ar))])
    I.assume(cnot(I.std.seq_eq(I, q, seqlit('0.0.0.0'))))
    return q


@x('inet_ntoa')
def f(I, ref, this, a, node):
    o = I.val(a[0])
    ad = I.rd(list(o.f.values())[0])
    q = ntoa_host(I, ad)
    from .stdmodel import SeqT, CHAR
    T = SeqT(CHAR)
    T.q = 'std::basic_string'
    c = I.new_cell(T, seq_norm(list(q.segs) + [('e', 0)], I.facts), 'inet_ntoa')
    return Ptr(ElemLoc(I, c, 0), ref.r)


def parse_ip(s):
    import re
    m = re.fullmatch(r'(\d+)\.(\d+)\.(\d+)\.(\d+)', s)
    if not m or any(int(z) > 255 for z in m.groups()):
        return None
    return sum(int(z) << (8 * i) for i, z in enumerate(m.groups()))


def aton(I, q):
    """(converted?, address) of a host string"""
    if all(s[0] == 'e' and isinstance(s[1], int) for s in q.segs):
        v = parse_ip(''.join(chr(s[1] & 255) for s in q.segs))
        return v is not None, v
    if len(q.segs) == 1 and q.segs[0][0] == 's' and isinstance(q.segs[0][1].name, tuple) and q.segs[0][1].name[0] == 'ntoa':
        return True, q.segs[0][1].name[1]
    return pred('aton', q.segs), A(atom('opaque', ('aton', q.segs), 0, 2 ** 32 - 1))


@x('inet_aton')
def f(I, ref, this, a, node):
    q = cstr(I, I.val(a[0]))
    o = I.val(a[1]).loc
    o = I.lv(o) if isinstance(o, Cell) else o
    ok, v = aton(I, q)
    if I.truth(ok):
        I.store(list(o.f.values())[0], v)
        return 1
    return 0


def now(I, ref, this, a, node):
    o = os_of(I)
    k = count(I, 'now')
    h = I.oscfg.get('now')
    t = h(I, k) if h else None
    if t is None:
        t = sym(f'now#{k}', 0, 2 ** 62)
    if o.clock is not None:
        I.assume(cle(o.clock, t))
    o.clock = t
    ev(I, 'now', t)
    return Dur(t)


for _c in ('steady_clock', 'system_clock', '_V2::steady_clock', '_V2::system_clock'):
    X[f'std::chrono::{_c}::now'] = now


# ---------------------------------------------------------------- probe intrinsics
def cname(I, v):
    q = cstr(I, I.val(v))
    return ''.join(chr(s[1] & 255) for s in q.segs)


def scalar(T=None):
    def f(I, ref, this, a, node):
        n = cname(I, a[0])
        return I.symbolic(n, ref.r)
    return f


for _n in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'f32', 'f64', 'int'):
    X['eip_' + _n] = scalar()


@x('eip_bytes')
def f(I, ref, this, a, node):
    n = cname(I, a[0])
    mx = I.facts.const(I.rd(a[1])) if len(a) > 1 else None
    ar = arr('in:' + n, 0, 255, mx or 2 ** 20)
    return Seq([('s', ar, 0, length(ar))])


@x('eip_bytes_n')
def f(I, ref, this, a, node):
    n = cname(I, a[0])
    k = I.rd(a[1])
    ar = arr('fix:' + n, 0, 255, 2 ** 20)
    return seq_norm([('s', ar, 0, k)], I.facts)


@x('eip_words')
def f(I, ref, this, a, node):
    n = cname(I, a[0])
    ar = arr('in16:' + n, 0, 65535, 2 ** 20)
    return Seq([('s', ar, 0, length(ar))])


@x('eip_words_n')
def f(I, ref, this, a, node):
    n = cname(I, a[0])
    ar = arr('fix16:' + n, 0, 65535, 2 ** 20)
    return seq_norm([('s', ar, 0, I.rd(a[1]))], I.facts)


@x('eip_string')
def f(I, ref, this, a, node):
    n = cname(I, a[0])
    mx = I.facts.const(I.rd(a[1])) if len(a) > 1 else None
    ar = arr('str:' + n, -128, 127, mx or 2 ** 20)
    return Seq([('s', ar, 0, length(ar))])


@x('eip_assume')
def f(I, ref, this, a, node):
    v = I.rd(a[0])
    I.assume(v if isinstance(v, (bool, Cond)) else i2b(v))


@x('eip_choose')
def f(I, ref, this, a, node):
    n = I.facts.const(I.rd(a[0]))
    c = I.choose(n)
    I.events.append(('choice', c))
    return c


def snapshot(I, v):
    """immutable picture of a value"""
    v = I.val(v)
    if isinstance(v, Obj):
        d = {}
        for k, c in v.f.items():
            x_ = c.v
            d[k.rsplit('.', 1)[-1]] = snapshot(I, x_.loc if isinstance(x_, RefV) else x_) if not isinstance(x_, (SP, UP, WP, Ptr, Fun)) else x_
        return (v.rec, d)
    if isinstance(v, Seq):
        return Seq([(s[0], snapshot(I, s[1])) if s[0] == 'e' and isinstance(s[1], (Cell, Obj)) else s for s in v.segs])
    if isinstance(v, Cell):
        return snapshot(I, v.v)
    return v


@x('eip_out')
def f(I, ref, this, a, node):
    I.events.append(('out', cname(I, a[0]), snapshot(I, a[1])))


@x('eip_mark')
def f(I, ref, this, a, node):
    I.events.append(('mark', cname(I, a[0])))


@x('eip_callback')
def f(I, ref, this, a, node):
    """a user callback (any signature)"""
    return Fun(SymFn(cname(I, a[0])))


@x('eip_hook')
def f(I, ref, this, a, node):
    """hand control to the check's environment"""
    h = I.env.get('hook') or I.oscfg.get('hook')
    if h is None:
        raise Undecided('hook')
    return h(I, cname(I, a[0]), a[1:], ref)


def install(I):
    I.ext.update(X)
    if not hasattr(I, 'oscfg'):
        I.oscfg = {}
