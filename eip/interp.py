"""Abstract interpreter over the extracted syntax tree (path-partitioned; see DESIGN.md section 2)."""
import time
import sys
from .values import *
from .program import Broken, relfile

sys.setrecursionlimit(60000)
import os
import threading
threading.stack_size(1 << 29)
DEBUG = bool(os.environ.get('EIP_DEBUG'))


class CxxThrow(Exception):
    def __init__(self, tn, val):
        self.tn, self.val = tn, val


class Undecided(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, why=''):
        self.kind, self.why = kind, why


class Infeasible(Exception):
    pass


class Restart(Exception):
    """the invariant candidates of a loop changed: redo everything under this choice prefix"""

    def __init__(self, prefix):
        self.prefix = prefix


STD_BASES = {
    'std::exception': [], 'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
    'std::system_error': ['std::runtime_error'], 'std::out_of_range': ['std::logic_error'],
    'std::length_error': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'],
    'std::domain_error': ['std::logic_error'], 'std::range_error': ['std::runtime_error'],
    'std::overflow_error': ['std::runtime_error'], 'std::underflow_error': ['std::runtime_error'],
    'std::bad_alloc': ['std::exception'], 'std::bad_array_new_length': ['std::bad_alloc'],
    'std::bad_function_call': ['std::exception'], 'std::bad_weak_ptr': ['std::exception'],
    'std::bad_cast': ['std::exception'], 'std::bad_optional_access': ['std::exception'],
    'std::ios_base::failure': ['std::system_error'], 'std::bad_variant_access': ['std::exception'],
}


class Frame:
    __slots__ = ('fn', 'loc', 'this', 'caps', 'temps', 'scope', 'line', 'file')

    def __init__(self, fn, this=None, caps=None):
        self.fn, self.this, self.caps = fn, this, caps
        self.loc = {}
        self.temps = []
        self.scope = None
        self.line = 0
        self.file = fn.get('file', '') if fn else ''


class Outcome:
    """one class of executions: exit kind, result, path facts, event trace, obligations"""
    __slots__ = ('kind', 'val', 'exc', 'facts', 'events', 'why', 'trace', 'choices', 'I', 'obls', 'site', 'gen')


class Obl:
    __slots__ = ('kind', 'site', 'msg', 'status', 'facts', 'cond', 'trace')


# an answer is due within 900 s: what is not explored by then is reported as undecided
DEADLINE = time.time() + float(os.environ.get('EIP_BUDGET') or (700 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3000))


class Interp:
    MAXSTEPS = 400000
    MAXPATHS = 6000
    MAXTIME = 150
    UNROLL = 3
    HARD = 4000

    def __init__(self, P, seed=0):
        self.P = P
        self.ext = {}
        self.override = {}
        self.std = None
        self.fn_seen = set()
        self.calls_seen = set()
        self.std_seen = set()
        self.obl_count = {}
        self.nread = 0
        self.unknowns = {}
        self.log_noop = True
        self.on_log = None           # called when a message is written
        self.loopinv = {}
        self.generic_loops = False
        self.seeded = seed
        self.setup = None
        self._disp = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith('e_')}
        self._sdisp = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith('s_')}
        from . import stdmodel, sysmodel
        stdmodel.install(self)
        sysmodel.install(self)

    # ------------------------------------------------------------ path exploration
    def reset(self):
        self.ncell = 0
        self.facts = Facts()
        self.events = []
        self.heap = []
        self.partial = {}
        self.frames = []
        self.hold = []
        self.globals = {}
        self.strs = {}
        self.obls = []
        self.steps = 0
        self.pos = 0
        self.dropped = False
        self.fresh_n = {}
        self.env = {}
        self.nogen = 0
        self.gen = False
        self.pathline = []
        self.writes = None

    def explore(self, entry, maxpaths=None):
        """all abstract paths of entry(I) -> list of Outcome"""
        maxpaths = maxpaths or self.MAXPATHS
        outs = []
        prefix = []
        self.loopinv = {}
        restarts = 0
        t_end = min(time.time() + self.MAXTIME, DEADLINE)
        while True:
            if time.time() > DEADLINE:
                outs.append(self.unexplored('time budget'))
                break
            self.reset()
            self.choices = list(prefix)
            self.limits = []
            self.made = []
            o = Outcome()
            o.kind, o.val, o.exc, o.why, o.site = 'return', None, None, '', None
            try:
                try:
                    o.val = entry(self)
                except CxxThrow as e:
                    o.kind, o.exc, o.val = 'throw', e.tn, e.val
                    o.site = getattr(e, 'site', None)
                except RecursionError:
                    raise Undecided('recursion too deep')
                except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
                    if DEBUG:
                        raise
                    tb = e.__traceback__
                    while tb.tb_next:
                        tb = tb.tb_next
                    raise Undecided(f'internal: {type(e).__name__} {str(e)[:80]} at {tb.tb_frame.f_code.co_name}:{tb.tb_lineno}')
            except Infeasible:
                o.kind = 'infeasible'
            except Undecided as e:
                o.kind, o.why = 'undecided', str(e)
                o.site = getattr(e, 'site', None) or self.where()
                self.unknowns[o.why] = self.unknowns.get(o.why, 0) + 1
            except PathEnd as e:
                o.kind, o.why = e.kind, e.why
                o.site = getattr(e, 'site', None) or self.where()
            except Restart as r:
                restarts += 1
                if restarts > 400:
                    raise Broken('loop analysis does not converge')
                n = len(r.prefix)
                outs = [x for x in outs if x.choices[:n] != r.prefix]
                prefix = list(r.prefix)
                continue
            o.facts, o.events, o.choices, o.I = self.facts, self.events, [c for c, _ in self.made], self
            o.obls, o.trace = self.obls, list(self.pathline)
            o.gen = self.gen
            if o.kind != 'infeasible':
                outs.append(o)
            # next prefix
            m = self.made
            while m and m[-1][0] + 1 >= m[-1][1]:
                m.pop()
            if not m:
                break
            prefix = [c for c, _ in m[:-1]] + [m[-1][0] + 1]
            if len(outs) >= maxpaths or time.time() > t_end:
                outs.append(self.unexplored('path limit'))
                break
        return outs

    def unexplored(self, why):
        """the outcome that stands for all paths not followed"""
        o = Outcome()
        o.kind, o.why, o.val, o.exc, o.site = 'undecided', why, None, None, None
        o.facts, o.events, o.choices, o.I, o.obls, o.trace, o.gen = Facts(), [], [], self, [], [], False
        self.unknowns[why] = self.unknowns.get(why, 0) + 1
        return o

    def choose(self, n, tag=''):
        if n == 1:
            return 0
        i = len(self.made)
        c = self.choices[i] if i < len(self.choices) else 0
        self.made.append((c, n))
        if len(self.made) > 400:
            raise Undecided('too many choices on one path')
        return c

    def branch(self, c):
        d = self.facts.decide(c)
        if d is not None:
            return d
        r = self.choose(2) == 0
        self.assume(c if r else cnot(c))
        if self.frames:
            self.pathline.append((self.frames[-1].file, self.frames[-1].line, r))
        return r

    def assume(self, c):
        if not self.facts.assume(c):
            raise Infeasible()

    def truth(self, v):
        """branch on a C++ boolean value"""
        if v is True or v is False:
            return v
        if isinstance(v, Cond):
            return self.branch(v)
        if isinstance(v, (int, Lin)):
            return self.branch(i2b(v))
        raise Undecided(f'condition of kind {type(v).__name__}')

    def where(self):
        for fr in reversed(self.frames):
            if fr.file:
                return f'{relfile(fr.file)}:{fr.line}'
        return '?'

    def where_repo(self):
        for fr in reversed(self.frames):
            if fr.file and '/probes/' not in fr.file:
                return f'{relfile(fr.file)}:{fr.line} ({fr.fn.get("q", "")})'
        return self.where()

    def callstack(self):
        return [f'{relfile(fr.file)}:{fr.line} {fr.fn.get("q", "")}' for fr in self.frames]

    def oblige(self, kind, cond, msg=''):
        """the code must guarantee cond here"""
        site = self.where_repo()
        self.obl_count[(kind, site)] = self.obl_count.get((kind, site), 0) + 1
        d = self.facts.decide(cond)
        if d is True:
            return
        if callable(msg):
            msg = msg()
        o = Obl()
        o.kind, o.site, o.msg, o.cond = kind, site, msg, cond
        o.facts = list(self.facts.all)
        o.status = 'fails' if d is False else 'open'
        o.trace = self.callstack()
        self.obls.append(o)
        if d is False:
            raise PathEnd('ub', f'{kind}: {msg}')
        if not self.facts.assume(cond):
            raise PathEnd('ub', f'{kind}: {msg}')

    def fail(self, kind, msg=''):
        self.oblige(kind, False, msg)

    def fresh(self, name, T):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return self.symbolic(f'{name}#{n}' if n else name, T)

    def symbolic(self, name, T):
        k = T.k
        if k in ('int', 'enum'):
            lo, hi = self.trange(T)
            return sym(name, lo, hi)
        if k == 'bool':
            return pred('sym', name)
        if k == 'float':
            return F('sym', name, T.w)
        raise Undecided(f'no symbolic value of type {T.s}')

    @staticmethod
    def trange(T):
        if T.k == 'bool':
            return 0, 1
        return (-(1 << (T.w - 1)), (1 << (T.w - 1)) - 1) if T.sg else (0, (1 << T.w) - 1)

    # ------------------------------------------------------------ memory
    def is_scalar(self, T):
        return T.k in ('int', 'enum', 'bool', 'float', 'ptr', 'nullptr', 'lref', 'rref', 'mptr')

    def elem_type(self, T):
        if T.k == 'arr':
            return T.to
        if T.ta:
            return T.ta[0]
        if T.k in ('lref', 'rref'):
            return self.elem_type(T.to)
        raise Undecided(f'element type of {T.s}')

    def lv(self, c):
        """normalise a location: class objects are their own location"""
        if isinstance(c, Cell):
            v = c.v
            if isinstance(v, Obj):
                return v
            if isinstance(v, RefV):
                return v.loc
        return c

    def load(self, loc):
        if isinstance(loc, Obj):
            if loc.dead:
                self.fail('use-after-free', f'{loc.rec} used after its destruction')
            return loc
        if isinstance(loc, Loc):
            if loc.dead:
                self.fail('use-after-free', 'access to an object whose lifetime has ended')
            v = loc.get()
            if isinstance(v, RefV):
                return self.load(v.loc)
            return v
        return loc

    def val(self, x):
        """value of an evaluated expression (location or value)"""
        if isinstance(x, Loc):
            v = self.load(x)
            if v.__class__ is Dur and v.n is UNINIT:
                self.uninit_read(getattr(x, 'name', ''))
                v = Dur(0)
            return v
        return x

    def rd(self, x, T=None):
        """read for use: uninitialised scalars are reported"""
        v = self.val(x)
        self.nread += 1
        if v is UNINIT:
            nm = x.name if isinstance(x, Cell) else ''
            if not nm and isinstance(x, ElemLoc) and isinstance(x.c, Cell):
                nm = x.c.name
            self.uninit_read(nm)
            T = T or getattr(x, 'T', None)
            if T is None:
                raise Undecided('uninitialised value of unknown type')
            v = self.fresh('uninit:' + (nm or '?'), T)
            if hasattr(x, 'set'):
                x.set(v)
        return v

    def uninit_read(self, nm):
        site = self.where_repo()
        self.obl_count[('uninit', site)] = self.obl_count.get(('uninit', site), 0) + 1
        o = Obl()
        o.kind, o.site, o.msg, o.cond = 'uninit', site, f'{nm or "a variable"} is read before it is given a value', False
        o.facts, o.status, o.trace = list(self.facts.all), 'fails', self.callstack()
        self.obls.append(o)

    def store(self, loc, v):
        if isinstance(loc, Obj):
            raise Undecided(f'whole-object store to {loc.rec}')
        if not hasattr(loc, 'set'):
            raise Undecided(f'store to {type(loc).__name__}')
        if loc.dead:
            self.fail('use-after-free', 'store to an object whose lifetime has ended')
        if isinstance(loc, Cell) and isinstance(loc.v, RefV):
            return self.store(loc.v.loc, v)
        if self.writes is not None:
            self.note_write(loc)
        loc.set(v)

    def note_write(self, loc):
        while isinstance(loc, (View, ByteLoc)):
            loc = loc.l
        if isinstance(loc, ElemLoc):
            loc = loc.c
        for w in self.loopstack:
            w.add(loc)

    def new_cell(self, T, v=UNINIT, name=''):
        return Cell(self, T, v, name)

    def seq_of(self, loc):
        v = self.val(loc)
        if isinstance(v, Seq):
            return v
        raise Undecided(f'sequence expected, got {type(v).__name__}')

    def seq_get(self, c, i):
        q = self.seq_of(c)
        n = seqlen(q)
        self.oblige('bounds', cand(cle(0, i), clt(i, n)), lambda: f'index {i!r} of a sequence of {n!r} elements')
        return self.seq_at(q, i, c)

    def seq_at(self, q, i, c=None):
        i = facts_idx(i, self.facts)
        if isinstance(i, int):
            p = 0
            for s in q.segs:
                if s[0] == 'e':
                    if isinstance(p, int) and p == i:
                        return s[1]
                    if not isinstance(p, int):
                        if self.branch(ceq(p, i)):
                            return s[1]
                    p = add(p, 1)
                    continue
                ln = seglen(s)
                e = add(p, ln)
                if self.branch(clt(i, e)):
                    return s[1] if s[0] == 'f' else elem(s[1], facts_idx(add(s[2], sub(i, p)), self.facts))
                p = e
            raise Undecided('index not located')
        p = 0
        segs = q.segs
        k = 0
        nb = 0
        while k < len(segs):
            s = segs[k]
            ln = seglen(s)
            e = add(p, ln)
            d = self.facts.decide(clt(i, e))
            if d is None:
                nb += 1
                if nb > 6:
                    et = None
                    if c is not None and getattr(c, 'T', None) is not None:
                        et = self.elem_type(c.T)
                    if et is None or not self.is_scalar(et):
                        raise Undecided('symbolic index')
                    lo, hi = self.trange(et)
                    return A(atom('opaque', ('sel', segs, i), lo, hi))
                d = self.branch(clt(i, e))
            if d:
                if s[0] == 'e':
                    return s[1]
                return s[1] if s[0] == 'f' else elem(s[1], facts_idx(add(s[2], sub(i, p)), self.facts))
            p = e
            k += 1
        raise Undecided('index not located')

    def seq_set(self, c, i, v):
        q = self.seq_of(c)
        n = seqlen(q)
        self.oblige('bounds', cand(cle(0, i), clt(i, n)), lambda: f'write at index {i!r} of a sequence of {n!r} elements')
        self.store(c, self.seq_replace(q, i, 1, [('e', v)]))

    def seq_slice(self, q, off, n):
        """segments covering [off, off+n)"""
        segs = self.seq_split(q.segs, off)[1]
        return self.seq_split(segs, n)[0]

    def seq_split(self, segs, at):
        """split at position `at` (assumed within length)"""
        at = facts_idx(at, self.facts)
        left, p = [], 0
        for k, s in enumerate(segs):
            r = facts_idx(sub(at, p), self.facts)
            if isinstance(r, int) and r <= 0:
                return left, list(segs[k:])
            ln = seglen(s)
            if isinstance(r, int) and isinstance(ln, int):
                if r >= ln:
                    left.append(s)
                    p = add(p, ln)
                    continue
                inside = True
            else:
                if r == ln:
                    left.append(s)
                    return left, list(segs[k + 1:])
                # undecided positions split the path
                if self.branch(cle(ln, r)):
                    left.append(s)
                    p = add(p, ln)
                    continue
                if s[0] == 'e' or self.facts.decide(cle(r, 0)) is True:
                    return left, list(segs[k:])
            if s[0] == 'e':
                return left, list(segs[k:])
            a, b = (('s', s[1], s[2], r), ('s', s[1], add(s[2], r), sub(ln, r))) if s[0] == 's' else \
                (('f', s[1], r), ('f', s[1], sub(ln, r)))
            return left + [a], [b] + list(segs[k + 1:])
        return left, []

    def seq_replace(self, q, off, n, new):
        l, r = self.seq_split(q.segs, off)
        _, r = self.seq_split(r, n)
        return seq_norm(l + list(new) + r, self.facts)

    def seq_resize(self, q, n, fillv):
        cur = seqlen(q)
        d = sub(n, cur)
        if d == 0:
            return q
        if self.branch(cle(n, cur)):
            return seq_norm(self.seq_split(q.segs, n)[0], self.facts)
        return seq_norm(list(q.segs) + [('f', fillv, d)], self.facts)

    def elem_ref(self, c, i, check=True):
        """location of element i of the sequence at c"""
        T = getattr(c, 'T', None)
        et = self.elem_type(T) if T is not None else None
        if et is not None and not self.is_scalar(et) and et.k != 'arr':
            v = self.seq_get(c, i)
            if isinstance(v, Cell):
                return self.lv(v)
            return v
        if check:
            n = seqlen(self.seq_of(c))
            self.oblige('bounds', cand(cle(0, i), clt(i, n)), lambda: f'index {i!r} of a sequence of {n!r} elements')
        return ElemLoc(self, c, i)

    # ---- scalar reinterpretation
    def reinterpret(self, v, A_, B):
        if v is UNINIT:
            return v
        if A_.k == 'float' and B.k in ('int', 'enum'):
            if isinstance(v, F) and v.op == 'frombits' and v.a[1] == A_.w:
                return wrap(v.a[0], B.w, B.sg, self.facts)
            if isinstance(v, float):
                import struct
                b = int.from_bytes(struct.pack('<f' if A_.w == 32 else '<d', v), 'little')
                return wrap(b, B.w, B.sg, self.facts)
            return wrap(A(atom('fbits', (v, A_.w), 0, (1 << A_.w) - 1)), B.w, B.sg, self.facts)
        if A_.k in ('int', 'enum', 'bool') and B.k == 'float':
            v = b2i(v) if A_.k == 'bool' else v
            u = wrap(v, B.w, False, self.facts)
            if isinstance(u, Lin) and len(u.t) == 1 and u.c == 0 and u.t[0][1] == 1 and u.t[0][0].kind == 'fbits' and u.t[0][0].args[1] == B.w:
                return u.t[0][0].args[0]
            return F('frombits', u, B.w)
        if A_.k in ('int', 'enum') and B.k in ('int', 'enum'):
            if A_.w == B.w:
                return wrap(v, B.w, B.sg, self.facts)
            if A_.w > B.w:
                return wrap(v, B.w, B.sg, self.facts)
        if A_.k == B.k == 'float' and A_.w == B.w:
            return v
        raise Undecided(f'reinterpretation {A_.s} as {B.s}')

    def bytes_of(self, v, T):
        """little-endian bytes of a scalar"""
        if v is UNINIT:
            return [UNINIT] * (T.sz or 1)
        if T.k == 'float':
            U = A(atom('fbits', (v, T.w), 0, (1 << T.w) - 1)) if not (isinstance(v, F) and v.op == 'frombits') else v.a[0]
            if isinstance(v, float):
                import struct
                U = int.from_bytes(struct.pack('<f' if T.w == 32 else '<d', v), 'little')
            v = U
            w = T.w
        elif T.k in ('int', 'enum'):
            w = T.w
        elif T.k == 'bool':
            v, w = b2i(v) if isinstance(v, (bool, Cond)) else v, 8
        else:
            raise Undecided(f'bytes of {T.s}')
        u = wrap(v, w, False, self.facts)
        ps = bits_of(u, w, self.facts)
        return [bits_join(bits_take(ps, 8 * i, 8), self.facts) for i in range(w // 8)]

    def from_bytes(self, bs, T):
        if any(b is UNINIT for b in bs):
            return UNINIT
        r = 0
        for i, b in enumerate(bs):
            b = wrap(b, 8, False, self.facts)
            r = norm(add(r, scale(b, 1 << (8 * i))), self.facts)
        w = 8 * len(bs)
        if T.k == 'float':
            if isinstance(r, Lin) and len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1 and r.t[0][0].kind == 'fbits':
                return r.t[0][0].args[0]
            return F('frombits', r, w)
        if T.k == 'bool':
            return i2b(r)
        return wrap(r, w, T.sg, self.facts)

    def byte_get(self, b):
        T = b.l.T
        n = T.sz
        self.oblige('bounds', cand(cle(0, b.off), clt(b.off, n)), lambda: f'byte {b.off!r} of a {T.s}')
        o = facts_idx(b.off, self.facts)
        if not isinstance(o, int):
            raise Undecided('symbolic byte offset')
        v = self.bytes_of(self.load(b.l), T)[o]
        return wrap(v, 8, b.T.sg, self.facts) if v is not UNINIT else v

    def byte_set(self, b, v):
        T = b.l.T
        o = facts_idx(b.off, self.facts)
        if not isinstance(o, int):
            raise Undecided('symbolic byte offset')
        self.oblige('bounds', 0 <= o < T.sz, lambda: f'byte {o} of a {T.s}')
        old = self.load(b.l)
        k = id(b.l)
        bs = self.partial[k][1] if old is UNINIT and k in self.partial else self.bytes_of(old, T)
        bs[o] = v
        self.partial[k] = (b.l, bs)     # the bytes assigned so far of a scalar not assigned yet
        self.store(b.l, self.from_bytes(bs, T))

    # ------------------------------------------------------------ object construction
    def zero_value(self, T):
        if T.k in ('int', 'enum'):
            return 0
        if T.k == 'bool':
            return False
        if T.k == 'float':
            return 0.0
        if T.k in ('ptr', 'nullptr'):
            return Ptr(None, T)
        if T.k == 'arr':
            return self.seq_fill(T.to, T.n, True)
        if T.k == 'rec':
            r = self.P.rec.get(T.n)
            if r and not r.get('own') or (r and r.get('agg')):
                return self.make_obj(T, True)
            return Dur(0) if T.q == 'std::chrono::duration' else self.std_default(T)
        raise Undecided(f'zero of {T.s}')

    def seq_fill(self, et, n, zero):
        if self.is_scalar(et):
            return seq_norm([('f', self.zero_value(et) if zero else UNINIT, n)], self.facts)
        return Seq([('e', self.new_cell(et, self.zero_value(et) if zero else self.default_value(et))) for _ in range(n)])

    def default_value(self, T):
        """default-initialised"""
        if self.is_scalar(T):
            return UNINIT
        if T.k == 'arr':
            return self.seq_fill(T.to, T.n, False)
        if T.k == 'rec':
            if T.n in self.P.rec and self.P.rec[T.n].get('own'):
                for r in self.ctors(T):
                    if r.ct == 'default':
                        o = self.make_obj(T)
                        self.run_ctor(o, r, [], T)
                        return o
                return self.make_obj(T)
            if T.n in self.P.rec:
                return self.make_obj(T)
            return self.std_default(T)
        raise Undecided(f'default value of {T.s}')

    def ctors(self, T):
        r = self.P.rec.get(T.n)
        return [self.P.fn[m['f']] for m in r['meth'] if self.P.fn[m['f']].ct] if r else []

    def all_fields(self, rn):
        r = self.P.rec.get(rn)
        if not r:
            return []
        out = []
        for b in r['bases']:
            out += self.all_fields(b.n)
        return out + [(rn, f) for f in r['fields']]

    def make_obj(self, T, zero=False):
        o = Obj(self, T)
        for rn, f in self.all_fields(T.n):
            ft = f['t']
            c = self.new_cell(ft, UNINIT, f'{rn.split("::")[-1]}::{f["n"]}')
            if zero:
                c.v = self.zero_value(ft)
            elif ft.k == 'arr':
                c.v = self.seq_fill(ft.to, ft.n, False)
            elif ft.k == 'rec' and ft.n in self.P.rec and not self.P.rec[ft.n].get('own'):
                c.v = self.make_obj(ft, zero)
            o.f[rn + '.' + f['n']] = c
        return o

    def std_default(self, T):
        r = self.std.default(self, T)
        if r is None:
            raise Undecided(f'default {T.s}')
        return r

    def copy_value(self, v, T=None):
        """copy construction"""
        if isinstance(v, Obj):
            if self.P.rec.get(v.rec, {}).get('own') and v.rec in self.P.rec and not self.P.rec[v.rec].get('lambda'):
                for r in self.ctors(v.T):
                    if r.ct == 'copy' and r.id in self.P.body:
                        o = self.make_obj(v.T)
                        self.run_ctor(o, r, [v], v.T)
                        return o
            o = Obj(self, v.T)
            o.tag, o.caps = v.tag, v.caps
            for k, c in v.f.items():
                if isinstance(c.v, RefV):
                    o.f[k] = self.new_cell(c.T, RefV(c.v.loc), c.name)
                else:
                    o.f[k] = self.new_cell(c.T, self.copy_value(c.v), c.name)
            if v.caps is not None:
                o.caps = {}
                for k, (l, byref) in v.caps.items():
                    o.caps[k] = (l, True) if byref else (self.new_cell(getattr(l, 'T', None), self.copy_value(self.load(l))), False)
            return o
        if isinstance(v, Seq):
            if any(s[0] == 'e' and isinstance(s[1], Cell) for s in v.segs):
                return Seq([('e', self.new_cell(s[1].T, self.copy_value(s[1].v))) if s[0] == 'e' and isinstance(s[1], Cell) else s for s in v.segs])
            return v
        if isinstance(v, MapV):
            return MapV([self.copy_value(n) for n in v.nodes])
        if isinstance(v, TupV):
            return TupV([self.new_cell(c.T, c.v if isinstance(c.v, RefV) else self.copy_value(c.v)) for c in v.cells])
        if isinstance(v, Opt):
            return Opt(None if v.c is None else self.new_cell(v.c.T, self.copy_value(v.c.v)))
        if isinstance(v, Fun):
            return Fun(self.copy_value(v.t) if isinstance(v.t, Obj) else v.t)
        if isinstance(v, UP):
            raise Undecided('copy of unique_ptr')
        return v

    def move_from(self, loc):
        """move construction: returns the value, leaves the source in its moved-from state"""
        v = self.val(loc)
        if isinstance(v, Obj):
            if v.rec in self.P.rec and self.P.rec[v.rec].get('own') and not self.P.rec[v.rec].get('lambda'):
                for r in self.ctors(v.T):
                    if r.ct in ('move',) and r.id in self.P.body:
                        o = self.make_obj(v.T)
                        self.run_ctor(o, r, [v], v.T)
                        return o
                cts = [r.ct for r in self.ctors(v.T) if not r.del_]
                if 'copy' in cts and 'move' not in cts and any(r.ct == 'copy' and r.id in self.P.body for r in self.ctors(v.T)):
                    return self.copy_value(v)
            o = Obj(self, v.T)
            o.tag, o.caps = v.tag, v.caps
            for k, c in v.f.items():
                o.f[k] = self.new_cell(c.T, c.v if isinstance(c.v, RefV) else self.move_from(c), c.name)
            return o
        if isinstance(v, Seq):
            if isinstance(loc, Cell) and loc.T is not None and loc.T.k == 'arr':
                return self.copy_value(v)
            if hasattr(loc, 'set'):
                self.store(loc, Seq())
            return v
        if isinstance(v, (SP, UP, WP, Fun, MapV)):
            if hasattr(loc, 'set'):
                self.store(loc, type(v)() if not isinstance(v, Fun) else Fun(None))
            return v
        return self.copy_value(v)

    def run_ctor(self, obj, ref, args, T):
        b = self.P.body.get(ref.id)
        if b is None:
            if ref.ct in ('copy', 'move'):
                src = self.load(args[0])
                o = self.copy_value(src) if ref.ct == 'copy' else self.move_from(src)
                for k in o.f:
                    obj.f[k] = o.f[k]
                return
            if ref.ct == 'default':
                self.implicit_default(obj, T.n)
                return
            raise Undecided(f'constructor {ref.q} has no body')
        self.enter(b, ref)
        fr = Frame(b, obj)
        self.bind_params(fr, b, args)
        self.frames.append(fr)
        done = []
        try:
            try:
                for it in b.get('inits', []):
                    fr.line = it['l'] or b['line']
                    if 'dg' in it:
                        self.construct_into(obj, it['i'], fr)
                        done.append((0, ref.rec.n))
                    elif 'b' in it:
                        self.construct_into(obj, it['i'], fr)
                        x = it['i']
                        while x['k'] in ('full', 'mat', 'cast'):
                            x = x['e']
                        if x['k'] == 'ctor' and self.P.fn[x['f']].rec.n in self.P.rec:
                            done.append((0, self.P.fn[x['f']].rec.n))
                    else:
                        c = obj.f.get(ref.rec.n + '.' + it['m'])
                        if c is None:
                            raise Undecided(f'field {it["m"]}')
                        self.init_cell(c, it['i'], fr)
                        done.append((1, c))
                self.call_body(b, fr)
            except CxxThrow as e:
                # what is already constructed is destroyed, in reverse order
                self.hold.append(e.val)
                self.end_temps(fr, 0)
                for k, x in reversed(done):
                    if k:
                        self.destroy_cell(x)
                    else:
                        self.destroy_obj(obj, x)
                self.hold.pop()
                if self.dropped:
                    self.gc()
                raise
        finally:
            self.frames.pop()

    def implicit_default(self, obj, rn):
        r = self.P.rec[rn]
        for b in r['bases']:
            if b.n in self.P.rec:
                cts = [x for x in self.ctors(b) if x.ct == 'default']
                if cts:
                    self.run_ctor(obj, cts[0], [], b)
                else:
                    self.implicit_default(obj, b.n)
        fr = Frame({'q': rn, 'file': r['file']}, obj)
        fr.line = r['line']
        self.frames.append(fr)
        try:
            for f in r['fields']:
                c = obj.f[rn + '.' + f['n']]
                if 'i' in f:
                    self.init_cell(c, f['i'], fr)
                elif not self.is_scalar(f['t']) and f['t'].k != 'arr':
                    c.v = self.default_value(f['t'])
        finally:
            self.frames.pop()

    def construct_into(self, obj, e, fr):
        k = e['k']
        if k in ('full', 'mat'):
            n = len(fr.temps)
            self.construct_into(obj, e['e'], fr)
            self.end_temps(fr, n)
            return
        if k == 'ctor':
            ref = self.P.fn[e['f']]
            args = self.ev_args(e['a'], fr)
            if ref.own and ref.rec.n in self.P.rec:
                self.run_ctor(obj, ref, args, ref.rec)
            elif ref.rec.q and ref.rec.q.startswith('std::'):
                self.std_base_ctor(obj, ref, args)
            return
        if k == 'cast':
            return self.construct_into(obj, e['e'], fr)
        if k in ('zero', 'init') and not e.get('a'):
            return
        raise Undecided(f'base initialiser {k}')

    def std_base_ctor(self, obj, ref, args):
        # std base classes (enable_shared_from_this, exception types)
        obj.f['std:' + ref.rec.q] = self.new_cell(ref.rec, self.std.construct(self, ref, args, {'l': 0, 't': ref.rec}) if 'exception' in ref.rec.q or 'error' in ref.rec.q else Opaque(ref.rec.q))

    def init_cell(self, c, e, fr):
        """initialise cell c (a variable or field) from expression e"""
        T = c.T
        if T is not None and T.k in ('lref', 'rref'):
            l = self.ev(e, fr)
            if not isinstance(l, (Loc, Obj)):
                t = self.new_cell(T.to, l)
                l = self.lv(t)
            c.v = RefV(l)
            return
        v = self.ev(e, fr)
        if isinstance(v, Loc):
            v = self.load(v)
        if v is None:
            raise Undecided('void initialiser')
        c.v = v

    def bind_params(self, fr, b, args):
        ps = b['params']
        for i, p in enumerate(ps):
            T = p['t']
            a = args[i] if i < len(args) else None
            if a is None:
                raise Undecided('missing argument')
            if T.k in ('lref', 'rref'):
                if not isinstance(a, (Loc, Obj)):
                    a = self.lv(self.new_cell(T.to, a))
                fr.loc[p['d']] = a
            else:
                if isinstance(a, Loc):
                    a = self.rd(a)
                    a = self.copy_value(a)
                fr.loc[p['d']] = self.new_cell(T, a, p['n'])

    # ------------------------------------------------------------ calls
    def enter(self, b, ref):
        if len(self.frames) > 150:
            raise Undecided('call depth')
        self.fn_seen.add(b['id'])

    def dispatch(self, ref, this):
        if not isinstance(this, Obj):
            return ref
        rn = this.rec
        while rn:
            r = self.P.rec.get(rn)
            if not r:
                break
            for m in r['meth']:
                f = m['f']
                if f == ref.id or ref.id in self.P.over.get(f, ()):
                    return self.P.fn[f]
            nb = [b.n for b in r['bases']]
            nxt = None
            for b in nb:
                if self.derives(b, ref.rec.n) or b == ref.rec.n:
                    nxt = b
            rn = nxt
        return ref

    def derives(self, a, b):
        if a == b:
            return True
        if a in STD_BASES:
            return any(self.derives(x, b) for x in STD_BASES[a])
        r = self.P.rec.get(a)
        if not r:
            return False
        return any(self.derives(x.n, b) for x in r['bases'])

    def call(self, fid, this, args, node=None, virt=False, fr=None):
        ref = self.P.fn[fid]
        if virt and ref.virt and isinstance(this, Obj):
            if this.dead:
                self.fail('use-after-free', f'{ref.q} called on a destroyed object')
            ref = self.dispatch(ref, this)
        h = self.override.get(ref.q)
        if h is not None:
            r = h(self, ref, this, args, node)
            if r is not NotImplemented:
                return r
        if ref.own and ref.n and ref.q.startswith('eipScanner::utils::Logger::') and self.log_noop:
            return self.logger(ref, this, args, node)
        b = self.P.body.get(ref.id)
        if b is not None:
            return self.invoke(b, ref, this, args)
        if ref.q in self.ext:
            return self.ext[ref.q](self, ref, this, args, node)
        if ref.rec is not None and ref.as_ and (ref.own or ref.rec.n in self.P.rec and not ref.q.startswith('std::')):
            return self.implicit_assign(this, args[0], ref)
        if ref.pure:
            self.fail('pure-virtual', f'{ref.q} called')
        if ref.own:
            # defaulted comparison operators and the like
            if ref.n == 'operator==' and ref.rec is not None:
                return self.memberwise_eq(self.load(this), self.val(args[0]))
            raise Undecided(f'no body for {ref.q}')
        return self.std.call(self, ref, this, args, node)

    def logger(self, ref, this, args, node):
        if ref.ct:
            return self.make_obj(ref.rec)
        if ref.n.startswith('operator<<'):
            return this
        if ref.dt:
            return None
        if ref.r.k == 'void':
            return None
        raise Undecided(f'logger {ref.n}')

    def invoke(self, b, ref, this, args):
        self.enter(b, ref)
        fr = Frame(b, this)
        if ref.lam:
            fr.caps = this
            fr.this = None
        self.bind_params(fr, b, args)
        self.frames.append(fr)
        try:
            try:
                v = self.call_body(b, fr)
            except CxxThrow as e:
                if ref.ne or ref.dt:
                    e2 = PathEnd('terminate', f'{e.tn} leaves {ref.q}')
                    e2.site = self.where_repo()
                    raise e2
                raise
            except (Undecided, PathEnd) as e:
                if not hasattr(e, 'site'):
                    e.site = self.where_repo()
                raise
        finally:
            self.frames.pop()
        return v

    def call_body(self, b, fr):
        # parameters are destroyed after the body
        ps = [fr.loc[p['d']] for p in b['params'] if p['t'].k not in ('lref', 'rref')]
        h0 = len(self.hold)
        try:
            r = self.ex(b['body'], fr)
        except CxxThrow:
            del self.hold[h0:]
            self.end_temps(fr, 0)
            for c in reversed(ps):
                self.destroy_cell(c)
            raise
        v = None
        if r is not None and r[0] == 'r':
            v = r[1]
        self.hold.append(v)
        self.end_temps(fr, 0)
        for c in reversed(ps):
            self.destroy_cell(c)
        self.hold.pop()
        return v

    def call_value(self, f, args, node=None, this=None, lv=False):
        """call a callable value (lambda object, function pointer, std::function, user callback, functor)"""
        f = self.val(f)
        if isinstance(f, Fun):
            if f.t is None:
                self.throw_std('std::bad_function_call')
            return self.call_value(f.t, args, node, lv=lv)
        if isinstance(f, SymFn):
            h = self.env.get('callback')
            if h is None:
                raise Undecided('user callback without an environment')
            return h(self, f, args)
        if isinstance(f, FnPtr):
            return self.call(f.id, f.this, args, node)
        if isinstance(f, Ptr) and isinstance(f.loc, FnPtr):
            return self.call(f.loc.id, None, args, node)
        if isinstance(f, Obj):
            r = self.P.rec.get(f.rec)
            if r and r.get('lambda'):
                ops = f.tag['ops']
                cand_ = [self.P.fn[o] for o in ops if len(self.P.fn[o].ps) == len(args)]
                if len(cand_) > 1:
                    cand_ = [x for x in cand_ if x.id in self.P.body] or cand_
                if not cand_:
                    raise Undecided('no call operator')
                x = self.pick(cand_, args)
                return self.call(x.id, f, self.own_args(x, args) if lv else args, node)
            if r:
                for m in r['meth']:
                    x = self.P.fn[m['f']]
                    if x.n == 'operator()' and len(x.ps) == len(args):
                        return self.call(x.id, f, self.own_args(x, args) if lv else args, node)
        if isinstance(f, Opaque):
            r = self.std.functor(self, f, args)
            if r is not None:
                return r
        if callable(f):
            return f(*args)
        raise Undecided(f'call of {type(f).__name__}')

    def default_arg(self, q, r):
        fr = Frame({'q': 'default argument of ' + r.q, 'file': r.file})
        fr.line = r.line
        fr.scope = []
        self.frames.append(fr)
        try:
            v = self.ev(q['di'], fr)
            if q['t'].k in ('lref', 'rref') and not isinstance(v, (Loc, Obj)):
                v = self.lv(self.new_cell(q['t'].to, v))
            return v
        finally:
            self.frames.pop()

    def call_lv(self, f, args, node=None):
        """call from the library: arguments are lvalues, parameters taken by value get copies"""
        return self.call_value(f, args, node, lv=True)

    def own_args(self, r, args):
        out = []
        for t, x in zip(r.ps, args):
            if t.k not in ('lref', 'rref'):
                v = self.val(x)
                if isinstance(v, (Obj, MapV, TupV)) or isinstance(v, Seq) and any(s[0] == 'e' and isinstance(s[1], Cell) for s in v.segs):
                    x = self.copy_value(v)
            out.append(x)
        return out

    def pick(self, cands, args):
        if len(cands) == 1:
            return cands[0]
        ok = []
        for c in cands:
            s = True
            for p, a in zip(c.ps, args):
                t = p.to if p.k in ('lref', 'rref') else p
                at = getattr(a, 'T', None)
                if at is not None and at.s.replace('const ', '') != t.s.replace('const ', ''):
                    s = False
            if s:
                ok.append(c)
        if len(ok) == 1:
            return ok[0]
        raise Undecided('ambiguous generic call operator')

    def throw_std(self, tn, what=None, code=None):
        e = CxxThrow(tn, ExcV(what, code))
        e.site = self.where_repo()
        raise e

    def implicit_assign(self, this, src, ref):
        d, s = self.load(this), self.val(src)
        if not isinstance(d, Obj) or not isinstance(s, Obj):
            raise Undecided('implicit assignment')
        if d is s:
            return this
        for k, c in d.f.items():
            if not k.startswith('std:') and ref.rec is not None and not self.derives(ref.rec.n, k.rsplit('.', 1)[0]):
                continue
            sc = s.f.get(k)
            if sc is None:
                continue
            self.assign(c, sc, ref.as_ == 'move')
        return this

    def assign(self, dst, src, move=False):
        """assignment of one subobject from another location"""
        dv, sv = dst.v if isinstance(dst, Cell) else self.load(dst), self.val(src)
        if isinstance(dv, Obj) and isinstance(sv, Obj):
            r = self.P.rec.get(dv.rec)
            if r:
                for m in r['meth']:
                    f = self.P.fn[m['f']]
                    if f.as_ == ('move' if move else 'copy') and f.id in self.P.body:
                        return self.call(f.id, dv, [sv])
                for m in r['meth']:
                    f = self.P.fn[m['f']]
                    if f.as_ == 'copy' and f.id in self.P.body:
                        return self.call(f.id, dv, [sv])
            for k, c in dv.f.items():
                self.assign(c, sv.f[k], move)
            return
        old = dv
        nv = self.move_from(src) if move and isinstance(src, Cell) else self.copy_value(sv)
        self.store(dst, nv)
        self.drop_value(old)

    def memberwise_eq(self, a, b):
        r = True
        for k, c in a.f.items():
            x = self.eq_values(self.load(c), self.load(b.f[k]), c.T)
            r = cand(r, x)
        return r

    def eq_values(self, a, b, T=None):
        a, b = self.val(a), self.val(b)
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            return ceq(b2i(a) if isinstance(a, (bool, Cond)) else a, b2i(b) if isinstance(b, (bool, Cond)) else b)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return ceq(a, b)
        if isinstance(a, (F, float)) or isinstance(b, (F, float)):
            if isinstance(a, float) and isinstance(b, float):
                return a == b
            return pred('feq', a, b)
        if isinstance(a, Seq):
            return self.std.seq_eq(self, a, b)
        if isinstance(a, Dur):
            return ceq(a.n, b.n)
        if isinstance(a, (SP, UP)):
            return (a.loc is b.loc)
        if isinstance(a, Ptr):
            return self.ptr_eq(a, b)
        if isinstance(a, TupV) and isinstance(b, TupV):
            r = True
            for x, y in zip(a.cells, b.cells):
                r = cand(r, self.eq_values(x, y))
            return r
        if isinstance(a, Obj) and isinstance(b, Obj):
            f = self.find_op('operator==', a.T)
            if f is not None:
                if f.rec is not None:
                    return self.call(f.id, a, [b])
                return self.call(f.id, None, [a, b])
            if not (a.rec in self.P.rec and self.P.rec[a.rec].get('own')):
                return self.memberwise_eq(a, b)
            f = self.find_op('operator<=>', a.T)
            if f is not None:
                return self.call(f.id, a, [b]).eq
        raise Undecided(f'== on {type(a).__name__}')

    def find_op(self, n, T):
        for q, l in self.P.byq.items():
            if q.endswith(n):
                for r in l:
                    if r.own and r.n == n and r.ps:
                        p = r.ps[0]
                        p = p.to if p.k in ('lref', 'rref') else p
                        if p.n is not None and p.n == T.n:
                            return r
        return None

    def lt_values(self, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, (bool, Cond)):
            a = b2i(a)
        if isinstance(b, (bool, Cond)):
            b = b2i(b)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return clt(a, b)
        if isinstance(a, Dur):
            return clt(a.n, b.n)
        if isinstance(a, (F, float)) or isinstance(b, (F, float)):
            if isinstance(a, float) and isinstance(b, float):
                return a < b
            return pred('flt', a, b)
        if isinstance(a, Seq):
            return self.std.seq_lt(self, a, b)
        if isinstance(a, Obj):
            f = self.find_op('operator<', a.T)
            if f is not None:
                r = self.call(f.id, a, [b]) if f.rec is not None else self.call(f.id, None, [a, b])
                return r
            f = self.find_op('operator<=>', a.T)
            if f is not None:
                return self.call(f.id, a, [b]).lt
            if a.T.q == 'std::pair':
                x = self.lt_values(a.f['first'], b.f['first'])
                if self.truth(x):
                    return True
                if self.truth(self.lt_values(b.f['first'], a.f['first'])):
                    return False
                return self.lt_values(a.f['second'], b.f['second'])
        if isinstance(a, TupV):
            for x, y in zip(a.cells[:-1], b.cells[:-1]):
                if self.truth(self.lt_values(x, y)):
                    return True
                if self.truth(self.lt_values(y, x)):
                    return False
            return self.lt_values(a.cells[-1], b.cells[-1])
        if isinstance(a, (SP, UP)) and isinstance(b, (SP, UP)):
            return (getattr(a.loc, 'id', 0) if a.loc else 0) < (getattr(b.loc, 'id', 0) if b.loc else 0)
        raise Undecided(f'< on {type(a).__name__}')

    def ptr_eq(self, a, b):
        la = a.loc if isinstance(a, Ptr) else a
        lb = b.loc if isinstance(b, Ptr) else b
        if la is None or lb is None:
            return la is lb
        if isinstance(la, ElemLoc) and isinstance(lb, ElemLoc) and la.c is lb.c:
            return ceq(la.i, lb.i)
        if isinstance(la, FnPtr) and isinstance(lb, FnPtr):
            return la.id == lb.id
        return la is lb

    # ------------------------------------------------------------ destruction
    def destroy_cell(self, c):
        if isinstance(c, Cell):
            if c.dead:
                return
            v = c.v
            if not isinstance(v, RefV):
                self.destroy_value(v)
            c.dead = True
        elif isinstance(c, Obj):
            self.destroy_value(c)

    def destroy_value(self, v):
        if isinstance(v, Obj):
            if v.dead or v.moved:
                return
            self.destroy_obj(v)
        elif isinstance(v, (SP, WP)):
            if v.loc is not None:
                self.dropped = True
        elif isinstance(v, UP):
            if v.loc is not None:
                self.destroy_value(v.loc.get() if isinstance(v.loc, Cell) else v.loc)
                if isinstance(v.loc, Cell):
                    v.loc.dead = True
        elif isinstance(v, Seq):
            for s in v.segs:
                if s[0] == 'e' and isinstance(s[1], Cell):
                    self.destroy_cell(s[1])
        elif isinstance(v, MapV):
            for n in v.nodes:
                self.destroy_value(n)
        elif isinstance(v, Opt):
            if v.c is not None:
                self.destroy_cell(v.c)
        elif isinstance(v, TupV):
            for c in v.cells:
                self.destroy_cell(c)
        elif isinstance(v, Fun):
            if isinstance(v.t, Obj):
                self.destroy_value(v.t)

    drop_value = destroy_value

    def destroy_obj(self, o, rn=None):
        top = rn is None
        rn = rn or o.rec
        r = self.P.rec.get(rn)
        if r is None or r.get('lambda'):
            for c in o.f.values():
                self.destroy_cell(c)
            if o.caps:
                for l, byref in o.caps.values():
                    if not byref:
                        self.destroy_cell(l)
            o.dead = True
            return
        if r.get('own'):
            d = r.get('dtor')
            if d:
                ref = self.P.fn[d]
                h = self.override.get(ref.q)
                if h is not None:
                    h(self, ref, o, [], None)
                elif ref.q.startswith('eipScanner::utils::Logger::') and self.log_noop:
                    if self.on_log is not None:
                        self.on_log(self)
                elif d in self.P.body:
                    self.invoke(self.P.body[d], ref, o, [])
        for f in reversed(r['fields']):
            c = o.f.get(rn + '.' + f['n'])
            if c is not None:
                self.destroy_cell(c)
        for b in reversed(r['bases']):
            if b.n in self.P.rec:
                self.destroy_obj(o, b.n)
        if top:
            o.dead = True

    def end_temps(self, fr, n):
        while len(fr.temps) > n:
            self.destroy_cell(fr.temps.pop())

    def gc(self):
        """release shared objects that nothing owns any more"""
        while self.dropped:
            self.dropped = False
            if not any(c.alive for c in self.heap):
                return
            seen, live = set(), set()
            st = []
            for fr in self.frames:
                for l in fr.loc.values():
                    if isinstance(l, Cell) and not l.dead or isinstance(l, Obj) and not l.dead:
                        st.append(l)
                st.append(fr.this)
                st.append(fr.caps)
                st += fr.temps
            st += list(self.globals.values())
            st += self.hold
            while st:
                v = st.pop()
                if v is None or isinstance(v, (int, str, Lin, Cond, float, F, Ptr, RefV, WP)):
                    continue
                if id(v) in seen:
                    continue
                if isinstance(v, Cell):
                    seen.add(id(v))
                    st.append(v.v)
                elif isinstance(v, ElemLoc):
                    st.append(v.c)
                elif isinstance(v, Obj):
                    seen.add(id(v))
                    st += list(v.f.values())
                    if v.caps:
                        st += [l for l, byref in v.caps.values() if not byref]
                elif isinstance(v, SP):
                    if v.ctrl is not None and v.ctrl.id not in live and v.ctrl.alive:
                        live.add(v.ctrl.id)
                        st.append(v.ctrl.obj)
                elif isinstance(v, UP):
                    st.append(v.loc)
                elif isinstance(v, Seq):
                    st += [s[1] for s in v.segs if s[0] == 'e' and not isinstance(s[1], (int, Lin))]
                elif isinstance(v, MapV):
                    st += list(v.nodes)
                elif isinstance(v, TupV):
                    st += list(v.cells)
                elif isinstance(v, Opt):
                    st.append(v.c)
                elif isinstance(v, Fun):
                    st.append(v.t)
                elif isinstance(v, FnPtr):
                    st.append(v.this)
                elif isinstance(v, MapIter):
                    st.append(v.c)
                elif isinstance(v, (list, tuple)):
                    st += list(v)
            deads = [c for c in self.heap if c.alive and c.id not in live]
            if not deads:
                return
            # an object owned only by another dead object dies with it: start from unowned ones
            owned = set()
            for c in deads:
                for x in self.owned_ctrls(c.obj):
                    if x is not c:
                        owned.add(x.id)
            first = [c for c in deads if c.id not in owned] or deads[:1]
            for c in first:
                c.alive = False
                self.destroy_value(c.obj.get() if isinstance(c.obj, Cell) else c.obj)
                if isinstance(c.obj, Cell):
                    c.obj.dead = True
            self.dropped = True

    def owned_ctrls(self, o):
        out, st, seen = [], [o], set()
        while st:
            v = st.pop()
            if isinstance(v, SP):
                if v.ctrl:
                    out.append(v.ctrl)
                continue
            if id(v) in seen or v is None:
                continue
            if isinstance(v, Cell):
                seen.add(id(v))
                st.append(v.v)
            elif isinstance(v, Obj):
                seen.add(id(v))
                st += list(v.f.values())
                if v.caps:
                    st += [l for l, byref in v.caps.values() if not byref]
            elif isinstance(v, UP):
                st.append(v.loc)
            elif isinstance(v, Seq):
                st += [s[1] for s in v.segs if s[0] == 'e' and isinstance(s[1], Cell)]
            elif isinstance(v, MapV):
                st += list(v.nodes)
            elif isinstance(v, Opt):
                st.append(v.c)
            elif isinstance(v, Fun):
                st.append(v.t)
        return out

    # ------------------------------------------------------------ statements
    def ex(self, s, fr):
        if s is None:
            return None
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('step limit')
        if s['l']:
            fr.line = s['l']
        return self._sdisp[s['k']](s, fr)

    def s_block(self, s, fr):
        return self.run_block(s['b'], fr)

    def run_block(self, stmts, fr, start=0):
        outer = fr.scope
        fr.scope = sc = []
        h0 = len(self.hold)
        try:
            for i in range(start, len(stmts)):
                r = self.ex(stmts[i], fr)
                if r is not None:
                    if r[0] == 'r':
                        self.hold.append(r[1])
                    self.leave(sc, fr)
                    if r[0] == 'r':
                        self.hold.pop()
                    return r
            self.leave(sc, fr)
        except CxxThrow as e:
            del self.hold[h0:]
            self.hold.append(e.val)
            self.dropped = True
            self.leave(sc, fr)
            self.hold.pop()
            raise
        finally:
            fr.scope = outer
        return None

    def leave(self, sc, fr):
        while sc:
            c = sc.pop()
            self.destroy_cell(c)
        if self.dropped:
            self.gc()

    def s_expr(self, s, fr):
        n = len(fr.temps)
        try:
            v = self.ev(s['e'], fr)
        except CxxThrow:
            self.end_temps(fr, n)
            raise
        if isinstance(v, (Obj, SP, UP, Seq, MapV, Fun)) and not s['e'].get('lv'):
            self.destroy_value(v)
        self.end_temps(fr, n)
        if self.dropped:
            self.gc()

    def s_decl(self, s, fr):
        for v in s['v']:
            self.declare(v, fr)

    def declare(self, v, fr):
        T = v['t']
        if v.get('static'):
            self.global_cell(v['g'], v, fr)
            return
        if T.k in ('lref', 'rref'):
            if 'i' in v:
                n = len(fr.temps)
                l = self.ev(v['i'], fr)
                if not isinstance(l, (Loc, Obj)):
                    c = self.new_cell(T.to, l)
                    if fr.scope is not None:
                        fr.scope.append(c)
                    l = self.lv(c)
                fr.loc[v['d']] = l
        else:
            c = self.new_cell(T, UNINIT, v['n'])
            if 'i' in v:
                n = len(fr.temps)
                try:
                    self.init_cell(c, v['i'], fr)
                except CxxThrow:
                    self.end_temps(fr, n)
                    raise
                self.end_temps(fr, n) if False else None
            elif not self.is_scalar(T):
                c.v = self.default_value(T)
            fr.loc[v['d']] = c
            if fr.scope is not None:
                fr.scope.append(c)
        if 'bind' in v:
            base = self.lv(fr.loc[v['d']])
            for i, b in enumerate(v['bind']):
                if 'hv' in b:
                    self.declare(b['hv'], fr)
                    fr.loc[b['d']] = fr.loc[b['hv']['d']]
                elif 'e' in b:
                    fr.loc[b['d']] = self.ev(b['e'], fr)
        if self.dropped:
            self.gc()

    def cond_of(self, s, fr):
        if s.get('init'):
            r = self.ex(s['init'], fr)
        if s.get('cv'):
            self.declare(s['cv'], fr)
        return self.ev_cond(s['c'], fr)

    def ev_cond(self, e, fr):
        if e is None:
            return True
        n = len(fr.temps)
        v = self.rd(self.ev(e, fr))
        self.end_temps(fr, n)
        return v

    def scoped(self, fr, f):
        outer = fr.scope
        fr.scope = sc = []
        try:
            r = f()
            if r is not None and r[0] == 'r':
                self.hold.append(r[1])
                self.leave(sc, fr)
                self.hold.pop()
            else:
                self.leave(sc, fr)
            return r
        except CxxThrow:
            self.leave(sc, fr)
            raise
        finally:
            fr.scope = outer

    def s_if(self, s, fr):
        def go():
            if self.truth(self.cond_of(s, fr)):
                return self.ex(s['a'], fr)
            return self.ex(s['e'], fr)
        if s.get('init') or s.get('cv'):
            return self.scoped(fr, go)
        return go()

    def s_while(self, s, fr):
        return self.loop(s, fr, lambda: self.cond_of(s, fr), lambda: self.ex(s['b'], fr), None)

    def s_for(self, s, fr):
        def go():
            if s.get('init'):
                self.ex(s['init'], fr)
            return self.loop(s, fr, (lambda: self.ev_cond(s['c'], fr)) if s.get('c') else (lambda: True),
                             lambda: self.ex(s['b'], fr),
                             (lambda: self.discard(s['s'], fr)) if s.get('s') else None)
        return self.scoped(fr, go)

    def discard(self, e, fr):
        n = len(fr.temps)
        self.ev(e, fr)
        self.end_temps(fr, n)

    def s_do(self, s, fr):
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return True
            return self.ev_cond(s['c'], fr)
        return self.loop(s, fr, cond, lambda: self.ex(s['b'], fr), None)

    # -- loops: unrolled while the condition is decided (and UNROLL undecided tests beyond that), then generalised
    def loop(self, s, fr, cond, body, step):
        n = und = 0
        gen = None
        while True:
            n += 1
            if n > self.HARD:
                raise Undecided('loop bound')
            if gen is None and self.generic_loops and und >= self.UNROLL and not self.nogen:
                gen = self.gen_enter(s, fr)
                if gen is False:
                    gen = None
                elif gen.mode == 1:
                    # leave the loop from the generalised state
                    c = cond()
                    if self.truth(c):
                        raise PathEnd('cut', 'loop exit branch')
                    return None
            m = len(self.made)
            c = cond()
            d = self.facts.decide(c) if isinstance(c, (bool, Cond)) else self.facts.decide(i2b(c))
            if not self.truth(c):
                if gen is not None:
                    raise PathEnd('cut', 'generic iteration')
                return None
            if d is None or len(self.made) > m:
                und += 1
            if und > self.UNROLL + 1 and gen is None and (self.nogen or not self.generic_loops):
                raise PathEnd('cut', f'loop at {self.where()} followed for {und} undecided iterations')
            m = len(self.made)
            r = body()
            if r is not None:
                if r[0] == 'b':
                    return None
                if r[0] == 'r':
                    return r
            if step is not None:
                step()
            if len(self.made) > m and d is not None:
                und += 1    # an endless loop whose body decides when to stop
            if gen is not None:
                self.gen_close(gen)
                raise PathEnd('cut', 'loop back edge (covered by the invariant)')

    def gen_enter(self, s, fr):
        return False

    def gen_close(self, gen):
        pass

    def s_rfor(self, s, fr):
        def go():
            if s.get('init'):
                self.ex(s['init'], fr)
            n0 = len(fr.temps)
            r = self.ev(s['r'], fr)
            if not isinstance(r, (Loc, Obj)):
                c = self.new_cell(s.get('rt') and (s['rt'].to if s['rt'].k in ('lref', 'rref') else s['rt']), r)
                fr.scope.append(c)
                r = self.lv(c)
            return self.std.range_for(self, s, fr, r)
        return self.scoped(fr, go)

    def bind_loop_var(self, v, loc, fr):
        """declare the range variable for one element location"""
        T = v['t']
        if T.k in ('lref', 'rref'):
            fr.loc[v['d']] = loc
        else:
            x = self.load(loc)
            fr.loc[v['d']] = self.new_cell(T, self.copy_value(x), v['n'])
        if 'bind' in v:
            o = self.lv(fr.loc[v['d']])
            for i, b in enumerate(v['bind']):
                if isinstance(o, Obj) and 'first' in o.f:
                    fr.loc[b['d']] = self.lv(o.f['first' if i == 0 else 'second'])
                elif isinstance(self.val(o), TupV):
                    fr.loc[b['d']] = self.lv(self.val(o).cells[i])
                elif 'e' in b:
                    fr.loc[b['d']] = self.ev(b['e'], fr)
                else:
                    raise Undecided('structured binding')

    def s_return(self, s, fr):
        if s['e'] is None:
            return ('r', None)
        n = len(fr.temps)
        e = s['e']
        v = self.ev(e, fr)
        if isinstance(v, Loc) and not e.get('lv'):
            v = self.load(v)
        if isinstance(v, Loc) and self.ret_by_value(fr):
            v = self.copy_value(self.rd(v))
        self.hold.append(v)
        self.end_temps(fr, n)
        self.hold.pop()
        return ('r', v)

    def ret_by_value(self, fr):
        r = self.P.fn.get(fr.fn.get('id'))
        return r is not None and r.r.k not in ('lref', 'rref')

    def s_break(self, s, fr):
        return ('b',)

    def s_continue(self, s, fr):
        return ('c',)

    def s_null(self, s, fr):
        return None

    def s_label(self, s, fr):
        return self.ex(s['b'], fr)

    def s_goto(self, s, fr):
        raise Undecided('goto')

    def s_unknown(self, s, fr):
        raise Undecided('statement ' + s.get('w', ''))

    def s_case(self, s, fr):
        return self.ex(s['b'], fr)

    s_default = s_case

    def s_switch(self, s, fr):
        def go():
            v = self.cond_of(s, fr)
            v = b2i(v) if isinstance(v, (bool, Cond)) else v
            body = s['b']
            stmts = body['b'] if body['k'] == 'block' else [body]
            flat, labels, default = [], [], None
            for st in stmts:
                while st is not None and st['k'] in ('case', 'default'):
                    if st['k'] == 'case':
                        lo = self.ev(st['v'], fr)
                        hi = self.ev(st['v2'], fr) if st.get('v2') else lo
                        labels.append((lo, hi, len(flat)))
                    else:
                        default = len(flat)
                    st = st['b']
                flat.append(st)
            tgt = default
            for lo, hi, i in labels:
                c = ceq(v, lo) if lo == hi else cand(cle(lo, v), cle(v, hi))
                if self.branch(c):
                    tgt = i
                    break
            if tgt is None:
                return None
            r = self.run_block(flat, fr, tgt)
            if r is not None and r[0] == 'b':
                return None
            return r
        return self.scoped(fr, go)

    def s_try(self, s, fr):
        n = len(fr.temps)
        sc = fr.scope
        depth = len(self.frames)
        hold = len(self.hold)
        try:
            return self.ex(s['b'], fr)
        except CxxThrow as e:
            fr.scope = sc
            del self.hold[hold:]
            for h in s['h']:
                if self.catches(h, e):
                    return self.run_handler(h, e, fr)
            raise

    def catches(self, h, e):
        if h['v'] is None:
            return True
        T = h['t']
        T = T.to if T.k in ('lref', 'rref') else T
        n = T.n or T.s
        n = n.replace('const ', '')
        return self.derives(e.tn, n) or self.derives(e.tn, T.q or '')

    def run_handler(self, h, e, fr):
        def go():
            old = self.env.get('current_exc')
            self.env['current_exc'] = e
            if h['v'] is not None:
                v = h['v']
                T = v['t']
                if T.k in ('lref', 'rref'):
                    c = self.new_cell(T.to, e.val)
                    fr.loc[v['d']] = self.lv(c)
                elif 'd' in v:
                    # caught by value: sliced copy; `throw x;` of it rethrows the handler type
                    fr.loc[v['d']] = self.new_cell(T, self.copy_value(e.val))
            try:
                return self.ex(h['b'], fr)
            finally:
                self.env['current_exc'] = old
        return self.scoped(fr, go)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.steps += 1
        l = e['l']
        if l:
            fr.line = l
        return self._disp[e['k']](e, fr)

    def ev_args(self, es, fr):
        out = []
        h = len(self.hold)
        for a in es:
            v = self.ev(a, fr)
            if not a.get('lv') and isinstance(v, Loc):
                v = self.load(v)
            out.append(v)
            self.hold.append(v)
        del self.hold[h:]
        return out

    def e_const(self, e, fr):
        return bool(e['v']) if e['t'].k == 'bool' else e['v']

    def e_flit(self, e, fr):
        return float(e['v'])

    def e_str(self, e, fr):
        k = id(e)
        c = self.strs.get(k)
        if c is None:
            bs = e['v'].encode('latin-1', 'replace')
            c = self.new_cell(e['t'], Seq([('e', x if x < 128 else x - 256) for x in bs] + [('e', 0)]), 'literal')
            self.strs[k] = c
        return c

    def e_nullptr(self, e, fr):
        return Ptr(None, e['t'])

    def e_full(self, e, fr):
        n = len(fr.temps)
        try:
            v = self.ev(e['e'], fr)
        except CxxThrow:
            self.end_temps(fr, n)
            raise
        self.hold.append(v)
        self.end_temps(fr, n)
        if self.dropped:
            self.gc()
        self.hold.pop()
        return v

    def e_mat(self, e, fr):
        v = self.ev(e['e'], fr)
        if isinstance(v, Loc):
            return v
        c = self.new_cell(e['t'], v)
        if e.get('ext'):
            if fr.scope is not None:
                fr.scope.append(c)
        else:
            fr.temps.append(c)
        return self.lv(c)

    def e_ref(self, e, fr):
        d = e['d']
        l = fr.loc.get(d)
        if l is None:
            if fr.caps is not None and fr.caps.caps is not None and d in fr.caps.caps:
                l = fr.caps.caps[d][0]
            else:
                raise Undecided(f'variable {e["n"]} not bound')
        return self.lv(l)

    def e_gref(self, e, fr):
        return self.lv(self.global_cell(e['g']))

    def global_cell(self, g, var=None, outer=None):
        c = self.globals.get(g)
        if c is not None:
            return c
        G = self.P.glob.get(g)
        if G is None or 'i' not in G:
            if var is not None:
                G = var
            elif G is None:
                h = self.std.global_(self, g)
                if h is not None:
                    c = self.new_cell(None, h)
                    self.globals[g] = c
                    return c
                raise Undecided(f'global {g}')
        c = self.new_cell(G['t'], UNINIT, G['n'])
        self.globals[g] = c
        fr = Frame({'q': 'init of ' + G['n'], 'file': G.get('file', '')})
        fr.line = G['l'][1] if isinstance(G.get('l'), list) else G.get('l', 0)
        if fr.line is None:
            fr.line = 0
        if outer is not None:
            # a static local sees the variables of its function
            fr.this, fr.loc, fr.caps = outer.this, outer.loc, outer.caps
        self.frames.append(fr)
        fr.scope = []
        try:
            if 'i' in G:
                self.init_cell(c, G['i'], fr)
            elif self.is_scalar(G['t']):
                c.v = self.zero_value(G['t'])
            else:
                c.v = self.default_value(G['t'])
        finally:
            self.frames.pop()
        return c

    def e_fref(self, e, fr):
        return FnPtr(e['f'])

    def e_mem(self, e, fr):
        b = self.ev(e['b'], fr)
        if e.get('arrow'):
            b = self.deref(self.rd(b))
        o = self.val(b)
        if isinstance(o, Obj):
            if o.dead:
                self.fail('use-after-free', f'{o.rec}::{e["f"]} accessed after its destruction')
            c = o.f.get(e['p'] + '.' + e['f'])
            if c is None:
                c = o.f.get(e['f'])
            if c is None:
                for k in o.f:
                    if k.rsplit('.', 1)[-1] == e['f']:
                        c = o.f[k]
            if c is None:
                raise Undecided(f'field {e["p"]}.{e["f"]}')
            if self.P.rec.get(o.rec, {}).get('union'):
                self.union_member(o, c)
            return self.lv(c)
        r = self.std.member(self, o, e)
        if r is not None:
            return r
        raise Undecided(f'member {e["f"]} of {type(o).__name__}')

    def union_member(self, o, c):
        """make c the active member: the bytes of the member in use so far, read as c"""
        if c.v is not UNINIT and c.T.k != 'arr':
            for x in o.f.values():
                if x is not c:
                    x.v = UNINIT
            return
        for x in o.f.values():
            if x is c or x.v is UNINIT:
                continue
            if x.T.k == 'arr':
                if self.elem_type(x.T).sz != 1:
                    raise Undecided('union of arrays of wide elements')
                bs = [self.load(ElemLoc(self, x, i)) for i in range(x.T.n)]
            else:
                bs = self.bytes_of(x.v, x.T)
            if all(b is UNINIT for b in bs):
                continue
            x.v = self.seq_fill(x.T.to, x.T.n, False) if x.T.k == 'arr' else UNINIT
            if c.T.k == 'arr':
                if self.elem_type(c.T).sz != 1:
                    raise Undecided('union of arrays of wide elements')
                sg = self.elem_type(c.T).sg
                bs = (bs + [UNINIT] * c.T.n)[:c.T.n]
                c.v = Seq([('e', b if b is UNINIT else wrap(b, 8, sg, self.facts)) for b in bs])
            elif c.T.k in ('int', 'enum', 'bool', 'float'):
                c.v = self.from_bytes((bs + [UNINIT] * c.T.sz)[:c.T.sz], c.T)
            else:
                raise Undecided('union member')
            return

    def e_mref(self, e, fr):
        return FnPtr(e['f'], self.val(self.ev(e['b'], fr)))

    def e_this(self, e, fr):
        if fr.caps is not None and fr.caps.caps is not None and 'this' in fr.caps.caps:
            return Ptr(fr.caps.caps['this'][0], e['t'])
        if fr.this is None:
            raise Undecided('this')
        return Ptr(fr.this, e['t'])

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.loc is None:
                self.fail('null', 'null pointer dereferenced')
            return self.lv(p.loc) if isinstance(p.loc, Cell) else p.loc
        if isinstance(p, (SP, UP)):
            if p.loc is None:
                self.fail('null', 'empty smart pointer dereferenced')
            return self.lv(p.loc)
        if isinstance(p, Obj):
            return p
        raise Undecided(f'dereference of {type(p).__name__}')

    def ptr_elem(self, p, i):
        """p + i"""
        l = p.loc
        if isinstance(l, ElemLoc):
            return Ptr(ElemLoc(self, l.c, add(l.i, i)), p.T)
        if isinstance(l, ByteLoc):
            return Ptr(ByteLoc(self, l.l, add(l.off, i), l.T), p.T)
        if i == 0:
            return p
        if l is None:
            raise Undecided('arithmetic on a null pointer')
        return Ptr(OffLoc(self, l, i), p.T)

    def e_cast(self, e, fr):
        ck = e['ck']
        T = e['t']
        if ck == 'LValueToRValue':
            x = self.ev(e['e'], fr)
            v = self.rd(x, T)
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(e['e'], fr)
        if ck == 'ToVoid':
            v = self.ev(e['e'], fr)
            return None
        if ck == 'IntegralCast':
            v = self.rd(self.ev(e['e'], fr))
            return self.conv_int(v, T)
        if ck == 'IntegralToBoolean':
            return i2b(self.rd(self.ev(e['e'], fr)))
        if ck == 'PointerToBoolean':
            v = self.rd(self.ev(e['e'], fr))
            return v.loc is not None if isinstance(v, Ptr) else True
        if ck == 'FloatingToBoolean':
            v = self.rd(self.ev(e['e'], fr))
            return v != 0.0 if isinstance(v, float) else pred('fnz', v)
        if ck == 'IntegralToFloating':
            v = self.rd(self.ev(e['e'], fr))
            if isinstance(v, (bool, Cond)):
                v = b2i(v)
            return float(v) if isinstance(v, int) and abs(v) < 2 ** 24 else F('i2f', v)
        if ck == 'FloatingCast':
            v = self.rd(self.ev(e['e'], fr))
            return v if isinstance(v, float) or T.w >= self.fwidth(e['e']['t']) else F('cast', v, T.w)
        if ck == 'FloatingToIntegral':
            v = self.rd(self.ev(e['e'], fr))
            if isinstance(v, float):
                return wrap(int(v), T.w, T.sg, self.facts)
            if isinstance(v, F) and v.op == 'i2f':
                lo, hi = self.facts.rng(v.a[0])
                tl, th = self.trange(T)
                if lo >= tl and hi <= th and hi < 2 ** 53:
                    return v.a[0]
            lo, hi = self.trange(T)
            return A(atom('f2i', (v, T.w, T.sg), lo, hi))
        if ck == 'ArrayToPointerDecay':
            l = self.ev(e['e'], fr)
            if not isinstance(l, Loc):
                raise Undecided('array decay')
            return Ptr(ElemLoc(self, l, 0), T)
        if ck == 'NullToPointer':
            return Ptr(None, T)
        if ck in ('BitCast', 'LValueBitCast', 'AddressSpaceConversion'):
            v = self.ev(e['e'], fr)
            if ck == 'LValueBitCast':
                return self.view(v, T)
            v = self.rd(v)
            if isinstance(v, Ptr):
                if v.loc is None:
                    return Ptr(None, T)
                return self.ptr_cast(v, T)
            return v
        if ck == 'IntegralToPointer':
            v = self.rd(self.ev(e['e'], fr))
            if v == 0:
                return Ptr(None, T)
            raise Undecided('integer to pointer')
        if ck == 'Dynamic':
            v = self.rd(self.ev(e['e'], fr))
            if isinstance(v, Ptr):
                if v.loc is None:
                    return v
                o = v.loc
                return v if isinstance(o, Obj) and self.derives(o.rec, T.to.n) else Ptr(None, T)
            if isinstance(v, Obj):
                t = T.n
                if self.derives(v.rec, t):
                    return v
                self.throw_std('std::bad_cast')
        raise Undecided('cast ' + ck)

    def fwidth(self, T):
        return T.w or 64

    def conv_int(self, v, T):
        if T.k == 'bool':
            return v if isinstance(v, (bool, Cond)) else i2b(v)
        if isinstance(v, (bool, Cond)):
            v = b2i(v)
        if not isinstance(v, (int, Lin)):
            raise Undecided(f'integral cast of {type(v).__name__}')
        return wrap(v, T.w, T.sg, self.facts)

    def view(self, l, T):
        if isinstance(l, Obj):
            if T.k == 'rec':
                return l
            raise Undecided('reinterpreted object')
        if l.T is None or (l.T.k == T.k and l.T.w == T.w and l.T.sg == T.sg):
            return l
        if isinstance(l, View):
            l = l.l
            if l.T.k == T.k and l.T.w == T.w and l.T.sg == T.sg:
                return l
        if l.T.k in ('int', 'enum', 'float') and T.k in ('int', 'enum', 'float'):
            return View(self, l, T)
        raise Undecided(f'view of {l.T.s} as {T.s}')

    def ptr_cast(self, p, T):
        to = T.to
        l = p.loc
        if to is None or to.k == 'void':
            return Ptr(l, T)
        if isinstance(l, Obj) or to.k == 'rec' or to.k == 'func':
            return Ptr(l, T)
        lt = l.T
        if lt is None:
            return Ptr(l, T)
        if lt.k in ('int', 'enum', 'float', 'bool') and to.k in ('int', 'enum', 'float', 'bool'):
            if lt.sz == to.sz:
                if lt.k == to.k and lt.sg == to.sg:
                    return Ptr(l, T)
                if isinstance(l, ElemLoc):
                    return Ptr(SignElem(self, l.c, l.i, to), T)
                return Ptr(View(self, l, to), T)
            if to.sz == 1:
                if isinstance(l, ElemLoc):
                    return Ptr(ByteElem(self, l.c, l.i, 0, to), T)
                return Ptr(ByteLoc(self, l, 0, to), T)
            if lt.sz == 1 and isinstance(l, (ElemLoc,)):
                return Ptr(WideLoc(self, l.c, l.i, to), T)
            if lt.sz == 1 and isinstance(l, ByteLoc) and l.off == 0:
                return Ptr(l.l, T)
        return Ptr(l, T)

    def e_call(self, e, fr):
        if 'f' in e:
            ref = self.P.fn[e['f']]
            args = self.ev_args(e['a'], fr)
            return self.call(e['f'], None, args, e, fr=fr)
        f = self.val(self.ev(e['fe'], fr))
        if isinstance(f, Ptr):
            if f.loc is None:
                self.fail('null', 'null function pointer called')
            f = f.loc
        args = self.ev_args(e['a'], fr)
        return self.call_value(f, args, e)

    def e_mcall(self, e, fr):
        b = self.ev(e['b'], fr)
        if e.get('arrow'):
            b = self.deref(self.rd(b))
        if isinstance(b, Obj) and b.dead:
            self.fail('use-after-free', f'{self.P.fn[e["f"]].q} called on a destroyed object')
        if not isinstance(b, (Loc, Obj)):
            c = self.new_cell(e['b']['t'], b)
            fr.temps.append(c)
            b = self.lv(c)
        self.hold.append(b)
        args = self.ev_args(e['a'], fr)
        self.hold.pop()
        return self.call(e['f'], b, args, e, virt=bool(e.get('virt')), fr=fr)

    def e_ocall(self, e, fr):
        if 'f' not in e:
            raise Undecided('operator call')
        ref = self.P.fn[e['f']]
        if e['op'] == '=' and ref.rec is not None:
            # right operand first
            args = self.ev_args(e['a'][1:], fr)
            self.hold.append(args)
            b = self.ev(e['a'][0], fr)
            self.hold.pop()
            args = [b] + args
        else:
            args = self.ev_args(e['a'], fr)
        if ref.rec is not None and not ref.st:
            this = args[0]
            if not isinstance(this, (Loc, Obj)):
                c = self.new_cell(e['a'][0]['t'], this)
                fr.temps.append(c)
                this = self.lv(c)
            if ref.lam:
                return self.call(e['f'], self.val(this), args[1:], e)
            if isinstance(this, Obj) and this.dead:
                self.fail('use-after-free', f'{ref.q} called on a destroyed object')
            return self.call(e['f'], this, args[1:], e, virt=ref.virt, fr=fr)
        return self.call(e['f'], None, args, e, fr=fr)

    def e_ctor(self, e, fr):
        ref = self.P.fn[e['f']]
        T = e['t']
        if e.get('el') and len(e['a']) == 1:
            # guaranteed or permitted elision
            x = self.ev(e['a'][0], fr)
            if isinstance(x, Obj) and e['a'][0].get('lv'):
                # NRVO candidate: the local becomes the result
                for c in (fr.scope or []):
                    if isinstance(c, Cell) and c.v is x:
                        nv = Obj(self, x.T)
                        nv.f, nv.tag, nv.caps = x.f, x.tag, x.caps
                        x.moved = True
                        return nv
                if x in [self.lv(c) for c in fr.temps]:
                    for c in fr.temps:
                        if isinstance(c, Cell) and c.v is x:
                            fr.temps.remove(c)
                            return x
                return self.move_from(x)
            if isinstance(x, Loc):
                return self.move_from(x)
            return x
        if T.k == 'arr':
            et = T.to
            return Seq([('e', self.new_cell(et, self.default_value(et))) for _ in range(T.n)])
        args = self.ev_args(e['a'], fr)
        h = self.override.get(ref.q)
        if h is not None:
            r = h(self, ref, None, args, e)
            if r is not NotImplemented:
                return r
        if ref.own and ref.rec.n in self.P.rec:
            if ref.q.startswith('eipScanner::utils::Logger::') and self.log_noop:
                return self.make_obj(ref.rec)
            if ref.ct in ('copy', 'move') and ref.id not in self.P.body:
                x = self.val(args[0])
                return self.copy_value(x) if ref.ct == 'copy' else self.move_from(x)
            o = self.make_obj(ref.rec, bool(e.get('z')))
            self.run_ctor(o, ref, args, ref.rec)
            return o
        if ref.rec.n in self.P.rec:      # plain C struct
            if ref.ct in ('copy', 'move') and args:
                return self.copy_value(self.val(args[0]))
            return self.make_obj(ref.rec, bool(e.get('z')))
        self.std_seen.add(ref.q)
        return self.std.construct(self, ref, args, e)

    def e_init(self, e, fr):
        T = e['t']
        if T.k == 'arr':
            et = T.to
            out = []
            for x in e['a']:
                v = self.val(self.ev(x, fr))
                out.append(('e', v if self.is_scalar(et) else self.new_cell(et, v)))
            n = T.n - len(out)
            if n > 0:
                if self.is_scalar(et):
                    out.append(('f', self.zero_value(et), n))
                else:
                    for _ in range(n):
                        out.append(('e', self.new_cell(et, self.val(self.ev(e['fill'], fr)) if e.get('fill') else self.default_value(et))))
            return seq_norm(out, self.facts)
        if T.k == 'rec' and T.n in self.P.rec:
            r = self.P.rec[T.n]
            o = self.make_obj(T)
            vals = list(e['a'])
            i = 0
            for b in r['bases']:
                if i < len(vals):
                    self.construct_into(o, vals[i], fr)
                    i += 1
            if r.get('union'):
                return self.make_obj(T, True)
            for f in r['fields']:
                c = o.f[T.n + '.' + f['n']]
                if i < len(vals):
                    self.init_cell(c, vals[i], fr)
                elif 'i' in f:
                    self.init_cell(c, f['i'], fr)
                else:
                    c.v = self.zero_value(f['t'])
                i += 1
            return o
        if T.k == 'rec' and T.q == 'std::array':
            a = e['a']
            if len(a) == 1 and a[0]['k'] == 'init':
                return self.ev_arr_into(a[0], T, fr)
            return self.zero_std_array(T)
        if len(e['a']) == 1:
            return self.val(self.ev(e['a'][0], fr))
        if not e['a']:
            return self.zero_value(T)
        raise Undecided(f'init list of {T.s}')

    def ev_arr_into(self, e, T, fr):
        return self.e_init(e, fr)

    def zero_std_array(self, T):
        return self.seq_fill(T.ta[0], T.ta[1], True)

    def e_zero(self, e, fr):
        return self.zero_value(e['t'])

    def e_stdinit(self, e, fr):
        v = self.val(self.ev(e['e'], fr))
        return v

    def e_lambda(self, e, fr):
        r = self.P.rec.get(e['rec'])
        T = e['t']
        o = Obj(self, T)
        o.rec = e['rec']
        o.tag = {'ops': e['ops'], 'l': e['l'], 'file': fr.file}
        o.caps = {}
        for c in e['caps']:
            if c.get('this'):
                p = self.rd(self.ev(c['i'], fr)) if not c.get('star') else None
                if p is None:
                    o.caps['this'] = (self.copy_value(fr.this), False)
                else:
                    o.caps['this'] = (p.loc if isinstance(p, Ptr) else p, True)
            elif 'd' in c:
                if c['ref']:
                    l = self.ev(c['i'], fr)
                    o.caps[c['d']] = (l, True)
                else:
                    x = self.ev(c['i'], fr)
                    v = self.val(x)
                    if c['i'].get('lv'):
                        v = self.copy_value(v)
                    o.caps[c['d']] = (self.new_cell(c['t'], v, c['n']), False)
        return o

    def e_un(self, e, fr):
        op = e['op']
        T = e['t']
        if op == '&':
            l = self.ev(e['e'], fr)
            if isinstance(l, FnPtr):
                return Ptr(l, T)
            return Ptr(l, T)
        if op == '*':
            return self.deref_e(self.rd(self.ev(e['e'], fr)))
        if op in ('++', '--'):
            l = self.ev(e['e'], fr)
            v = self.rd(l, T)
            d = 1 if op == '++' else -1
            nv = self.ptr_elem(v, d) if isinstance(v, Ptr) else self.arith('+', v, d, T)
            self.store(l, nv)
            return v if e.get('post') else l
        v = self.rd(self.ev(e['e'], fr))
        if op == '!':
            return cnot(v if isinstance(v, (bool, Cond)) else i2b(v))
        if op == '-':
            if isinstance(v, float):
                return -v
            if isinstance(v, F):
                return F('neg', v)
            return wrap(scale(b2i(v) if isinstance(v, (bool, Cond)) else v, -1), T.w, T.sg, self.facts)
        if op == '+':
            return v
        if op == '~':
            return wrap(sub(-1, v), T.w, T.sg, self.facts)
        raise Undecided('unary ' + op)

    def deref_e(self, v):
        if isinstance(v, (Ptr, SP, UP)):
            l = self.deref(v)
            if isinstance(l, ElemLoc) and type(l) is ElemLoc:
                et = self.elem_type(l.c.T) if getattr(l.c, 'T', None) else None
                if et is not None and not self.is_scalar(et):
                    return self.elem_ref(l.c, l.i)
            return l
        raise Undecided(f'* on {type(v).__name__}')

    def quot(self, a, b):
        """truncating quotient; the sign of the dividend is settled first"""
        c = self.facts.const(b)
        if c is not None and c > 1 and isinstance(a, Lin) and self.facts.rng(a)[0] < 0:
            # (the relation is recorded even if it follows from others: quotients are bounded through it)
            self.facts._addle(scale(a, -1) if self.branch(cle(0, a)) else add(a, 1))
        return div(a, b, self.facts)

    def arith(self, op, a, b, T):
        f = self.facts
        if T.k == 'float' or isinstance(a, (F, float)) or isinstance(b, (F, float)):
            if isinstance(a, (int, Lin)):
                a = float(a) if isinstance(a, int) else F('i2f', a)
            if isinstance(b, (int, Lin)):
                b = float(b) if isinstance(b, int) else F('i2f', b)
            if isinstance(a, float) and isinstance(b, float) and op in '+-*/' and not (op == '/' and b == 0):
                r = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
                return r
            return F(op, a, b)
        if isinstance(a, (bool, Cond)):
            a = b2i(a)
        if isinstance(b, (bool, Cond)):
            b = b2i(b)
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            raise Undecided(f'{op} on {type(a).__name__}')
        if op == '+':
            return wrap(norm(add(a, b), f), T.w, T.sg, f)
        if op == '-':
            return wrap(norm(sub(a, b), f), T.w, T.sg, f)
        if op == '*':
            return wrap(mul(a, b, f), T.w, T.sg, f)
        if op in ('/', '%'):
            self.oblige('division', cne(b, 0), 'division by zero')
            q = self.quot(a, b)
            if op == '/':
                return wrap(q, T.w, T.sg, f)
            cb = f.const(b)
            if cb and cb > 0 and cb & (cb - 1) == 0 and isinstance(a, Lin) and f.rng(a)[0] >= 0:
                return bits_join(bits_take(bits_of(a, T.w, f), 0, cb.bit_length() - 1), f)
            return wrap(norm(sub(a, mul(q, b, f)), f), T.w, T.sg, f)
        if op in ('&', '|', '^'):
            w = T.w
            if T.sg:
                # non-negative operands stay non-negative
                la, ha = f.rng(a)
                lb, hb = f.rng(b)
                if la >= 0 and lb >= 0:
                    return bitop(op, a, b, w - 1, f)
            return wrap(bitop(op, wrap(a, w, False, f), wrap(b, w, False, f), w, f), w, T.sg, f)
        if op in ('<<', '>>'):
            k = f.const(b)
            if k is None:
                return A(atom('opaque', ('shift', op, a, b, T.w, T.sg), *self.trange(T)))
            self.oblige('shift', 0 <= k < T.w, lambda: f'shift by {k}')
            if op == '<<':
                return wrap(norm(scale(a, 1 << k), f), T.w, T.sg, f)
            return shr(a, k, f)
        raise Undecided('operator ' + op)

    def e_bin(self, e, fr):
        op = e['op']
        if op == '&&':
            if not self.truth(self.rd(self.ev(e['a'], fr))):
                return False
            return self.rd(self.ev(e['b'], fr))
        if op == '||':
            if self.truth(self.rd(self.ev(e['a'], fr))):
                return True
            return self.rd(self.ev(e['b'], fr))
        if op == ',':
            self.ev(e['a'], fr)
            return self.ev(e['b'], fr)
        if op == '=':
            v = self.rd(self.ev(e['b'], fr))
            l = self.ev(e['a'], fr)
            if isinstance(v, Obj):
                self.assign(l, v)
            else:
                self.store(l, v)
            return l
        a = self.rd(self.ev(e['a'], fr))
        self.hold.append(a)
        b = self.rd(self.ev(e['b'], fr))
        self.hold.pop()
        return self.binop(op, a, b, e['t'])

    def binop(self, op, a, b, T):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                return self.ptr_elem(a, b) if isinstance(a, Ptr) else self.ptr_elem(b, a)
            if op == '-':
                if isinstance(b, Ptr):
                    if isinstance(a.loc, ElemLoc) and isinstance(b.loc, ElemLoc) and a.loc.c is b.loc.c:
                        return sub(a.loc.i, b.loc.i)
                    raise Undecided('pointer difference')
                return self.ptr_elem(a, scale(b, -1))
            if op in ('==', '!='):
                c = self.ptr_eq(a, b)
                return c if op == '==' else cnot(c)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.loc, ElemLoc) and isinstance(b.loc, ElemLoc) and a.loc.c is b.loc.c:
                a, b = a.loc.i, b.loc.i
            else:
                raise Undecided('pointer comparison')
        if op in ('==', '!='):
            c = self.eq_values(a, b)
            return c if op == '==' else cnot(c)
        if op == '<':
            return self.lt_values(a, b)
        if op == '>':
            return self.lt_values(b, a)
        if op in ('<=', '>='):
            if isinstance(a, (F, float)) or isinstance(b, (F, float)):
                if isinstance(a, float) and isinstance(b, float):
                    return a <= b if op == '<=' else a >= b
                return pred('fle', a, b) if op == '<=' else pred('fle', b, a)
            return cnot(self.lt_values(b, a)) if op == '<=' else cnot(self.lt_values(a, b))
        return self.arith(op, a, b, T)

    def e_cassign(self, e, fr):
        b = self.rd(self.ev(e['b'], fr))
        l = self.ev(e['a'], fr)
        a = self.rd(l, e['a']['t'])
        op = e['op']
        LT = e['a']['t']
        if isinstance(a, Ptr):
            v = self.ptr_elem(a, b if op == '+' else scale(b, -1))
        else:
            CT, CLT = e['ct'], e['clt']
            if CLT.k == 'float' and isinstance(a, (int, Lin)):
                a = F('i2f', a) if isinstance(a, Lin) else float(a)
            elif CLT.k == 'int':
                a = self.conv_int(a, CLT)
            v = self.arith(op, a, b, CT)
            if LT.k in ('int', 'enum', 'bool'):
                if isinstance(v, (F, float)):
                    if isinstance(v, float):
                        v = wrap(int(v), LT.w, LT.sg, self.facts)
                    else:
                        v = A(atom('f2i', (v, LT.w, LT.sg), *self.trange(LT)))
                else:
                    v = self.conv_int(v, LT)
            elif LT.k == 'float' and isinstance(v, F) and LT.w < (CT.w or 0):
                v = F('cast', v, LT.w)
        self.store(l, v)
        return l

    def e_cond(self, e, fr):
        if self.truth(self.rd(self.ev(e['c'], fr))):
            return self.ev(e['a'], fr)
        return self.ev(e['b'], fr)

    def e_idx(self, e, fr):
        b = self.rd(self.ev(e['a'], fr))
        i = self.rd(self.ev(e['b'], fr))
        if isinstance(i, Ptr):
            b, i = i, b
        if isinstance(b, Ptr):
            return self.deref_e(self.ptr_elem(b, i))
        raise Undecided('subscript')

    def e_throw(self, e, fr):
        if e['e'] is None:
            cur = self.env.get('current_exc')
            if cur is None:
                raise PathEnd('terminate', 'rethrow with no exception')
            raise cur
        v = self.val(self.ev(e['e'], fr))
        T = e['e']['t']
        x = CxxThrow((T.q if T.k == 'rec' and not T.own else (T.n or T.s)).replace('const ', ''), v)
        x.site = self.where_repo()
        raise x

    def e_new(self, e, fr):
        T = e['at']
        if e.get('n'):
            n = self.rd(self.ev(e['n'], fr))
            AT = e['t']
            c = self.new_cell(_ArrT(T), Seq([('f', UNINIT if not e.get('i') else self.zero_value(T), n)]) if self.is_scalar(T) else None)
            if c.v is None:
                raise Undecided('array new of objects')
            c.v = seq_norm(c.v.segs, self.facts)
            return Ptr(ElemLoc(self, c, 0), AT)
        c = self.new_cell(T, UNINIT)
        if e.get('i'):
            self.init_cell(c, e['i'], fr)
        elif not self.is_scalar(T):
            c.v = self.default_value(T)
        return Ptr(self.lv(c), e['t'])

    def e_delete(self, e, fr):
        v = self.rd(self.ev(e['e'], fr))
        if isinstance(v, Ptr) and v.loc is not None:
            l = v.loc
            if isinstance(l, ElemLoc):
                l = l.c
            if l.dead:
                self.fail('use-after-free', 'deleted twice')
            self.destroy_cell(l)
        return None

    def e_stmtexpr(self, e, fr):
        raise Undecided('statement expression')

    def e_arrcopy(self, e, fr):
        return self.copy_value(self.val(self.ev(e['e'], fr)))

    def e_complit(self, e, fr):
        return self.ev(e['e'], fr)

    def e_nop(self, e, fr):
        return None

    def e_unknown(self, e, fr):
        raise Undecided('expression ' + e.get('w', ''))


class _ArrT:
    """type of a heap array"""

    def __init__(self, to):
        self.to, self.k, self.s, self.ta, self.n, self.q, self.w, self.sg = to, 'arr', to.s + '[]', None, None, None, None, False


class OffLoc(Loc):
    """an address past a scalar: any access is out of bounds"""
    __slots__ = ('I', 'l', 'off')
    dead = False
    T = None

    def __init__(self, I, l, off):
        self.I, self.l, self.off = I, l, off

    def get(self):
        self.I.fail('bounds', 'access past a single object')

    def set(self, v):
        self.I.fail('bounds', 'access past a single object')


class SignElem(ElemLoc):
    """element of a byte sequence seen with another signedness"""
    __slots__ = ('_t',)

    def __init__(self, I, c, i, T):
        ElemLoc.__init__(self, I, c, i)
        self._t = T

    @property
    def T(self):
        return self._t

    def get(self):
        v = ElemLoc.get(self)
        return v if v is UNINIT else self.I.reinterpret(v, self.I.elem_type(self.c.T), self._t)

    def set(self, v):
        ElemLoc.set(self, self.I.reinterpret(v, self._t, self.I.elem_type(self.c.T)))


class ByteElem(Loc):
    """byte access into a sequence of wider scalars"""
    __slots__ = ('I', 'c', 'i', 'b', 'T')
    dead = False

    def __init__(self, I, c, i, b, T):
        self.I, self.c, self.i, self.b, self.T = I, c, i, b, T

    def get(self):
        et = self.I.elem_type(self.c.T)
        v = self.I.seq_get(self.c, self.i)
        return self.I.bytes_of(v, et)[self.b]

    def set(self, v):
        raise Undecided('byte store into wide elements')


class WideLoc(Loc):
    """wider scalar at a position of a byte sequence"""
    __slots__ = ('I', 'c', 'i', 'T')
    dead = False

    def __init__(self, I, c, i, T):
        self.I, self.c, self.i, self.T = I, c, i, T

    def get(self):
        return self.I.from_bytes([self.I.seq_get(self.c, add(self.i, k)) for k in range(self.T.sz)], self.T)

    def set(self, v):
        for k, b in enumerate(self.I.bytes_of(v, self.T)):
            self.I.seq_set(self.c, add(self.i, k), b)
