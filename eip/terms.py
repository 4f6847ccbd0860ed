"""Value domain of the analyser: linear forms over interned atoms, bit slices, float terms, conditions.

Nothing here executes the analysed program; these are the abstract values the interpreter computes with.
An integer value is a Python int or a Lin; a boolean is a Python bool or a Cond."""
import math, random, struct
from fractions import Fraction

INF = float('inf')


_rd = [0]


class Atom:
    __slots__ = ('kind', 'args', 'lo', 'hi', 'id')

    def __repr__(self):
        a = self.args
        if self.kind == 'sym':
            return str(a[0])
        _rd[0] += 1
        try:
            return self.text(a) if _rd[0] < 4 else f'@{self.id}'
        finally:
            _rd[0] -= 1

    def text(self, a):
        if self.kind == 'elem':
            return f'{a[0].name}[{a[1]!r}]'
        if self.kind == 'len':
            return f'|{a[0].name}|'
        if self.kind == 'sl':
            return f'bits({a[0]!r},{a[1]}+{a[2]})'
        return f'{self.kind}({",".join(map(repr, a))})'


_atoms = {}
_alist = []
_fm_memo = {}


def atom(kind, args, lo, hi):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi, a.id = kind, args, lo, hi, len(_alist)
        _atoms[key] = a
        _alist.append(a)
    return a


def fresh_space():
    _atoms.clear()
    _alist.clear()
    _fm_memo.clear()


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((a.id, k) for a, k in self.t)))
        return self._h

    def __repr__(self):
        s = '+'.join((f'{k}*' if k != 1 else '') + (repr(a) if len(self.t) < 5 or a.kind == 'sym' else f'@{a.id}') for a, k in self.t)
        return f'({s}{self.c:+d})' if self.c else (s if len(self.t) == 1 else f'({s})')


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    return Lin(c, t) if t else c


def A(a):
    return Lin(0, ((a, 1),))


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(a + b.c, b.t) if a else b
    if isinstance(b, int):
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(a.c + b.c, d)


def scale(a, k):
    if k == 0:
        return 0
    if isinstance(a, int):
        return a * k
    return Lin(a.c * k, tuple((x, y * k) for x, y in a.t))


def linmap(a, f):
    return f(a) if isinstance(a, int) else mk(f(a.c), {x: f(k) for x, k in a.t})


def sub(a, b):
    return add(a, scale(b, -1))


def sym(name, lo, hi):
    return A(atom('sym', (name, lo, hi), lo, hi))


class Arr:
    """A symbolic array: contents unknown, elements within [lo,hi]."""
    __slots__ = ('name', 'lo', 'hi', 'maxlen', 'id')
    _n = 0

    def __init__(self, name, lo=0, hi=255, maxlen=2 ** 31 - 1):
        self.name, self.lo, self.hi, self.maxlen = name, lo, hi, maxlen
        Arr._n += 1
        self.id = Arr._n

    def __repr__(self):
        return self.name if isinstance(self.name, str) else str(self.name)


_arrs = {}


def arr(name, lo=0, hi=255, maxlen=2 ** 31 - 1):
    k = (name, lo, hi, maxlen)
    if k not in _arrs:
        _arrs[k] = Arr(name, lo, hi, maxlen)
    return _arrs[k]


rebase = {}      # array seen with the other signedness -> the array itself


def elem(a, i):
    b = rebase.get(a)
    if b is not None:
        return resign(elem(b, i), a, Facts())
    return A(atom('elem', (a, i), a.lo, a.hi))


def resign(v, a, facts):
    w = (a.hi - a.lo).bit_length()
    return wrap(v, w, a.lo < 0, facts)


def length(a):
    return A(atom('len', (rebase.get(a, a),), 0, a.maxlen))


# ---------------------------------------------------------------- conditions
class Cond:
    """op: le(lin<=0) eq(lin==0) ne and or"""
    __slots__ = ('op', 'a', '_h')

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Cond) and self.op == o.op and self.a == o.a

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a))
        return self._h

    def __repr__(self):
        if self.op == 'le':
            return f'{self.a!r}<=0'
        if self.op == 'eq':
            return f'{self.a!r}==0'
        if self.op == 'ne':
            return f'{self.a!r}!=0'
        return '(' + f' {self.op} '.join(map(repr, self.a)) + ')'


def _sgn_canon(l):
    if isinstance(l, Lin) and l.t[0][1] < 0:
        return scale(l, -1)
    return l


def le0(l):
    if isinstance(l, int):
        return l <= 0
    g = 0
    for _, k in l.t:
        g = math.gcd(g, k)
    if g > 1:
        l = Lin(-((-l.c) // g), tuple((x, k // g) for x, k in l.t))
    return Cond('le', l)


def eq0(l):
    if isinstance(l, int):
        return l == 0
    g = 0
    for _, k in l.t:
        g = math.gcd(g, k)
    if l.c % g:
        return False
    if g > 1:
        l = Lin(l.c // g, tuple((x, k // g) for x, k in l.t))
    if len(l.t) > 1:
        r = split_eq(l)
        if r is not None:
            return r
    return Cond('eq', _sgn_canon(l))


def split_eq(l):
    """lin == 0 where lin = sum of disjoint bit fields - const: one equation per field."""
    if any(k < 0 for _, k in l.t):
        if any(k > 0 for _, k in l.t):
            return None
        l = scale(l, -1)
    v = -l.c
    if not all(a.lo == 0 and (k & (k - 1)) == 0 for a, k in l.t):
        return None
    ts = sorted(((k.bit_length() - 1, a) for a, k in l.t), key=lambda x: (x[0], x[1].id))
    end = 0
    for p, a in ts:
        if p < end or a.hi == INF:
            return None
        end = p + int(a.hi).bit_length()
    if v < 0:
        return False
    cs = []
    for i, (p, a) in enumerate(ts):
        nxt = ts[i + 1][0] if i + 1 < len(ts) else None
        f = (v >> p) if nxt is None else ((v >> p) & ((1 << (nxt - p)) - 1))
        if i == 0 and v & ((1 << p) - 1):
            return False
        if f > a.hi:
            return False
        cs.append(Cond('eq', Lin(-f, ((a, 1),))))
    return cand(*cs)


def ne0(l):
    return cnot(eq0(l))


def cle(a, b):
    return le0(sub(a, b))


def clt(a, b):
    return le0(add(sub(a, b), 1))


def ceq(a, b):
    return eq0(sub(a, b))


def cne(a, b):
    return ne0(sub(a, b))


def cnot(c):
    if c is True or c is False:
        return not c
    if c.op == 'le':
        return le0(add(scale(c.a, -1), 1))
    if c.op == 'eq':
        l = c.a
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:   # a 0/1 atom
            a, k = l.t[0]
            if a.lo == 0 and a.hi == 1:
                v = -l.c * k
                return Cond('eq', Lin(-(1 - v), ((a, 1),)))
        return Cond('ne', c.a)
    if c.op == 'ne':
        return Cond('eq', c.a)
    if c.op == 'and':
        return cor(*[cnot(x) for x in c.a])
    return cand(*[cnot(x) for x in c.a])


def cand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.op == 'and':
            out += [x for x in c.a if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c.op == 'or':
            out += [x for x in c.a if x not in out]
        elif c not in out:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else Cond('or', tuple(out))


def pred(kind, *args):
    """an opaque boolean"""
    return Cond('eq', Lin(-1, ((atom('p:' + kind, args, 0, 1), 1),)))


def b2i(c):
    if c is True or c is False:
        return int(c)
    if c.op == 'eq' and len(c.a.t) == 1:
        a, k = c.a.t[0]
        if a.lo == 0 and a.hi == 1:
            v = -c.a.c * k
            return A(a) if v == 1 else sub(1, A(a))
    return A(atom('ite', (c,), 0, 1))


def i2b(l):
    if isinstance(l, bool):
        return l
    if isinstance(l, int):
        return l != 0
    if len(l.t) == 1 and l.c == 0 and l.t[0][0].kind == 'ite':
        return l.t[0][0].args[0]
    return ne0(l)


# ---------------------------------------------------------------- floats
class F:
    """a float term; op 'sym','i2f','frombits','neg','+','-','*','/','cast','call'"""
    __slots__ = ('op', 'a', '_h')

    def __init__(self, op, *a):
        self.op, self.a = op, a
        self._h = None

    def __eq__(self, o):
        return isinstance(o, F) and self.op == o.op and self.a == o.a

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a))
        return self._h

    def __repr__(self):
        return f'{self.op}({",".join(map(repr, self.a))})'


# ---------------------------------------------------------------- facts
class Facts:
    def __init__(self):
        self.iv = {}
        self.le = []     # Lin <= 0
        self.ne = []     # Lin != 0 (canonical sign)
        self.ors = []
        self.all = []    # conditions as assumed, in order
        self.bad = False
        self.prop = False

    def copy(self):
        f = Facts()
        f.iv, f.le, f.ne, f.ors, f.all, f.bad = dict(self.iv), list(self.le), list(self.ne), list(self.ors), list(self.all), self.bad
        return f

    def arng(self, a):
        r = self.iv.get(a)
        if r:
            return r
        if a.kind == 'sl':
            s = a.args[0]
            lo, hi = self.rng(s)
            if lo == hi:
                v = (lo >> a.args[1]) & ((1 << a.args[2]) - 1)
                return v, v
            if lo >= 0 and hi != INF and (hi >> a.args[1]) < (1 << a.args[2]):
                return lo >> a.args[1], hi >> a.args[1]
        elif a.kind == 'ite':
            d = self.decide(a.args[0])
            if d is not None:
                return int(d), int(d)
        elif a.kind == 'mul':
            (l1, h1), (l2, h2) = self.rng(a.args[0]), self.rng(a.args[1])
            if INF not in (h1, h2) and -INF not in (l1, l2):
                p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                return min(p), max(p)
        elif a.kind == 'mod':
            lo, hi = self.rng(a.args[0])
            if lo >= 0 and hi < (1 << a.args[1]):
                return lo, hi
        elif a.kind == 'sgn':
            lo, hi = self.rng(a.args[0])
            if hi < (1 << (a.args[1] - 1)):
                return lo, hi
            if lo == hi:
                v = lo - (1 << a.args[1])
                return v, v
        elif a.kind == 'div':
            lo, hi = self.rng(a.args[0])
            c = a.args[1]
            if lo < 0 and isinstance(c, int) and self.le and self.nonneg(a.args[0]):
                lo = 0
            if lo >= 0 and isinstance(c, int) and c > 0 and hi != INF:
                return lo // c, hi // c
        elif a.kind == 'min':
            rs = [self.rng(x) for x in a.args]
            return min(r[0] for r in rs), min(r[1] for r in rs)
        elif a.kind == 'max':
            rs = [self.rng(x) for x in a.args]
            return max(r[0] for r in rs), max(r[1] for r in rs)
        return a.lo, a.hi

    def rng(self, l):
        if isinstance(l, int):
            return l, l
        lo = hi = l.c
        for a, k in l.t:
            x, y = self.arng(a)
            if k < 0:
                x, y = y, x
            lo += k * x
            hi += k * y
        return lo, hi

    def const(self, l):
        if isinstance(l, int):
            return int(l)
        lo, hi = self.rng(l)
        if lo == hi:
            return lo
        if len(self.le) and len(l.t) <= 4 and lo != -INF and hi != INF:
            # pinned by a relation?  look for a matching equality
            for e in self.le:
                if len(e.t) == len(l.t) and all(x[0] is y[0] for x, y in zip(e.t, l.t)):
                    k = e.t[0][1] * 1.0 / l.t[0][1]
                    if all(x[1] == k * y[1] for x, y in zip(e.t, l.t)) and k in (1, -1):
                        v = l.c - int(k) * e.c
                        if self.decide(ceq(l, v)) is True:
                            return v
        return None

    def decide(self, c, deep=True):
        if c is True or c is False:
            return c
        if c.op == 'le':
            lo, hi = self.rng(c.a)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            if deep and self.relevant(c.a):
                if self.infeasible_with(add(scale(c.a, -1), 1)):
                    return True
                if self.infeasible_with(c.a):
                    return False
            return None
        if c.op in ('eq', 'ne'):
            r = self._deq(c.a, deep)
            return r if r is None or c.op == 'eq' else not r
        if c.op == 'and':
            r = True
            for x in c.a:
                d = self.decide(x, deep)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        r = False
        for x in c.a:
            d = self.decide(x, deep)
            if d is True:
                return True
            if d is None:
                r = None
        if r is None and self.ors:
            s = set(c.a)
            for o in self.ors:
                if set(o.a) <= s:
                    return True
        return r

    def _deq(self, l, deep):
        lo, hi = self.rng(l)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if l in self.ne or scale(l, -1) in self.ne:
            return False
        if deep and self.relevant(l):
            if self.infeasible_with(l) or self.infeasible_with(scale(l, -1)):
                if self.infeasible_with(add(l, 1)) and self.infeasible_with(add(scale(l, -1), 1)):
                    return True
                # l<=0 infeasible -> l>0 -> not equal
                return False
            if self.infeasible_with(add(l, 1)) and self.infeasible_with(add(scale(l, -1), 1)):
                return True
        return None

    def relevant(self, l):
        at = {a for a, _ in l.t}
        for e in self.le:
            for a, _ in e.t:
                if a in at:
                    return True
        return any(a.kind in ('min', 'max', 'div') for a in at)

    def infeasible_with(self, extra):
        """is {facts, extra<=0} infeasible (over the rationals)?"""
        if isinstance(extra, int):
            return extra > 0
        lo, _ = self.rng(extra)
        if lo > 0:
            return True
        cons = [extra]
        at = {a for a, _ in extra.t}
        used = set()
        changed = True
        while changed and len(cons) < 40:
            changed = False
            for i, e in enumerate(self.le):
                if i in used:
                    continue
                if any(a in at for a, _ in e.t):
                    used.add(i)
                    cons.append(e)
                    for a, _ in e.t:
                        at.add(a)
                    changed = True
            for a in list(at):
                for e in self.defs(a):
                    if e not in cons:
                        cons.append(e)
                        for x, _ in e.t:
                            if x not in at:
                                at.add(x)
                                changed = True
        cons = list(cons)
        for a in at:
            lo, hi = self.arng(a)
            if lo != -INF:
                cons.append(Lin(lo, ((a, -1),)))
            if hi != INF:
                cons.append(Lin(-hi, ((a, 1),)))
        key = frozenset(cons)
        r = _fm_memo.get(key)
        if r is None:
            r = _fm_memo[key] = fm_infeasible(cons)
        return r

    def nonneg(self, s):
        """is a recorded relation at least as strong as 0 <= s?"""
        m = scale(s, -1)
        return any(e.t == m.t and e.c >= m.c for e in self.le)

    def defs(self, a):
        """linear consequences of an atom's definition"""
        k = a.kind
        if k == 'div' and isinstance(a.args[1], int) and a.args[1] > 0:
            s, c = a.args
            if isinstance(s, int):
                return []
            lo, _ = self.rng(s)
            if lo >= 0 or self.nonneg(s):
                q = A(a)
                return [x for x in (sub(scale(q, c), s), sub(sub(s, scale(q, c)), c - 1), scale(q, -1)) if not isinstance(x, int)]
        elif k == 'sl':
            s, o, w = a.args
            lo, hi = self.rng(s)
            if lo >= 0 and hi < (1 << (o + w)) and not isinstance(s, int) and hi < 2 ** 40:
                c = 1 << o
                q = A(a)
                return [x for x in (sub(scale(q, c), s), sub(sub(s, scale(q, c)), c - 1)) if not isinstance(x, int)]
        elif k == 'min':
            return [x for x in (sub(A(a), y) for y in a.args) if not isinstance(x, int)]
        elif k == 'max':
            return [x for x in (sub(y, A(a)) for y in a.args) if not isinstance(x, int)]
        return []

    def assume(self, c):
        """returns False when the facts become contradictory"""
        if c is True:
            return True
        if c is False:
            self.bad = True
            return False
        d = self.decide(c)
        if d is True:
            return True
        self.all.append(c)
        if d is False:
            self.bad = True
            return False
        self._add(c)
        # re-examine disjunctions
        if self.ors:
            keep = []
            todo = self.ors
            self.ors = []
            for o in todo:
                rest = [x for x in o.a if self.decide(x) is not False]
                if any(self.decide(x) is True for x in rest):
                    continue
                if not rest:
                    self.bad = True
                    return False
                if len(rest) == 1:
                    self._add(rest[0])
                else:
                    keep.append(Cond('or', tuple(rest)))
            self.ors += keep
        if self.bad:
            return False
        return True

    def _add(self, c):
        if c is True:
            return
        if c is False:
            self.bad = True
            return
        if c.op == 'le':
            self._addle(c.a)
        elif c.op == 'eq':
            l = c.a
            if len(l.t) == 1:
                a, k = l.t[0]
                if l.c % k:
                    self.bad = True
                    return
                v = -l.c // k
                self._pin(a, v, v)
            else:
                self._addle(l)
                self._addle(scale(l, -1))
        elif c.op == 'ne':
            l = c.a
            if len(l.t) == 1 and abs(l.t[0][1]) == 1:
                a, k = l.t[0]
                v = -l.c * k
                lo, hi = self.arng(a)
                if lo == v:
                    self._pin(a, lo + 1, hi)
                elif hi == v:
                    self._pin(a, lo, hi - 1)
                else:
                    self.ne.append(l)
            else:
                lo, hi = self.rng(l)
                if lo == 0:
                    self._addle(add(scale(l, -1), 1))
                elif hi == 0:
                    self._addle(add(l, 1))
                else:
                    self.ne.append(l)
        elif c.op == 'and':
            for x in c.a:
                self._add(x)
        else:
            self.ors.append(c)

    def _addle(self, l):
        if isinstance(l, int):
            if l > 0:
                self.bad = True
            return
        if len(l.t) == 1:
            a, k = l.t[0]
            lo, hi = self.arng(a)
            if k > 0:
                self._pin(a, lo, min(hi, (-l.c) // k))
            else:
                self._pin(a, max(lo, math.ceil(Fraction(l.c, -k))), hi)
        else:
            if l not in self.le:
                self.le.append(l)
                self._propagate(l)
                if len(l.t) > 2 or not self.prop:
                    return
                for e in list(self.le):
                    if e is not l:
                        self._propagate(e)

    def _propagate(self, l):
        """bounds of single atoms implied by one inequality"""
        bs = [self.arng(a) for a, _ in l.t]
        lows = [k * (b[0] if k > 0 else b[1]) for (a, k), b in zip(l.t, bs)]
        if any(x == -INF or x == INF for x in lows):
            return
        tot = l.c + sum(lows)
        self.prop = False
        for (a, k), b, lw in zip(l.t, bs, lows):
            room = -(tot - lw)      # k*a <= room
            if k > 0:
                h = room // k
                if h < b[1]:
                    self._pin(a, b[0], h)
                    self.prop = True
            else:
                g = -(room // -k)    # a >= room/k, rounded up
                if g > b[0]:
                    self._pin(a, g, b[1])
                    self.prop = True

    def _pin(self, a, lo, hi):
        l0, h0 = self.arng(a)
        lo, hi = max(lo, l0), min(hi, h0)
        # disequalities at the ends
        ch = True
        while ch and lo <= hi:
            ch = False
            for e in self.ne:
                if len(e.t) == 1 and e.t[0][0] is a:
                    v = -e.c * e.t[0][1]
                    if v == lo:
                        lo += 1
                        ch = True
                    elif v == hi:
                        hi -= 1
                        ch = True
        if lo > hi:
            self.bad = True
        self.iv[a] = (lo, hi)
        if a.kind == 'ite' and lo == hi:
            self._add(a.args[0] if lo else cnot(a.args[0]))
        if a.kind == 'sl' and (lo > l0 or hi < h0) and isinstance(a.args[0], Lin):
            s, o, w = a.args
            x, y = self.rng(s)
            if x >= 0:
                if y < (1 << (o + w)):
                    self._addle(sub(s, ((hi + 1) << o) - 1))
                if lo > 0:
                    self._addle(sub(lo << o, s))
            # enclosing and enclosed fields of the same source
            for b in [b for b in self.iv if b.kind == 'sl' and b is not a and b.args[0] is s or b.kind == 'sl' and b is not a and b.args[0] == s]:
                o2, w2 = b.args[1:]
                bl, bh = self.iv[b]
                if o2 <= o and o2 + w2 >= o + w:
                    if lo << (o - o2) > bl:
                        self._pin(b, lo << (o - o2), bh)
                    if (bh >> (o - o2)) < hi:
                        self._pin(a, lo, bh >> (o - o2))
                elif o <= o2 and o + w >= o2 + w2:
                    if (hi >> (o2 - o)) < bh:
                        self._pin(b, bl, hi >> (o2 - o))
                    if bl << (o2 - o) > lo:
                        self._pin(a, bl << (o2 - o), hi)
        if lo == hi and a.kind == 'sl':
            # bit fields of the same source with a disagreeing pinned value
            s, o, w = a.args
            if isinstance(s, Lin) and len(s.t) == 1 and s.c == 0 and s.t[0][1] == 1:
                r = self.iv.get(s.t[0][0])
                if r and r[0] == r[1] and ((r[0] >> o) & ((1 << w) - 1)) != lo:
                    self.bad = True

    def within(self, l, lo, hi):
        return self.decide(cle(lo, l)) is True and self.decide(cle(l, hi)) is True

    def simp(self, l):
        """re-simplify modular atoms that the facts now show to be exact"""
        if isinstance(l, int):
            return l
        out = l.c
        ch = False
        for a, k in l.t:
            v = A(a)
            if a.kind == 'mod':
                s = self.simp(a.args[0])
                lo, hi = self.rng(s)
                if lo >= 0 and hi < (1 << a.args[1]) or self.within(s, 0, (1 << a.args[1]) - 1):
                    v = s
                    ch = True
            elif a.kind == 'sgn':
                s = self.simp(a.args[0])
                lo, hi = self.rng(s)
                if lo >= 0 and hi < (1 << (a.args[1] - 1)) or self.within(s, 0, (1 << (a.args[1] - 1)) - 1):
                    v = s
                    ch = True
            elif a.kind == 'sl':
                s = self.simp(a.args[0])
                lo, hi = self.rng(s)
                if a.args[1] == 0 and (lo >= 0 and hi < (1 << a.args[2]) or self.within(s, 0, (1 << a.args[2]) - 1)):
                    v = s
                    ch = True
                elif s != a.args[0]:
                    v = bits_join(bits_take(bits_of(s, a.args[1] + a.args[2], self), a.args[1], a.args[2]), self)
                    ch = True
                elif lo >= 0 and hi != INF and int(hi).bit_length() < a.args[1] + a.args[2]:
                    # the value is known not to reach the upper bits of the slice
                    n = max(0, int(hi).bit_length() - a.args[1])
                    v = A(atom('sl', (s, a.args[1], n), 0, (1 << n) - 1)) if n else 0
                    ch = True
            elif a.kind == 'ite':
                d = self.decide(a.args[0])
                if d is not None:
                    v = int(d)
                    ch = True
            elif a.kind in ('elem',) and isinstance(a.args[1], Lin):
                i = self.const(a.args[1])
                if i is not None:
                    v = elem(a.args[0], i)
                    ch = True
            if not isinstance(v, int):
                cv = self.const(v)
                if cv is not None:
                    v = cv
                    ch = True
            out = add(out, scale(v, k))
        return norm(out, self) if ch else l


_static = Facts()


def fm_infeasible(cons, cap=300):
    """Fourier-Motzkin over the rationals on sum<=0 constraints. True when infeasible."""
    cs = []
    for l in cons:
        if isinstance(l, int):
            if l > 0:
                return True
            continue
        cs.append((l.c, dict(l.t)))
    steps = 0
    while True:
        vars_ = {}
        for c, d in cs:
            for a, k in d.items():
                p = vars_.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not vars_:
            return any(c > 0 for c, _ in cs)
        v = min(vars_, key=lambda a: (vars_[a][0] * vars_[a][1], a.id))
        pos = [x for x in cs if x[1].get(v, 0) > 0]
        neg = [x for x in cs if x[1].get(v, 0) < 0]
        rest = [x for x in cs if v not in x[1]]
        if len(pos) * len(neg) + len(rest) > cap:
            return False
        seen = set()
        out = []
        for x in rest:
            out.append(x)
        for c1, d1 in pos:
            for c2, d2 in neg:
                k1, k2 = d1[v], -d2[v]
                g = math.gcd(k1, k2)
                k1, k2 = k1 // g, k2 // g
                d = {}
                for a, k in d1.items():
                    d[a] = d.get(a, 0) + k * k2
                for a, k in d2.items():
                    d[a] = d.get(a, 0) + k * k1
                d = {a: k for a, k in d.items() if k}
                c = c1 * k2 + c2 * k1
                if not d:
                    if c > 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = math.gcd(g, k)
                if g > 1:
                    d = {a: k // g for a, k in d.items()}
                    c = -((-c) // g)     # tighten for integers: sum <= -c  => ceil
                key = (c, frozenset((a.id, k) for a, k in d.items()))
                if key in seen:
                    continue
                seen.add(key)
                out.append((c, d))
        cs = out
        steps += 1


# ---------------------------------------------------------------- bits
def bits_of(l, w, facts):
    """low w bits of the (two's complement) integer l as pieces [(src, off, width)], low first; src int -> constant"""
    if isinstance(l, int):
        return [(l & ((1 << w) - 1), 0, w)] if w else []
    if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
        a = l.t[0][0]
        if a.kind == 'sl':
            s, o, n = a.args
            if n >= w:
                return [(s, o, w)]
            return [(s, o, n), (0, 0, w - n)]
        if a.kind == 'sgn' and w <= a.args[1]:
            return bits_of(a.args[0], w, facts)
        if a.kind == 'mod' and w <= a.args[1]:
            return bits_of(a.args[0], w, facts)
        lo, hi = facts.rng(l)
        if lo >= 0 and hi != INF:
            n = max(1, int(hi).bit_length())
            n = natural_width(a, n)
            if n < w:
                return [(l, 0, n), (0, 0, w - n)]
        return [(l, 0, w)]
    # a sum of disjoint fields?
    if all(k > 0 and (k & (k - 1)) == 0 for _, k in l.t) and l.c >= 0:
        ts = []
        ok = True
        for a, k in l.t:
            lo, hi = facts.arng(a)
            if lo < 0 or hi == INF:
                ok = False
                break
            n = natural_width(a, max(1, int(hi).bit_length()))
            ts.append((k.bit_length() - 1, n, a))
        if ok:
            ts.sort(key=lambda x: (x[0], x[2].id))
            out, pos, c = [], 0, l.c
            for p, n, a in ts:
                if p < pos:
                    ok = False
                    break
                if p > pos:
                    out.append(((c >> pos) & ((1 << (p - pos)) - 1), 0, p - pos))
                if (c >> p) & ((1 << n) - 1):
                    ok = False
                    break
                if a.kind == 'sl':
                    s, o, m = a.args
                    out.append((s, o, min(n, m)))
                    if n > m:
                        out.append((0, 0, n - m))
                else:
                    out.append((A(a), 0, n))
                pos = p + n
            if ok:
                tot = pos
                if tot < w:
                    out.append(((c >> tot) & ((1 << (w - tot)) - 1), 0, w - tot))
                return bits_take(out, 0, w)
    return [(l, 0, w)]


def natural_width(a, n):
    """fields keep the width of their static range, so that slices line up"""
    if a.hi != INF and a.lo >= 0:
        return max(n, int(a.hi).bit_length()) if a.kind in ('elem', 'sym') else n
    return n


def bits_take(ps, off, w):
    out, pos = [], 0
    for s, o, n in ps:
        a, b = max(off, pos), min(off + w, pos + n)
        if a < b:
            if isinstance(s, int):
                out.append(((s >> (a - pos)) & ((1 << (b - a)) - 1), 0, b - a))
            else:
                out.append((s, o + a - pos, b - a))
        pos += n
    if pos < off + w:
        have = sum(x[2] for x in out)
        if have < w:
            out.append((0, 0, w - have))
    return out


def bits_merge(ps):
    out = []
    for s, o, n in ps:
        if n == 0:
            continue
        if out:
            s0, o0, n0 = out[-1]
            if isinstance(s, int) and isinstance(s0, int):
                out[-1] = (s0 | (s << n0), 0, n0 + n)
                continue
            if not isinstance(s, int) and not isinstance(s0, int) and s == s0 and o == o0 + n0:
                out[-1] = (s0, o0, n0 + n)
                continue
        out.append((s, o, n))
    return out


def piece_val(s, o, n, facts):
    if isinstance(s, int):
        return (s >> o) & ((1 << n) - 1)
    lo, hi = facts.rng(s)
    if lo == hi:
        return (lo >> o) & ((1 << n) - 1)
    if o == 0 and lo >= 0 and hi < (1 << n):
        return s
    if lo >= 0 and hi != INF and (int(hi) >> o) == 0:
        return 0
    if len(s.t) == 1 and s.c == 0 and s.t[0][1] == 1 and s.t[0][0].kind == 'sl':
        s2, o2, n2 = s.t[0][0].args
        if o + n <= n2:
            return piece_val(s2, o2 + o, n, facts)
    m = n
    l0, h0 = _static.rng(s)
    if l0 >= 0 and h0 != INF:
        m = min(n, max(1, int(h0).bit_length() - o))
    return A(atom('sl', (s, o, m), 0, (1 << m) - 1))


def bits_join(ps, facts):
    ps = bits_merge(ps)
    # drop a slice tail known to be zero so that full slices recombine
    r, pos = 0, 0
    for s, o, n in ps:
        r = add(r, scale(piece_val(s, o, n, facts), 1 << pos))
        pos += n
    return r


def norm(l, facts):
    """recombine contiguous slices of one source that appear in a sum"""
    if isinstance(l, int) or len(l.t) < 2:
        return l
    sls = {}
    for a, k in l.t:
        if a.kind == 'sl' and k > 0 and (k & (k - 1)) == 0:
            sls.setdefault(a.args[0], []).append((k.bit_length() - 1, a))
    if not any(len(v) > 1 for v in sls.values()):
        return l
    d = dict(l.t)
    c = l.c
    extra = 0
    for s, v in sls.items():
        if len(v) < 2:
            continue
        v.sort(key=lambda x: x[0])
        i = 0
        while i < len(v):
            p, a = v[i]
            o, n = a.args[1], a.args[2]
            j = i + 1
            while j < len(v) and v[j][0] == p + n and v[j][1].args[1] == o + n:
                n += v[j][1].args[2]
                j += 1
            if j > i + 1:
                for q in range(i, j):
                    d.pop(v[q][1], None)
                extra = add(extra, scale(piece_val(s, o, n, facts), 1 << p))
            i = j
    return add(mk(c, d), extra)


def wrap(l, w, sg, facts):
    if isinstance(l, int):
        l &= (1 << w) - 1
        if sg and l >> (w - 1):
            l -= 1 << w
        return l
    lo, hi = facts.rng(l)
    if sg:
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return l
    elif lo >= 0 and hi < (1 << w):
        return l
    if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
        a = l.t[0][0]
        if sg and a.kind == 'sl' and a.args[1] == 0 and a.args[2] == w:
            s = a.args[0]
            x, y = facts.rng(s)
            if x >= -(1 << (w - 1)) and y < (1 << (w - 1)):
                return s
    if lo == hi:
        return wrap(lo, w, sg, facts)
    # decided by the relational facts?
    if facts.le and not sg and lo < 0:
        if hi < (1 << w) and facts.decide(le0(scale(l, -1))) is True:
            return l
    ps = bits_of(l, w, facts)
    if len(ps) == 1 and ps[0][0] == l and not (len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1):
        u = modw(l, w, facts)
    else:
        u = bits_join(ps, facts)
    if not sg:
        return u
    x, y = facts.rng(u)
    if y < (1 << (w - 1)):
        return u
    if isinstance(u, int):
        return u - (1 << w)
    if len(u.t) == 1 and u.c == 0 and u.t[0][1] == 1:
        a = u.t[0][0]
        if a.kind == 'sl' and a.args[1] == 0 and a.args[2] == w:
            x, y = facts.rng(a.args[0])
            if x >= -(1 << (w - 1)) and y < (1 << (w - 1)):
                return a.args[0]
    return A(atom('sgn', (u, w), -(1 << (w - 1)), (1 << (w - 1)) - 1))


def modw(l, w, facts):
    """l mod 2^w for a general linear form, canonical up to congruence"""
    m = 1 << w
    d, c = {}, l.c
    ch = True
    cur = l
    while ch:
        ch = False
        d, c = {}, cur.c
        extra = 0
        for a, k in cur.t:
            if a.kind in ('mod', 'sgn') and a.args[1] >= w:
                extra = add(extra, scale(a.args[0], k))
                ch = True
            elif a.kind == 'sl' and a.args[1] == 0 and a.args[2] >= w:
                extra = add(extra, scale(a.args[0], k))
                ch = True
            else:
                d[a] = d.get(a, 0) + k
        cur = add(mk(c, d), extra)
        if isinstance(cur, int):
            return cur % m
    d = {}
    for a, k in cur.t:
        k %= m
        if k > m // 2:
            k -= m
        d[a] = k
    c = cur.c % m
    if c > m // 2:
        c -= m
    cur = mk(c, d)
    if isinstance(cur, int):
        return cur % m
    lo, hi = facts.rng(cur)
    if lo >= 0 and hi < m:
        return cur
    ps = bits_of(cur, w, facts)
    if not (len(ps) == 1 and ps[0][0] == cur):
        return bits_join(ps, facts)
    if len(cur.t) == 1 and cur.c == 0 and cur.t[0][1] == 1:
        return bits_join(ps, facts)
    return A(atom('mod', (cur, w), 0, m - 1))


def mul(a, b, facts):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    ca, cb = facts.const(a), facts.const(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    if hash(b) < hash(a) or (len(b.t), [x[0].id for x in b.t]) < (len(a.t), [x[0].id for x in a.t]):
        pass
    k = sorted((a, b), key=lambda l: (len(l.t), [x[0].id for x in l.t], l.c))
    (l1, h1), (l2, h2) = facts.rng(a), facts.rng(b)
    if INF in (h1, h2) or -INF in (l1, l2):
        lo, hi = -INF, INF
    else:
        p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
        lo, hi = min(p), max(p)
    # static range must not depend on path facts: use type-level ranges
    f0 = Facts()
    (l1, h1), (l2, h2) = f0.rng(a), f0.rng(b)
    p = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    return A(atom('mul', tuple(k), min(p), max(p)))


def div(a, b, facts):
    """C division (truncating)."""
    cb = facts.const(b)
    ca = facts.const(a)
    if ca is not None and cb is not None:
        q = abs(ca) // abs(cb)
        return q if (ca >= 0) == (cb > 0) else -q
    lo, hi = facts.rng(a)
    f0 = Facts()
    if cb is not None and cb > 0 and lo < 0:
        if facts.decide(cle(0, a)) is True:
            lo = 0
        elif hi <= 0 or facts.decide(cle(a, 0)) is True:
            return scale(div(scale(a, -1), b, facts), -1)
    if cb is not None and cb > 0:
        a = norm(a, facts)
        if not isinstance(a, int):
            r = sub(a, scale(linmap(a, lambda c: c // cb), cb))
            rl, rh = facts.rng(r)
            if rl == rh == 0 or lo >= 0 and rl >= 0 and rh < cb:
                return linmap(a, lambda c: c // cb)
    if cb is not None and cb > 0 and lo >= 0:
        if cb == 1:
            return a
        if cb & (cb - 1) == 0 and hi != INF:
            return shr(a, cb.bit_length() - 1, facts)
        l0, h0 = f0.rng(a)
        return A(atom('div', (a, cb), (l0 // cb) if l0 >= 0 else -(-l0 // cb), (h0 // cb) if h0 != INF else INF))
    m = max(abs(lo), abs(hi))
    l0, h0 = f0.rng(a)
    m = max(abs(l0), abs(h0))
    return A(atom('div', (a, b if cb is None else cb), -m, m))


def shr(a, k, facts):
    """arithmetic shift right by a constant"""
    if isinstance(a, int):
        return a >> k
    lo, hi = facts.rng(a)
    if lo >= 0 and hi != INF:
        w = max(1, int(hi).bit_length(), 1)
        l0, h0 = Facts().rng(a)
        if l0 >= 0 and h0 != INF:
            w = max(w, int(h0).bit_length())
        if k >= w:
            return 0
        ps = bits_of(a, w, facts)
        return bits_join(bits_take(ps, k, w - k), facts)
    return A(atom('asr', (a, k), -(1 << 63), (1 << 63) - 1))


def bitop(op, a, b, w, facts):
    """& | ^ on the low w bits (unsigned result)"""
    if isinstance(a, int) and isinstance(b, int):
        m = (1 << w) - 1
        a &= m
        b &= m
        return a & b if op == '&' else a | b if op == '|' else a ^ b
    pa, pb = bits_of(a, w, facts), bits_of(b, w, facts)
    pa, pb = [resolve_piece(x, facts) for x in pa], [resolve_piece(x, facts) for x in pb]
    cuts = {0, w}
    for ps in (pa, pb):
        pos = 0
        for s, o, n in ps:
            cuts.add(pos)
            if isinstance(s, int):
                # cut constants at bit-value changes
                for i in range(1, n):
                    if ((s >> i) & 1) != ((s >> (i - 1)) & 1):
                        cuts.add(pos + i)
            pos += n
    cuts = sorted(x for x in cuts if x <= w)
    out = []
    for i in range(len(cuts) - 1):
        o, n = cuts[i], cuts[i + 1] - cuts[i]
        x, y = bits_merge(bits_take(pa, o, n)), bits_merge(bits_take(pb, o, n))
        if len(x) != 1 or len(y) != 1:
            return opaque_bit(op, a, b, w)
        (s1, o1, _), (s2, o2, _) = x[0], y[0]
        ones = (1 << n) - 1
        if isinstance(s1, int) and isinstance(s2, int):
            v = s1 & s2 if op == '&' else s1 | s2 if op == '|' else s1 ^ s2
            out.append((v, 0, n))
            continue
        if isinstance(s2, int):
            (s1, o1), (s2, o2) = (s2, o2), (s1, o1)
        if isinstance(s1, int):
            if op == '&':
                out.append((0, 0, n) if s1 == 0 else (s2, o2, n) if s1 == ones else None)
            elif op == '|':
                out.append((s2, o2, n) if s1 == 0 else (ones, 0, n) if s1 == ones else None)
            else:
                out.append((s2, o2, n) if s1 == 0 else None)
            if out[-1] is None:
                if op == '^' and s1 == ones:
                    v = sub(ones, piece_val(s2, o2, n, facts))
                    out[-1] = (v, 0, n)
                else:
                    return opaque_bit(op, a, b, w)
            continue
        if s1 == s2 and o1 == o2:
            out.append((s1, o1, n) if op in '&|' else (0, 0, n))
            continue
        v1, v2 = piece_val(s1, o1, n, facts), piece_val(s2, o2, n, facts)
        out.append((A(atom('bitop', (op,) + tuple(sorted((v1, v2), key=repr)), 0, ones)), 0, n))
    return bits_join(out, facts)


def resolve_piece(p, facts):
    s, o, n = p
    if isinstance(s, int):
        return ((s >> o) & ((1 << n) - 1), 0, n)
    v = piece_val(s, o, n, facts)
    if isinstance(v, int):
        return (v, 0, n)
    c = facts.const(v)
    if c is not None:
        return (c & ((1 << n) - 1), 0, n)
    return p


def opaque_bit(op, a, b, w):
    return A(atom('bitop', (op,) + tuple(sorted((a, b), key=repr)), 0, (1 << w) - 1))


# ---------------------------------------------------------------- concretisation
DECTEXT = {}    # name of the character array of a printed integer -> the integer


class Imprecise(Exception):
    """the value depends on something the domain only over-approximates"""


class Env:
    """A point of the concretisation: values for the free symbols, chosen lazily."""

    def __init__(self, base=None, seed=0, mode=0):
        self.v = dict(base or {})
        self.seed, self.mode = seed, mode
        self.rnd = random.Random(seed)

    def free(self, a_key, lo, hi):
        if a_key in self.v:
            return self.v[a_key]
        if lo == -INF:
            lo = -2 ** 31
        if hi == INF:
            hi = 2 ** 31
        r = random.Random(f'{self.seed}/{a_key_repr(a_key)}')
        if self.mode == 0:
            x = lo if lo >= 0 else 0
        elif self.mode == 1:
            x = r.choice([lo, hi, lo + 1, hi - 1, (lo + hi) // 2])
        else:
            x = r.randint(int(lo), int(hi))
        x = min(max(x, lo), hi)
        self.v[a_key] = x
        return x

    def atom(self, a):
        k = a.kind
        if k == 'sym':
            return self.free(('a', a), a.lo, a.hi)
        if k.startswith('p:'):
            r = self.eval_pred(a)
            return self.free(('a', a), a.lo, a.hi) if r is None else int(r)
        if k == 'opaque':
            o = a.args
            if o[0] == 'aton':
                return self.free(('a', a), a.lo, a.hi)
            if o[0] == 'sel':
                q, i = self.segs(o[1]), self.lin(o[2])
                if 0 <= i < len(q):
                    return q[i]
                raise Imprecise('sel')
            if o[0] == 'shift':
                x, n, w, sg = self.lin(o[2]), self.lin(o[3]), o[4], o[5]
                if not 0 <= n < 128:
                    raise Imprecise('shift')
                r = (x << n) if o[1] == '<<' else (x >> n)
                r %= 1 << w
                return r - (1 << w) if sg and r >> (w - 1) else r
            raise Imprecise(repr(a)[:80])
        if k == 'len':
            if str(a.args[0].name).startswith(('str:dec:', 'str:fmt:')):
                return len(self.text(a.args[0]))
            return self.free(('l', a.args[0]), 0, min(a.hi, 64) if self.mode != 1 else min(a.hi, 70000))
        if k == 'elem':
            i = self.lin(a.args[1])
            if str(a.args[0].name).startswith(('str:dec:', 'str:fmt:')):
                s = self.text(a.args[0])
                if not 0 <= i < len(s):
                    raise Imprecise('text')
                return ord(s[i])
            return self.free(('e', a.args[0], i), a.lo, a.hi)
        if k == 'sl':
            return (self.lin(a.args[0]) >> a.args[1]) & ((1 << a.args[2]) - 1)
        if k == 'mod':
            return self.lin(a.args[0]) % (1 << a.args[1])
        if k == 'sgn':
            u = self.lin(a.args[0])
            return u - (1 << a.args[1]) if u >> (a.args[1] - 1) else u
        if k == 'mul':
            return self.lin(a.args[0]) * self.lin(a.args[1])
        if k == 'div':
            x, y = self.lin(a.args[0]), self.lin(a.args[1])
            if y == 0:
                return 0
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y > 0) else -q
        if k == 'asr':
            return self.lin(a.args[0]) >> a.args[1]
        if k == 'ite':
            return int(self.cond(a.args[0]))
        if k == 'min':
            return min(self.lin(x) for x in a.args)
        if k == 'max':
            return max(self.lin(x) for x in a.args)
        if k == 'bitop':
            x, y = self.lin(a.args[1]), self.lin(a.args[2])
            r = x & y if a.args[0] == '&' else x | y if a.args[0] == '|' else x ^ y
            return r % (int(a.hi) + 1)
        if k == 'fbits':
            f = self.flt(a.args[0])
            try:
                return int.from_bytes(struct.pack('<f' if a.args[1] == 32 else '<d', f), 'little')
            except (OverflowError, ValueError):
                return 0
        if k == 'f2i':
            f = self.flt(a.args[0])
            try:
                return min(max(int(f), a.lo), a.hi)
            except (OverflowError, ValueError):
                return 0
        if k == 'sum':
            n = self.lin(a.args[1])
            return sum(self.lin(x) for x in a.args[2][:n])
        return self.free(('a', a), a.lo, a.hi)

    def text(self, arr):
        # formatted numbers: the text of a value printed as decimal integer is known, any other is not
        if arr.name not in DECTEXT:
            raise Imprecise('formatted text')
        return str(self.lin(DECTEXT[arr.name]))

    def eval_pred(self, a):
        k = a.kind[2:]
        if k in ('sym', 'aton', 'env'):
            return None
        if k == 'seqeq':
            return self.segs(a.args[0]) == self.segs(a.args[1])
        if k == 'seqlt':
            return [x & 255 for x in self.segs(a.args[0])] < [x & 255 for x in self.segs(a.args[1])]
        if k == 'feq':
            return self.flt(a.args[0]) == self.flt(a.args[1])
        if k == 'flt':
            return self.flt(a.args[0]) < self.flt(a.args[1])
        if k == 'fle':
            return self.flt(a.args[0]) <= self.flt(a.args[1])
        if k == 'fnz':
            return self.flt(a.args[0]) != 0
        if k == 'fclass':
            f = self.flt(a.args[1])
            return {'isnan': math.isnan, 'isfinite': math.isfinite, 'isinf': math.isinf}[a.args[0]](f)
        raise Imprecise(a.kind)

    def scalar(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, Cond):
            return int(self.cond(v))
        if isinstance(v, F):
            return self.flt(v)
        raise Imprecise(type(v).__name__)

    def segs(self, segs):
        """concrete elements of a sequence"""
        out = []
        for s in segs:
            if s[0] == 'e':
                out.append(self.scalar(s[1]))
            elif s[0] == 's':
                n, o = self.lin(s[3]), self.lin(s[2])
                if n > 200000:
                    raise Imprecise('long')
                b = rebase.get(s[1], s[1])
                for i in range(n):
                    v = self.free(('e', b, o + i), b.lo, b.hi)
                    if b is not s[1] and not s[1].lo <= v <= s[1].hi:
                        v += 1 << (b.hi - b.lo).bit_length() if v < 0 else -(1 << (b.hi - b.lo).bit_length())
                    out.append(v)
            else:
                n = self.lin(s[2])
                if n > 200000:
                    raise Imprecise('long')
                out += [self.scalar(s[1])] * max(n, 0)
        return out

    def lin(self, l):
        if isinstance(l, (int,)):
            return int(l)
        r = l.c
        for a, k in l.t:
            r += k * self.atom(a)
        return r

    def flt(self, f):
        if isinstance(f, (int, float)):
            return float(f)
        o, a = f.op, f.a
        try:
            if o == 'sym':
                k = ('f', a[0])
                if k not in self.v:
                    r = random.Random(f'{self.seed}/{a[0]}')
                    self.v[k] = r.choice([0.0, 1.0, -2.5, 3.25, 100.0, 7.0]) if self.mode < 2 else r.uniform(-1000, 1000)
                return self.v[k]
            if o == 'i2f':
                return float(self.lin(a[0]))
            if o == 'frombits':
                return struct.unpack('<f' if a[1] == 32 else '<d', (self.lin(a[0]) % (1 << a[1])).to_bytes(a[1] // 8, 'little'))[0]
            if o == 'cast':
                x = self.flt(a[0])
                return struct.unpack('<f', struct.pack('<f', x))[0] if a[1] == 32 else x
            if o == 'neg':
                return -self.flt(a[0])
            x, y = self.flt(a[0]), self.flt(a[1])
            if o == '+':
                return x + y
            if o == '-':
                return x - y
            if o == '*':
                return x * y
            if o == '/':
                return x / y if y else (INF if x > 0 else -INF if x < 0 else float('nan'))
            if o == 'pow':
                return x ** y
        except (OverflowError, ValueError, ZeroDivisionError):
            return float('nan')
        raise Imprecise('float ' + str(o))

    def cond(self, c):
        if c is True or c is False:
            return c
        if c.op == 'le':
            return self.lin(c.a) <= 0
        if c.op == 'eq':
            return self.lin(c.a) == 0
        if c.op == 'ne':
            return self.lin(c.a) != 0
        if c.op == 'and':
            return all(self.cond(x) for x in c.a)
        return any(self.cond(x) for x in c.a)


def a_key_repr(k):
    return '/'.join(repr(x) for x in k)


def free_atoms(l, out):
    if isinstance(l, int):
        return
    if isinstance(l, Cond):
        if l.op in ('and', 'or'):
            for x in l.a:
                free_atoms(x, out)
        else:
            free_atoms(l.a, out)
        return
    if isinstance(l, F):
        for x in l.a:
            if isinstance(x, (F, Lin)):
                free_atoms(x, out)
        return
    if isinstance(l, Lin):
        for a, _ in l.t:
            if a.kind in ('sym', 'len', 'opaque') or a.kind.startswith('p:'):
                out.add(a)
            elif a.kind == 'elem':
                out.add(a)
                free_atoms(a.args[1], out)
            else:
                for x in a.args:
                    if isinstance(x, (Lin, Cond, F)):
                        free_atoms(x, out)


def leaf_key(env, a):
    if a.kind == 'len':
        return ('l', a.args[0])
    if a.kind == 'elem':
        return ('e', a.args[0], env.lin(a.args[1]))
    return ('a', a)


def repair(env, c, want, depth=0):
    """try to change free symbols so that condition c becomes `want`"""
    if env.cond(c) == want:
        return True
    if c is True or c is False or depth > 3:
        return False
    if c.op in ('and', 'or'):
        parts = list(c.a)
        if (c.op == 'and') == want:
            return all(repair(env, x, want, depth + 1) for x in parts)
        env.rnd.shuffle(parts)
        return any(repair(env, x, want, depth + 1) for x in parts)
    op = c.op
    if not want:
        c = cnot(c)
        if c is True or c is False:
            return c
        op = c.op
        if op in ('and', 'or'):
            return repair(env, c, True, depth + 1)
    cur = env.lin(c.a)
    ts = list(c.a.t)
    env.rnd.shuffle(ts)
    for a, k in ts:
        rest = cur - k * env.atom(a)
        # want k*x + rest  (<=0 | ==0 | !=0)
        if op == 'le':
            b = -rest
            x = math.floor(Fraction(b, k)) if k > 0 else math.ceil(Fraction(b, k))
            if env.rnd.random() < 0.3:
                x += (-1 if k > 0 else 1) * env.rnd.choice([0, 1, 2, 7])
        elif op == 'eq':
            if rest % k:
                continue
            x = -rest // k
        else:
            x = env.atom(a) + env.rnd.choice([1, -1])
        if set_atom(env, a, x, depth):
            if env.cond(c):
                return True
            cur = env.lin(c.a)
    return env.cond(c)


def set_seqs(env, p, q, eq, x):
    """make two sequences equal/different (or ordered) by changing an unconstrained one"""
    for u, v in ((p, q), (q, p)):
        if len(u) == 1 and u[0][0] == 's' and u[0][2] == 0 and u[0][3] == length(u[0][1]):
            ar = u[0][1]
            t = env.segs(v)
            if not (eq and x):
                if eq:
                    t = [env.rnd.randint(max(ar.lo, 33), min(ar.hi, 126)) for _ in range(env.rnd.choice([0, 1, 3, 5]))]
                else:
                    less = bool(x) == (u is p)
                    t = t[:-1] if less and t else ([] if less else t + [max(ar.lo, 65)])
            if ar in rebase or len(t) > ar.maxlen or any(not ar.lo <= z <= ar.hi for z in t):
                continue
            env.v[('l', ar)] = len(t)
            for i, z in enumerate(t):
                env.v[('e', ar, i)] = z
            return True
    return False


def set_lin(env, l, x, depth=0):
    if isinstance(l, int):
        return l == x
    return repair(env, ceq(l, x), True, depth + 1)


def set_atom(env, a, x, depth=0):
    if depth > 4:
        return False
    lo, hi = a.lo, a.hi
    x = min(max(x, lo), hi)
    k = a.kind
    if k in ('p:seqeq', 'p:seqlt'):
        return set_seqs(env, a.args[0], a.args[1], k == 'p:seqeq', x)
    if k.startswith('p:f'):
        return False
    if k == 'opaque' and a.args[0] != 'aton':
        return False
    if k in ('sym', 'opaque', 'len', 'elem') or k.startswith('p:'):
        if x > 10 ** 7 and k == 'len':
            pass
        env.v[leaf_key(env, a)] = x
        return True
    if k == 'sl':
        s, o, n = a.args
        cur = env.lin(s)
        m = ((1 << n) - 1) << o
        return set_lin(env, s, (cur & ~m) | ((x << o) & m), depth)
    if k in ('mod',):
        return set_lin(env, a.args[0], x, depth)
    if k == 'sgn':
        return set_lin(env, a.args[0], x % (1 << a.args[1]), depth)
    if k == 'ite':
        return repair(env, a.args[0], bool(x), depth + 1)
    if k == 'div' and isinstance(a.args[1], int):
        return set_lin(env, a.args[0], x * a.args[1], depth)
    if k in ('min', 'max'):
        return any(set_lin(env, y, x, depth) for y in a.args)
    if k == 'mul':
        for i in (0, 1):
            o = env.lin(a.args[1 - i])
            if o and x % o == 0 and set_lin(env, a.args[i], x // o, depth):
                return True
    if k == 'fbits' and isinstance(a.args[0], F) and a.args[0].op == 'sym':
        try:
            env.v[('f', a.args[0].a[0])] = struct.unpack('<f' if a.args[1] == 32 else '<d', int(x).to_bytes(a.args[1] // 8, 'little'))[0]
            return True
        except Exception:
            return False
    return False


def find_env(conds, goal=None, goal_cond=None, tries=80, envcls=Env, seeds=0):
    """a concretisation point satisfying conds (and goal_cond) on which goal(env) is truthy, or None"""
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds) or goal_cond is False:
        return None
    allc = conds + ([goal_cond] if goal_cond not in (None, True) else [])
    for t in range(tries):
        env = envcls(seed=seeds * 1000 + t, mode=(0 if t == 0 else 1 if t % 2 else 2))
        try:
            for rnd in range(12):
                bad = [c for c in allc if not env.cond(c)]
                if not bad:
                    break
                for c in bad:
                    repair(env, c, True)
            else:
                bad = [c for c in allc if not env.cond(c)]
            if bad:
                continue
            if goal is None or goal(env):
                # evaluation may have touched further symbols; still consistent
                if all(env.cond(c) for c in allc):
                    return env
        except Imprecise:
            continue
    return None
