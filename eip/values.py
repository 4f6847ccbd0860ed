"""Memory model and values."""
from .terms import *


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


class Loc:
    """an lvalue"""
    __slots__ = ()


class Cell(Loc):
    """A storage location for one value."""
    __slots__ = ('v', 'T', 'id', 'dead', 'name')

    def __init__(self, I, T, v=UNINIT, name=''):
        self.v, self.T, self.name = v, T, name
        I.ncell += 1
        self.id = I.ncell
        self.dead = False

    def get(self):
        return self.v

    def set(self, v):
        self.v = v

    def __repr__(self):
        return f'&{self.name or self.id}'


class Obj:
    """A class object with one cell per field; it is its own location."""
    __slots__ = ('rec', 'T', 'f', 'id', 'dead', 'moved', 'tag', 'caps')

    def __init__(self, I, T):
        self.T = T
        self.rec = T.n
        self.f = {}
        I.ncell += 1
        self.id = I.ncell
        self.dead = False
        self.moved = False
        self.tag = None
        self.caps = None

    def get(self):
        return self

    def __repr__(self):
        return f'<{self.rec}#{self.id}>'


class RefV:
    """value of a reference-typed field"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Ptr:
    __slots__ = ('loc', 'T')

    def __init__(self, loc, T=None):
        self.loc, self.T = loc, T

    def __repr__(self):
        return f'Ptr({self.loc!r})'


class FnPtr:
    __slots__ = ('id', 'this')

    def __init__(self, id, this=None):
        self.id, self.this = id, this


class SymFn:
    """a user callback, unknown to the analysed code"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'callback {self.name}'


class Fun:
    """std::function: target None when empty"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Seq:
    """contents of a vector/string/array: segments ('e',v) ('s',arr,off,len) ('f',v,len)"""
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        out = []
        for s in self.segs:
            if s[0] == 'e':
                out.append(repr(s[1]))
            elif s[0] == 's':
                out.append(f'{s[1]}[{s[2]!r}..+{s[3]!r}]')
            else:
                out.append(f'fill({s[1]!r}x{s[2]!r})')
        return '<' + ' '.join(out) + '>'


def seglen(s):
    return 1 if s[0] == 'e' else s[3] if s[0] == 's' else s[2]


def seqlen(q):
    n, l = 0, 0
    for s in q.segs:
        if s[0] == 'e':
            n += 1
        else:
            l = add(l, seglen(s))
    return add(l, n)


def seq_norm(segs, facts):
    out = []
    for s in segs:
        if s[0] != 'e':
            ln = seglen(s)
            c = facts.const(ln)
            if c is not None:
                if c <= 0:
                    continue
                if s[0] == 'f' and c <= 64:
                    out += [('e', s[1])] * c
                    continue
                if s[0] == 's' and c <= 64:
                    for i in range(c):
                        out.append(('e', elem(s[1], facts_idx(add(s[2], i), facts))))
                    continue
            if out and s[0] == 's' and out[-1][0] == 's' and out[-1][1] is s[1] and out[-1][2] != s[2] and add(out[-1][2], out[-1][3]) == s[2]:
                out[-1] = ('s', s[1], out[-1][2], add(out[-1][3], s[3]))
                continue
            if out and s[0] == 'f' and out[-1][0] == 'f' and out[-1][1] == s[1]:
                out[-1] = ('f', s[1], add(out[-1][2], s[2]))
                continue
        out.append(s)
    return Seq(out)


def facts_idx(i, facts):
    if isinstance(i, int):
        return i
    c = facts.const(i)
    return i if c is None else c


class ElemLoc(Loc):
    """element idx of the sequence stored in cell `c`"""
    __slots__ = ('c', 'i', 'I')

    def __init__(self, I, c, i):
        self.I, self.c, self.i = I, c, i

    def get(self):
        return self.I.seq_get(self.c, self.i)

    def set(self, v):
        self.I.seq_set(self.c, self.i, v)

    @property
    def T(self):
        return self.I.elem_type(self.c.T) if self.c.T else None

    @property
    def dead(self):
        return self.c.dead

    def __repr__(self):
        return f'{self.c!r}[{self.i!r}]'


class View(Loc):
    """reinterpreted access to a scalar location"""
    __slots__ = ('l', 'T', 'I')

    def __init__(self, I, l, T):
        self.I, self.l, self.T = I, l, T

    def get(self):
        return self.I.reinterpret(self.I.load(self.l), self.l.T, self.T)

    def set(self, v):
        self.l.set(self.I.reinterpret(v, self.T, self.l.T))

    dead = False


class ByteLoc(Loc):
    """byte `off` of a scalar location"""
    __slots__ = ('l', 'off', 'I', 'T')

    def __init__(self, I, l, off, T):
        self.I, self.l, self.off, self.T = I, l, off, T

    def get(self):
        return self.I.byte_get(self)

    def set(self, v):
        self.I.byte_set(self, v)

    dead = False


class Ctrl:
    """shared ownership record"""
    __slots__ = ('obj', 'alive', 'id', 'strong')

    def __init__(self, I, obj):
        self.obj, self.alive = obj, True
        I.ncell += 1
        self.id = I.ncell
        I.heap.append(self)


class SP:
    __slots__ = ('ctrl', 'loc')

    def __init__(self, ctrl=None, loc=None):
        self.ctrl, self.loc = ctrl, loc if loc is not None else (ctrl.obj if ctrl else None)

    def __repr__(self):
        return f'SP({self.loc!r})'


class WP:
    __slots__ = ('ctrl', 'loc')

    def __init__(self, ctrl=None, loc=None):
        self.ctrl, self.loc = ctrl, loc


class UP:
    __slots__ = ('loc',)

    def __init__(self, loc=None):
        self.loc = loc

    def __repr__(self):
        return f'UP({self.loc!r})'


class Opt:
    __slots__ = ('c',)

    def __init__(self, c=None):
        self.c = c


class MapV:
    """entries: tuple of nodes; a node is (keyCell, valCell) held in a Pair-like Obj"""
    __slots__ = ('nodes', 'sym')

    def __init__(self, nodes=(), sym=None):
        self.nodes = tuple(nodes)
        self.sym = sym


class MapIter:
    __slots__ = ('c', 'node')

    def __init__(self, c, node):
        self.c, self.node = c, node   # node None: end

    def __repr__(self):
        return f'it({self.node!r})'


class TupV:
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = cells


class Dur:
    """duration / time_point: tick count in its own period"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Dur({self.n!r})'

    def __eq__(self, o):
        return isinstance(o, Dur) and o.n == self.n

    def __hash__(self):
        return hash(self.n)


class ExcV:
    """a std exception value"""
    __slots__ = ('what', 'code')

    def __init__(self, what=None, code=None):
        self.what, self.code = what, code

    def __repr__(self):
        return f'Exc({self.code!r})'


class OrdV:
    """comparison category: cond for less, cond for equal"""
    __slots__ = ('lt', 'eq')

    def __init__(self, lt, eq):
        self.lt, self.eq = lt, eq


class Opaque:
    """a value the model does not look into (allocator, hash, ...)"""
    __slots__ = ('what',)

    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return f'opaque {self.what}'


class BackIns:
    __slots__ = ('c', 'mode', 'pos')

    def __init__(self, c, mode='back'):
        self.c, self.mode = c, mode


class RevIt:
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it


class FdSetV:
    __slots__ = ('fds',)

    def __init__(self, fds=()):
        self.fds = tuple(fds)
