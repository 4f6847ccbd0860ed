"""Models of the standard library operations the analysed code uses (trusted base, see DESIGN.md)."""
from fractions import Fraction
from .values import *
from .interp import CxxThrow, Undecided, PathEnd, STD_BASES

H = {}          # qualified name -> handler(I, ref, this, args, node)


def m(*names):
    def d(f):
        for n in names:
            for x in n.split('|'):
                H[x] = f
        return f
    return d


class PairT:
    """stand-in type for std::pair<K,V>"""

    def __init__(self, K, V):
        self.k, self.n, self.q, self.ta, self.own, self.s = 'rec', 'std::pair', 'std::pair', [K, V], False, 'std::pair'
        self.w = self.sg = self.to = self.sz = self.c = None


class SeqT:
    def __init__(self, et):
        self.k, self.n, self.q, self.ta, self.own, self.s = 'rec', 'std::vector', 'std::vector', [et], False, 'std::vector'
        self.w = self.sg = self.to = self.sz = self.c = None


class CharT:
    k, w, sg, s, sz, n, q, ta, own, c, to = 'int', 8, True, 'char', 1, None, None, None, False, False, None


CHAR = CharT()
SEQS = ('std::vector', 'std::basic_string', 'std::initializer_list', 'std::array', 'std::deque', 'std::list', 'std::span', 'std::basic_string_view')
MAPS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')


def seqlit(s):
    return Seq([('e', ord(c)) for c in s])


def opaque_str(key):
    a = arr('str:' + key, -128, 127, 256)
    return Seq([('s', a, 0, length(a))])


def dectext(v):
    """the decimal text of an integer"""
    if isinstance(v, (bool, Cond)):
        v = b2i(v)
    if isinstance(v, int):
        return seqlit(str(v))
    key = 'dec:' + repr(v)
    if isinstance(v, Lin):
        DECTEXT['str:' + key] = v
    return opaque_str(key)


def bare(T):
    return T.to if T is not None and T.k in ('lref', 'rref') else T


class Std:
    def default(self, I, T):
        q = T.q
        if q == 'std::array':
            return I.seq_fill(T.ta[0], T.ta[1], False)
        if q in SEQS:
            return Seq()
        if q in MAPS:
            return MapV()
        if q == 'std::shared_ptr':
            return SP()
        if q == 'std::unique_ptr':
            return UP()
        if q == 'std::weak_ptr':
            return WP()
        if q == 'std::function':
            return Fun(None)
        if q == 'std::optional':
            return Opt()
        if q == 'std::pair':
            o = Obj(I, T)
            for n, t in zip(('first', 'second'), T.ta):
                o.f[n] = I.new_cell(t, I.default_value(t) if not I.is_scalar(t) and t.q != 'std::chrono::duration' else I.zero_value(t), n)
            return o
        if q == 'std::tuple':
            return TupV([I.new_cell(t, I.default_value(t) if not I.is_scalar(t) and t.q != 'std::chrono::duration' else I.zero_value(t)) for t in T.ta])
        if q == 'std::chrono::duration':
            return Dur(UNINIT)
        if q == 'std::chrono::time_point':
            return Dur(0)
        if q in ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istringstream'):
            return Seq()
        if q == 'std::atomic':
            return I.zero_value(T.ta[0])
        if q in ('__gnu_cxx::__normal_iterator',):
            return Ptr(None)
        if q == 'std::error_code':
            return ExcV(None, 0)
        if q and q.startswith('std::'):
            return Opaque(q)
        return None

    def call(self, I, ref, this, args, node):
        h = H.get(ref.q)
        if h is None:
            raise Undecided('unmodelled function ' + ref.q)
        I.std_seen.add(ref.q)
        return h(I, ref, this, args, node)

    def construct(self, I, ref, args, node):
        q = ref.q
        h = H.get(q)
        if h is not None:
            return h(I, ref, None, args, node)
        c = ref.rec.q
        if ref.ct == 'copy':
            return I.copy_value(I.val(args[0]))
        if ref.ct == 'move':
            return I.move_from(args[0])
        if ref.ct == 'default' or not args:
            r = self.default(I, ref.rec)
            if r is not None:
                return r
        if c in STD_BASES or (c or '').endswith('error'):
            return H['exc'](I, ref, None, args, node)
        raise Undecided('unmodelled constructor ' + q)

    def functor(self, I, f, args):
        w = f.what
        if w.startswith('std::less'):
            return I.lt_values(args[0], args[1])
        if w.startswith('std::greater'):
            return I.lt_values(args[1], args[0])
        if w.startswith('std::equal_to'):
            return I.eq_values(args[0], args[1])
        if w.startswith('std::plus'):
            return add(I.rd(args[0]), I.rd(args[1]))
        return None

    def member(self, I, o, e):
        if isinstance(o, Seq) and e['f'] in ('_M_elems',):
            return I.ev(e['b'], I.frames[-1])
        return None

    def global_(self, I, g):
        import re
        c = re.fullmatch(r'_ZNSt17integral_constantI([a-z])L\1(\d+)EE5valueE', g)
        if c:
            return int(c.group(2)) if c.group(1) != 'b' else c.group(2) == '1'
        if 'placeholders' in g:
            import re
            n = re.search(r'_(\d+)', g[g.index('placeholders') + 12:])
            return Opaque('ph' + (n.group(1) if n else '1'))
        if g in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
            return Opaque('stream:' + g[4:])
        if 'nullopt' in g:
            return Opaque('nullopt')
        if 'piecewise' in g or 'try_to_lock' in g or 'defer_lock' in g or 'ignore' in g:
            return Opaque(g)
        return None

    # -------- strings
    def seq_eq(self, I, a, b):
        if a.segs == b.segs:
            return True
        la, lb = seqlen(a), seqlen(b)
        le = ceq(la, lb)
        if I.facts.decide(le) is False:
            return False
        a, b = seq_norm(a.segs, I.facts), seq_norm(b.segs, I.facts)
        if a.segs == b.segs:
            return True
        if all(s[0] == 'e' for s in a.segs) and all(s[0] == 'e' for s in b.segs):
            if len(a.segs) != len(b.segs):
                return False
            r = True
            for x, y in zip(a.segs, b.segs):
                r = cand(r, I.eq_values(x[1], y[1]) if not isinstance(x[1], Cell) else I.eq_values(x[1], y[1]))
                if r is False:
                    return False
            return r
        k = sorted((a.segs, b.segs), key=repr)
        return pred('seqeq', *k)

    def seq_lt(self, I, a, b):
        if a.segs == b.segs:
            return False
        if all(s[0] == 'e' and isinstance(s[1], int) for s in a.segs + b.segs):
            return [s[1] & 255 for s in a.segs] < [s[1] & 255 for s in b.segs]
        return pred('seqlt', a.segs, b.segs)

    # -------- range-for
    def range_for(self, I, s, fr, r):
        v = I.val(r)
        if isinstance(v, Seq):
            idx = [0]
            et = I.elem_type(r.T) if getattr(r, 'T', None) is not None else None

            def cond():
                q = I.seq_of(r)
                return clt(idx[0], seqlen(q))

            def body():
                loc = I.elem_ref(r, idx[0], check=True)
                cells0 = I.seq_of(r) if et is None or not I.is_scalar(et) else None

                def go():
                    I.bind_loop_var(s['v'], loc, fr)
                    d = s['v'].get('d')
                    c = fr.loc.get(d)
                    if isinstance(c, Cell) and s['v']['t'].k not in ('lref', 'rref') and fr.scope is not None:
                        fr.scope.append(c)
                    return I.ex(s['b'], fr)
                res = I.scoped(fr, go)
                if cells0 is not None and r is not None and not getattr(r, 'dead', False):
                    q1 = I.val(r)
                    if isinstance(q1, Seq) and [x[1] for x in q1.segs if x[0] == 'e'] != [x[1] for x in cells0.segs if x[0] == 'e'] and res is None:
                        I.fail('iterator', 'the vector being iterated was changed by the loop body')
                return res

            def step():
                idx[0] = add(idx[0], 1)
            return I.loop(s, fr, cond, body, step)
        if isinstance(v, MapV):
            it = MapIter(r, v.nodes[0] if v.nodes else None)
            cur = [it]

            def cond():
                return cur[0].node is not None

            def body():
                n = map_deref(I, cur[0])

                def go():
                    I.bind_loop_var(s['v'], n, fr)
                    d = s['v'].get('d')
                    c = fr.loc.get(d)
                    if isinstance(c, Cell) and s['v']['t'].k not in ('lref', 'rref') and fr.scope is not None:
                        fr.scope.append(c)
                    return I.ex(s['b'], fr)
                return I.scoped(fr, go)

            def step():
                cur[0] = map_next(I, cur[0])
            return I.loop(s, fr, cond, body, step)
        if isinstance(v, Obj):
            b = [I.P.fn[x['f']] for x in I.P.rec.get(v.rec, {'meth': []})['meth'] if I.P.fn[x['f']].n in ('begin', 'end') and not I.P.fn[x['f']].ps]
            bs = [x for x in b if x.n == 'begin']
            es = [x for x in b if x.n == 'end']
            if bs and es:
                first = I.call(bs[0].id, v, [])
                last = I.call(es[0].id, v, [])
                cur = [I.val(first)]
                end = I.val(last)

                def cond():
                    return iter_eq(I, cur[0], end, neg=True)

                def body():
                    def go():
                        I.bind_loop_var(s['v'], iter_deref(I, cur[0]), fr)
                        return I.ex(s['b'], fr)
                    return I.scoped(fr, go)

                def step():
                    cur[0] = iter_next(I, cur[0])
                return I.loop(s, fr, cond, body, step)
        raise Undecided(f'range-for over {type(v).__name__}')


# ---------------------------------------------------------------- iterators
def map_valid(I, it):
    v = I.val(it.c)
    return any(n is it.node for n in v.nodes)


def map_deref(I, it):
    if it.node is None:
        I.fail('iterator', 'the end iterator of a map is dereferenced')
    if getattr(it.c, 'dead', False) or it.node.dead or not map_valid(I, it):
        I.fail('iterator', 'an iterator to an erased map element is dereferenced')
    return it.node


def map_next(I, it):
    if it.node is None:
        I.fail('iterator', 'the end iterator of a map is incremented')
    if getattr(it.c, 'dead', False) or not map_valid(I, it):
        I.fail('iterator', 'an iterator to an erased map element is incremented')
    ns = I.val(it.c).nodes
    k = [i for i, n in enumerate(ns) if n is it.node][0]
    return MapIter(it.c, ns[k + 1] if k + 1 < len(ns) else None)


def map_prev(I, it):
    ns = I.val(it.c).nodes
    if it.node is None:
        if not ns:
            I.fail('iterator', 'begin iterator decremented')
        return MapIter(it.c, ns[-1])
    if not map_valid(I, it):
        I.fail('iterator', 'an iterator to an erased map element is decremented')
    k = [i for i, n in enumerate(ns) if n is it.node][0]
    if k == 0:
        I.fail('iterator', 'begin iterator decremented')
    return MapIter(it.c, ns[k - 1])


def iter_next(I, it, n=1):
    if isinstance(it, Ptr):
        return I.ptr_elem(it, n)
    if isinstance(it, MapIter):
        for _ in range(n):
            it = map_next(I, it)
        return it
    if isinstance(it, RevIt):
        return RevIt(iter_prev(I, it.it))
    if isinstance(it, BackIns):
        return it
    raise Undecided('iterator increment')


def iter_prev(I, it):
    if isinstance(it, Ptr):
        return I.ptr_elem(it, -1)
    if isinstance(it, MapIter):
        return map_prev(I, it)
    if isinstance(it, RevIt):
        return RevIt(iter_next(I, it.it))
    raise Undecided('iterator decrement')


def iter_eq(I, a, b, neg=False):
    if isinstance(a, MapIter) and isinstance(b, MapIter):
        c = a.node is b.node
    elif isinstance(a, RevIt):
        c = iter_eq(I, a.it, b.it)
    elif isinstance(a, Ptr):
        c = I.ptr_eq(a, b)
    else:
        raise Undecided('iterator comparison')
    return cnot(c) if neg else c


def iter_deref(I, it):
    if isinstance(it, Ptr):
        return I.deref_e(it)
    if isinstance(it, MapIter):
        return map_deref(I, it)
    if isinstance(it, RevIt):
        return iter_deref(I, iter_prev(I, it.it))
    raise Undecided('iterator dereference')


def seq_range(I, a, b, what='range'):
    """check [a,b) of one sequence; returns (cell, first, count)"""
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        raise Undecided('iterator range')
    la, lb = a.loc, b.loc
    if la is None and lb is None:
        return None, 0, 0
    if isinstance(la, ElemLoc) and isinstance(lb, ElemLoc) and la.c is lb.c:
        n = seqlen(I.seq_of(la.c))
        I.oblige('bounds', cand(cle(0, la.i), cle(la.i, lb.i), cle(lb.i, n)), lambda: f'{what} [{la.i!r},{lb.i!r}) of a sequence of {n!r} elements')
        return la.c, la.i, sub(lb.i, la.i)
    raise Undecided('iterator range')


def range_segs(I, a, b, et=None):
    """segments of [a,b), converted to element type et"""
    a, b = I.val(a), I.val(b)
    if isinstance(a, Ptr) and isinstance(a.loc, ByteLoc) and isinstance(b, Ptr) and isinstance(b.loc, ByteLoc) and a.loc.l is b.loc.l:
        i, j = I.facts.const(a.loc.off), I.facts.const(b.loc.off)
        if i is not None and j is not None:
            out = []
            for k in range(i, j):
                out.append(('e', conv_elem(I, I.load(ByteLoc(I, a.loc.l, k, a.loc.T)), a.loc.T, et)))
            return out
    if isinstance(a, Ptr) and isinstance(b, Ptr) and not isinstance(a.loc, ElemLoc) and isinstance(b.loc, Loc):
        from .interp import OffLoc
        if isinstance(b.loc, OffLoc) and b.loc.l is a.loc and b.loc.off == 1:
            return [('e', conv_elem(I, I.load(a.loc), a.loc.T, et))]
    if isinstance(a, MapIter):
        out = []
        it = a
        while it.node is not b.node:
            out.append(('e', I.new_cell(it.node.T, I.copy_value(map_deref(I, it)))))
            it = map_next(I, it)
        return out
    if isinstance(a, RevIt):
        la, lb = b.it, a.it
        segs = range_segs(I, la, lb, et)
        if all(s[0] == 'e' for s in segs):
            return list(reversed(segs))
        raise Undecided('reversed symbolic range')
    from .interp import ByteElem
    if isinstance(a, Ptr) and isinstance(a.loc, ByteElem):
        raise Undecided('byte range of wide elements')
    c, i, n = seq_range(I, a, b)
    if c is None:
        return []
    segs = I.seq_slice(I.seq_of(c), i, n)
    return conv_segs(I, segs, I.elem_type(c.T) if c.T is not None else None, et)


def conv_elem(I, v, ft, tt):
    if isinstance(v, Cell):
        x = I.copy_value(v.v)
        if tt is not None and I.is_scalar(tt):
            return x
        return I.new_cell(tt or v.T, x)
    if tt is None or v is UNINIT:
        return v
    if tt.k in ('int', 'enum') and isinstance(v, (int, Lin)):
        return wrap(v, tt.w, tt.sg, I.facts)
    return v


def conv_segs(I, segs, ft, tt):
    out = []
    same = ft is None or tt is None or (ft.k == tt.k and ft.w == tt.w and ft.sg == tt.sg)
    for s in segs:
        if s[0] == 'e':
            out.append(('e', conv_elem(I, s[1], ft, None if same and not isinstance(s[1], Cell) else tt)))
        elif same or I_range_ok(s, tt):
            out.append(s)
        elif ft.w == tt.w:
            if s[0] == 'f':
                out.append(('f', conv_elem(I, s[1], ft, tt), s[2]))
            else:
                out.append(('s', reint_arr(s[1], tt), s[2], s[3]))
        elif ft.w < tt.w or s[0] == 'f':
            if s[0] == 'f':
                out.append(('f', conv_elem(I, s[1], ft, tt), s[2]))
            elif s[1].lo >= 0 or tt.sg:
                out.append(s)
            else:
                raise Undecided('element conversion')
        else:
            raise Undecided('element conversion')
    return out


def I_range_ok(s, tt):
    if s[0] != 's' or tt.k not in ('int', 'enum'):
        return False
    lo, hi = (-(1 << (tt.w - 1)), (1 << (tt.w - 1)) - 1) if tt.sg else (0, (1 << tt.w) - 1)
    return s[1].lo >= lo and s[1].hi <= hi


def reint_arr(a, tt):
    """the same bytes seen with the other signedness"""
    lo, hi = (-(1 << (tt.w - 1)), (1 << (tt.w - 1)) - 1) if tt.sg else (0, (1 << tt.w) - 1)
    b = rebase.get(a)
    if b is not None and b.lo == lo and b.hi == hi:
        return b
    r = arr(f're:{a.name}', lo, hi, a.maxlen)
    rebase[r] = a
    return r


def et_of(I, loc, ref=None):
    T = getattr(loc, 'T', None)
    if T is None or (T.k not in ('rec', 'arr')):
        T = ref.rec if ref is not None else None
    if T.q == 'std::basic_string':
        return CHAR if not T.ta else T.ta[0]
    return I.elem_type(T)


def mkelem(I, et, x, move=False):
    """element value for a container of et from an evaluated argument"""
    if I.is_scalar(et):
        v = I.rd(x)
        if isinstance(v, (bool, Cond)) and et.k in ('int', 'enum'):
            v = b2i(v)
        return v
    if isinstance(x, (Loc, Obj)):
        v = I.move_from(x) if move else I.copy_value(I.load(x))
    else:
        v = x
    return I.new_cell(et, v)


def is_rv(node, k):
    """argument k of a call node is an xvalue/prvalue (moved)"""
    return False


# ---------------------------------------------------------------- vector / string / array
@m('std::vector::vector|std::deque::deque|std::list::list')
def vec_ctor(I, ref, this, a, node):
    et = ref.rec.ta[0]
    ps = ref.ps
    if ref.ct == 'copy':
        return I.copy_value(I.val(a[0]))
    if ref.ct == 'move':
        return I.move_from(a[0])
    if not a:
        return Seq()
    p0 = bare(ps[0])
    if p0.q == 'std::allocator':
        return Seq()
    if p0.q == 'std::initializer_list':
        return I.copy_value(I.val(a[0]))
    if p0.q == ref.rec.q:
        return I.copy_value(I.val(a[0])) if ps[0].k == 'lref' else I.move_from(a[0])
    if p0.k == 'int' and (len(ps) < 2 or bare(ps[1]).q == 'std::allocator' or len(ps) == 3 or bare(ps[1]).s.replace('const ', '') == et.s.replace('const ', '')):
        n = I.rd(a[0])
        alloc(I, n)
        if len(ps) >= 2 and bare(ps[1]).q != 'std::allocator':
            return fill_seq(I, et, n, a[1])
        if I.is_scalar(et):
            return seq_norm([('f', I.zero_value(et), n)], I.facts)
        return fill_default(I, et, n)
    if len(a) >= 2:
        return seq_norm(range_segs(I, a[0], a[1], et), I.facts)
    raise Undecided('vector constructor')


def alloc(I, n):
    """allocation sizes: a length that wrapped around is a defect"""
    I.oblige('allocation', cle(n, 2 ** 32), lambda: f'a container of {n!r} elements is requested')


def fill_seq(I, et, n, x):
    if I.is_scalar(et):
        return seq_norm([('f', I.rd(x), n)], I.facts)
    c = I.facts.const(n)
    if c is None:
        raise Undecided('symbolic number of objects')
    return Seq([('e', mkelem(I, et, x)) for _ in range(c)])


def fill_default(I, et, n):
    c = I.facts.const(n)
    if c is None:
        raise Undecided('symbolic number of objects')
    return Seq([('e', I.new_cell(et, I.default_value(et))) for _ in range(c)])


@m('std::basic_string::basic_string|std::basic_string_view::basic_string_view')
def str_ctor(I, ref, this, a, node):
    if not a:
        return Seq()
    ps = ref.ps
    p0 = bare(ps[0])
    if p0.q == 'std::allocator':
        return Seq()
    if p0.q in ('std::basic_string', 'std::basic_string_view') or I.__class__ and isinstance(I.val(a[0]), Seq) and p0.k == 'rec':
        v = I.val(a[0])
        if ref.ct == 'move' or ps[0].k == 'rref':
            return I.move_from(a[0])
        if len(a) >= 2 and bare(ps[1]).k == 'int':
            return substr(I, v, I.rd(a[1]), I.rd(a[2]) if len(a) > 2 and bare(ps[2]).k == 'int' else None)
        return I.copy_value(v)
    if p0.k == 'ptr':
        if len(a) >= 2 and bare(ps[1]).k == 'int':
            n = I.rd(a[1])
            p = I.val(a[0])
            return seq_norm(range_segs(I, p, I.ptr_elem(p, n), CHAR), I.facts)
        if len(a) >= 2 and bare(ps[1]).k == 'ptr':
            return seq_norm(range_segs(I, a[0], a[1], CHAR), I.facts)
        return cstr(I, I.val(a[0]))
    if p0.k == 'int' and len(a) >= 2:
        return seq_norm([('f', I.rd(a[1]), I.rd(a[0]))], I.facts)
    if len(a) >= 2 and isinstance(I.val(a[0]), (Ptr, RevIt)):
        return seq_norm(range_segs(I, a[0], a[1], CHAR), I.facts)
    raise Undecided('string constructor')


def cstr(I, p):
    """characters of a NUL-terminated string"""
    if not isinstance(p, Ptr):
        raise Undecided('C string')
    if p.loc is None:
        I.fail('null', 'null C string')
    l = p.loc
    if not isinstance(l, ElemLoc):
        raise Undecided('C string')
    q = I.seq_of(l.c)
    i = I.facts.const(l.i)
    if i is None:
        raise Undecided('C string offset')
    if l.c.T is None or l.c.T.q == 'std::basic_string':
        segs = I.seq_split(q.segs, i)[1]
        if all(s[0] == 'e' and isinstance(s[1], int) for s in segs):
            out = []
            for s in segs:
                if s[1] == 0:
                    break
                out.append(s)
            return Seq(out)
        if segs and segs[-1] == ('e', 0):
            segs = segs[:-1]
        return Seq(segs)        # assumes no embedded NUL
    out = []
    for s in I.seq_split(q.segs, i)[1]:
        if s[0] == 'e' and isinstance(s[1], int):
            if s[1] == 0:
                return Seq(out)
            out.append(s)
            continue
        if s[0] == 'f' and s[1] == 0:
            return Seq(out)
        return opaque_str('cstr:' + repr(q))
    I.fail('bounds', 'unterminated C string')


def substr(I, v, pos, n):
    ln = seqlen(v)
    if not I.branch(cle(pos, ln)):
        I.throw_std('std::out_of_range')
    rest = sub(ln, pos)
    if n is None or I.branch(cle(rest, n)):
        n = rest
    return seq_norm(I.seq_slice(v, pos, n), I.facts)


@m('std::basic_string::substr')
def f(I, ref, this, a, node):
    return substr(I, I.seq_of(this), I.rd(a[0]) if a else 0, I.rd(a[1]) if len(a) > 1 else None)


@m('std::vector::size|std::basic_string::size|std::basic_string::length|std::array::size|std::initializer_list::size|std::deque::size|std::basic_string_view::size|std::basic_string_view::length|std::list::size')
def f(I, ref, this, a, node):
    if ref.rec.q == 'std::array':
        return ref.rec.ta[1]
    return seqlen(I.seq_of(this))


@m('std::vector::empty|std::basic_string::empty|std::deque::empty|std::basic_string_view::empty|std::list::empty|std::array::empty')
def f(I, ref, this, a, node):
    return ceq(seqlen(I.seq_of(this)), 0)


@m('std::size|std::ssize')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    return len(v.nodes) if isinstance(v, MapV) else seqlen(v)


@m('std::empty')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    return not v.nodes if isinstance(v, MapV) else ceq(seqlen(v), 0)


@m('std::vector::max_size|std::basic_string::max_size')
def f(I, ref, this, a, node):
    return 2 ** 63 - 1


@m('std::vector::capacity|std::basic_string::capacity')
def f(I, ref, this, a, node):
    n = I.fresh('capacity', ref.r)
    I.assume(cle(seqlen(I.seq_of(this)), n))
    return n


@m('std::vector::begin|std::vector::cbegin|std::basic_string::begin|std::basic_string::cbegin|std::array::begin|std::array::cbegin|std::initializer_list::begin|std::vector::data|std::basic_string::data|std::basic_string::c_str|std::array::data|std::deque::begin|std::list::begin|std::basic_string_view::begin|std::basic_string_view::data|std::span::begin|std::span::data')
def f(I, ref, this, a, node):
    return Ptr(ElemLoc(I, this, 0), ref.r)


@m('std::vector::end|std::vector::cend|std::basic_string::end|std::basic_string::cend|std::array::end|std::array::cend|std::initializer_list::end|std::deque::end|std::list::end|std::basic_string_view::end')
def f(I, ref, this, a, node):
    return Ptr(ElemLoc(I, this, seqlen(I.seq_of(this))), ref.r)


@m('std::begin|std::cbegin|std::data')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    if isinstance(v, MapV):
        return MapIter(a[0], v.nodes[0] if v.nodes else None)
    return Ptr(ElemLoc(I, a[0], 0))


@m('std::end|std::cend')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    if isinstance(v, MapV):
        return MapIter(a[0], None)
    return Ptr(ElemLoc(I, a[0], seqlen(v)))


@m('std::vector::rbegin|std::vector::crbegin|std::basic_string::rbegin')
def f(I, ref, this, a, node):
    return RevIt(Ptr(ElemLoc(I, this, seqlen(I.seq_of(this)))))


@m('std::vector::rend|std::vector::crend|std::basic_string::rend')
def f(I, ref, this, a, node):
    return RevIt(Ptr(ElemLoc(I, this, 0)))


@m('std::vector::operator[]|std::basic_string::operator[]|std::array::operator[]|std::deque::operator[]|std::basic_string_view::operator[]|std::span::operator[]')
def f(I, ref, this, a, node):
    i = I.rd(a[0])
    if ref.rec.q == 'std::basic_string':
        n = seqlen(I.seq_of(this))
        if I.facts.decide(ceq(i, n)) is True:
            return 0
    return I.elem_ref(this, i)


@m('std::vector::at|std::basic_string::at|std::array::at|std::deque::at')
def f(I, ref, this, a, node):
    i = I.rd(a[0])
    n = seqlen(I.seq_of(this))
    if not I.branch(clt(i, n)):
        I.throw_std('std::out_of_range')
    return I.elem_ref(this, i)


@m('std::vector::front|std::basic_string::front|std::array::front|std::deque::front')
def f(I, ref, this, a, node):
    return I.elem_ref(this, 0)


@m('std::vector::back|std::basic_string::back|std::array::back|std::deque::back')
def f(I, ref, this, a, node):
    return I.elem_ref(this, sub(seqlen(I.seq_of(this)), 1))


def append(I, c, segs):
    q = I.seq_of(c)
    I.store(c, seq_norm(list(q.segs) + list(segs), I.facts))


@m('std::vector::push_back|std::basic_string::push_back|std::deque::push_back|std::list::push_back')
def f(I, ref, this, a, node):
    et = et_of(I, this, ref)
    append(I, this, [('e', mkelem(I, et, a[0], ref.ps[0].k == 'rref'))])


@m('std::vector::emplace_back|std::deque::emplace_back|std::list::emplace_back')
def f(I, ref, this, a, node):
    et = et_of(I, this, ref)
    v = construct_with(I, et, a, ref.ps)
    append(I, this, [('e', v if I.is_scalar(et) else I.new_cell(et, v))])
    return I.elem_ref(this, sub(seqlen(I.seq_of(this)), 1))


@m('std::vector::pop_back|std::basic_string::pop_back|std::deque::pop_back')
def f(I, ref, this, a, node):
    q = I.seq_of(this)
    n = seqlen(q)
    I.oblige('bounds', cle(1, n), 'pop_back on an empty sequence')
    l, r = I.seq_split(q.segs, sub(n, 1))
    I.store(this, seq_norm(l, I.facts))
    for s in r:
        if s[0] == 'e' and isinstance(s[1], Cell):
            I.destroy_cell(s[1])


@m('std::vector::clear|std::basic_string::clear|std::deque::clear|std::list::clear')
def f(I, ref, this, a, node):
    q = I.seq_of(this)
    I.store(this, Seq())
    I.destroy_value(q)


@m('std::vector::reserve|std::basic_string::reserve')
def f(I, ref, this, a, node):
    if a:
        alloc(I, I.rd(a[0]))


@m('std::vector::shrink_to_fit|std::basic_string::shrink_to_fit')
def f(I, ref, this, a, node):
    return None


@m('std::vector::resize|std::basic_string::resize|std::deque::resize')
def f(I, ref, this, a, node):
    et = et_of(I, this, ref)
    n = I.rd(a[0])
    alloc(I, n)
    q = I.seq_of(this)
    if I.is_scalar(et):
        v = I.rd(a[1]) if len(a) > 1 else I.zero_value(et)
        I.store(this, I.seq_resize(q, n, v))
        return
    c, k = I.facts.const(n), I.facts.const(seqlen(q))
    if c is None or k is None:
        raise Undecided('symbolic resize of objects')
    if c <= k:
        I.store(this, Seq(q.segs[:c]))
        for s in q.segs[c:]:
            I.destroy_cell(s[1])
    else:
        I.store(this, Seq(list(q.segs) + [('e', mkelem(I, et, a[1]) if len(a) > 1 else I.new_cell(et, I.default_value(et))) for _ in range(c - k)]))


@m('std::vector::insert|std::basic_string::insert|std::deque::insert')
def f(I, ref, this, a, node):
    et = et_of(I, this, ref)
    pos = I.val(a[0])
    q = I.seq_of(this)
    if not isinstance(pos, Ptr):
        if ref.rec.q == 'std::basic_string':
            i = I.rd(a[0])
            x = I.val(a[1])
            segs = cstr(I, x).segs if isinstance(x, Ptr) else I.seq_of(a[1]).segs
            I.store(this, I.seq_replace(q, i, 0, segs))
            return this
        raise Undecided('insert')
    if not (isinstance(pos.loc, ElemLoc) and pos.loc.c is this):
        raise Undecided('insert position')
    i = pos.loc.i
    I.oblige('bounds', cand(cle(0, i), cle(i, seqlen(q))), 'insert position')
    ps = ref.ps
    p1 = bare(ps[1])
    if len(a) == 2:
        if p1.q == 'std::initializer_list':
            segs = I.copy_value(I.seq_of(a[1])).segs
        else:
            segs = [('e', mkelem(I, et, a[1], ps[1].k == 'rref'))]
    elif p1.k == 'int' and bare(ps[2]).k != 'ptr':
        n = I.rd(a[1])
        alloc(I, n)
        segs = fill_seq(I, et, n, a[2]).segs
    else:
        segs = range_segs(I, a[1], a[2], et)
    I.store(this, I.seq_replace(q, i, 0, segs))
    return Ptr(ElemLoc(I, this, i), ref.r)


@m('std::vector::assign|std::basic_string::assign')
def f(I, ref, this, a, node):
    et = et_of(I, this, ref)
    p0 = bare(ref.ps[0])
    if len(a) == 1:
        x = I.val(a[0])
        v = cstr(I, x) if isinstance(x, Ptr) else I.copy_value(x)
    elif p0.k == 'int':
        v = fill_seq(I, et, I.rd(a[0]), a[1])
    elif p0.k == 'ptr' and bare(ref.ps[1]).k == 'int':
        p = I.val(a[0])
        v = seq_norm(range_segs(I, p, I.ptr_elem(p, I.rd(a[1])), et), I.facts)
    else:
        v = seq_norm(range_segs(I, a[0], a[1], et), I.facts)
    I.store(this, v)
    return this if ref.rec.q == 'std::basic_string' else None


@m('std::vector::erase|std::basic_string::erase|std::deque::erase')
def f(I, ref, this, a, node):
    q = I.seq_of(this)
    p = I.val(a[0])
    if not isinstance(p, Ptr):
        raise Undecided('erase')
    if not (isinstance(p.loc, ElemLoc) and p.loc.c is this):
        raise Undecided('erase position')
    i = p.loc.i
    if len(a) > 1:
        _, i, n = seq_range(I, p, I.val(a[1]), 'erase')
    else:
        I.oblige('bounds', cand(cle(0, i), clt(i, seqlen(q))), 'erase position')
        n = 1
    gone = I.seq_slice(q, i, n)
    I.store(this, I.seq_replace(q, i, n, []))
    for s in gone:
        if s[0] == 'e' and isinstance(s[1], Cell):
            I.destroy_cell(s[1])
    return Ptr(ElemLoc(I, this, i), ref.r)


@m('std::vector::operator=|std::basic_string::operator=|std::array::operator=|std::initializer_list::operator=|std::deque::operator=')
def f(I, ref, this, a, node):
    old = I.seq_of(this)
    p0 = bare(ref.ps[0])
    x = I.val(a[0])
    if isinstance(x, Ptr):
        v = cstr(I, x)
    elif isinstance(x, (int, Lin)):
        v = Seq([('e', x)])
    elif a[0] is this:
        return this
    elif ref.ps[0].k == 'rref' and isinstance(a[0], Loc):
        v = I.move_from(a[0])
    else:
        v = I.copy_value(x)
    I.store(this, v)
    I.destroy_value(old)
    return this


@m('std::vector::swap|std::basic_string::swap|std::map::swap|std::shared_ptr::swap|std::unique_ptr::swap|std::__shared_ptr::swap')
def f(I, ref, this, a, node):
    x, y = I.val(this), I.val(a[0])
    I.store(this, y)
    I.store(a[0], x)


@m('std::swap')
def f(I, ref, this, a, node):
    x, y = I.val(a[0]), I.val(a[1])
    if isinstance(x, Obj):
        t = I.copy_value(x)
        c = I.new_cell(x.T, t)
        I.assign(a[0], y)
        I.assign(a[1], t)
        return
    I.store(a[0], y)
    I.store(a[1], x)


def to_segs(I, x):
    v = I.val(x)
    if isinstance(v, Seq):
        return v.segs
    if isinstance(v, Ptr):
        return cstr(I, v).segs
    if isinstance(v, (int, Lin)):
        return (('e', v),)
    raise Undecided('string operand')


@m('std::basic_string::operator+=|std::basic_string::append')
def f(I, ref, this, a, node):
    if len(a) == 2:
        p0 = bare(ref.ps[0])
        if p0.k == 'int':
            segs = [('f', I.rd(a[1]), I.rd(a[0]))]
        elif bare(ref.ps[1]).k == 'int':
            p = I.val(a[0])
            segs = range_segs(I, p, I.ptr_elem(p, I.rd(a[1])), CHAR)
        else:
            segs = range_segs(I, a[0], a[1], CHAR)
    else:
        segs = to_segs(I, a[0])
    append(I, this, segs)
    return this


@m('std::basic_string::compare')
def f(I, ref, this, a, node):
    x = Seq(to_segs(I, a[0]))
    s = I.seq_of(this)
    if I.truth(I.std.seq_eq(I, s, x)):
        return 0
    return -1 if I.truth(I.std.seq_lt(I, s, x)) else 1


@m('std::to_string')
def f(I, ref, this, a, node):
    v = I.rd(a[0])
    return dectext(v) if isinstance(v, (int, Lin, Cond)) else opaque_str('fmt:' + repr(v))


@m('std::stoi|std::stol|std::stoul')
def f(I, ref, this, a, node):
    raise Undecided(ref.q)


# ---------------------------------------------------------------- iterators (class types)
@m('__gnu_cxx::__normal_iterator::__normal_iterator|std::_Rb_tree_iterator::_Rb_tree_iterator|std::_Rb_tree_const_iterator::_Rb_tree_const_iterator|std::__detail::_Node_iterator::_Node_iterator|std::__detail::_Node_const_iterator::_Node_const_iterator|std::reverse_iterator::reverse_iterator')
def f(I, ref, this, a, node):
    if not a:
        return Ptr(None)
    v = I.val(a[0])
    return RevIt(v) if ref.rec.q == 'std::reverse_iterator' and not isinstance(v, RevIt) else v


ITS = ['__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::reverse_iterator', 'std::_Deque_iterator', 'std::_List_iterator']


def itm(op):
    return m(*[c + '::' + op for c in ITS])


@itm('operator*')
def f(I, ref, this, a, node):
    return iter_deref(I, I.val(this))


@itm('operator->')
def f(I, ref, this, a, node):
    return Ptr(iter_deref(I, I.val(this)), ref.r)


@itm('operator[]')
def f(I, ref, this, a, node):
    return iter_deref(I, I.ptr_elem(I.val(this), I.rd(a[0])))


@itm('operator++')
def f(I, ref, this, a, node):
    v = I.val(this)
    I.store(this, iter_next(I, v))
    return v if a else this


@itm('operator--')
def f(I, ref, this, a, node):
    v = I.val(this)
    I.store(this, iter_prev(I, v))
    return v if a else this


@itm('operator+')
def f(I, ref, this, a, node):
    return iter_add(I, I.val(this), I.rd(a[0]))


def iter_add(I, p, n):
    if isinstance(p, Ptr):
        r = I.ptr_elem(p, n)
        if isinstance(r.loc, ElemLoc):
            ln = seqlen(I.seq_of(r.loc.c))
            I.oblige('bounds', cand(cle(0, r.loc.i), cle(r.loc.i, ln)), lambda: f'iterator moved to position {r.loc.i!r} of a sequence of {ln!r} elements')
        return r
    if isinstance(p, RevIt):
        return RevIt(iter_add(I, p.it, scale(n, -1)))
    raise Undecided('iterator arithmetic')


@itm('operator-')
def f(I, ref, this, a, node):
    return iter_add(I, I.val(this), scale(I.rd(a[0]), -1))


@itm('operator+=')
def f(I, ref, this, a, node):
    I.store(this, iter_add(I, I.val(this), I.rd(a[0])))
    return this


@itm('operator-=')
def f(I, ref, this, a, node):
    I.store(this, iter_add(I, I.val(this), scale(I.rd(a[0]), -1)))
    return this


@itm('operator=')
def f(I, ref, this, a, node):
    I.store(this, I.val(a[0]))
    return this


@itm('base')
def f(I, ref, this, a, node):
    v = I.val(this)
    return v.it if isinstance(v, RevIt) else v


@m('__gnu_cxx::operator-')
def f(I, ref, this, a, node):
    return I.binop('-', I.val(a[0]), I.val(a[1]), ref.r)


@m('__gnu_cxx::operator+')
def f(I, ref, this, a, node):
    x, y = I.val(a[0]), I.val(a[1])
    return iter_add(I, y, x) if isinstance(y, Ptr) else iter_add(I, x, y)


@m('__gnu_cxx::operator==|std::__detail::operator==|std::_Rb_tree_iterator::operator==|std::_Rb_tree_const_iterator::operator==')
def f(I, ref, this, a, node):
    if this is not None:
        a = [this] + a
    return iter_eq(I, I.val(a[0]), I.val(a[1]))


@m('__gnu_cxx::operator!=|std::__detail::operator!=')
def f(I, ref, this, a, node):
    return iter_eq(I, I.val(a[0]), I.val(a[1]), neg=True)


@m('__gnu_cxx::operator<=>')
def f(I, ref, this, a, node):
    x, y = I.val(a[0]).loc.i, I.val(a[1]).loc.i
    return OrdV(clt(x, y), ceq(x, y))


for _o in ('<', '>', '<=', '>='):
    def _mk(o):
        def f(I, ref, this, a, node):
            return I.binop(o, I.val(a[0]), I.val(a[1]), ref.r)
        return f
    H['__gnu_cxx::operator' + _o] = _mk(_o)


@m('std::next')
def f(I, ref, this, a, node):
    n = I.facts.const(I.rd(a[1])) if len(a) > 1 else 1
    it = I.val(a[0])
    if isinstance(it, Ptr):
        return iter_add(I, it, I.rd(a[1]) if len(a) > 1 else 1)
    if n is None:
        raise Undecided('next')
    return iter_next(I, it, n)


@m('std::prev')
def f(I, ref, this, a, node):
    it = I.val(a[0])
    if isinstance(it, Ptr):
        return iter_add(I, it, scale(I.rd(a[1]), -1) if len(a) > 1 else -1)
    return iter_prev(I, it)


@m('std::advance')
def f(I, ref, this, a, node):
    it = I.val(a[0])
    n = I.rd(a[1])
    if isinstance(it, Ptr):
        I.store(a[0], iter_add(I, it, n))
    else:
        I.store(a[0], iter_next(I, it, I.facts.const(n)))


@m('std::distance')
def f(I, ref, this, a, node):
    x, y = I.val(a[0]), I.val(a[1])
    if isinstance(x, Ptr):
        if isinstance(x.loc, ElemLoc) and isinstance(y.loc, ElemLoc):
            return sub(y.loc.i, x.loc.i)
    n = 0
    while isinstance(x, MapIter) and x.node is not y.node:
        x = map_next(I, x)
        n += 1
    return n


@m('std::back_inserter')
def f(I, ref, this, a, node):
    return BackIns(a[0])


@m('std::inserter')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    if isinstance(v, MapV):
        return BackIns(a[0], 'map')
    p = I.val(a[1])
    if I.facts.decide(ceq(p.loc.i, seqlen(v))) is True:
        return BackIns(a[0])
    raise Undecided('inserter')


# ---------------------------------------------------------------- algorithms
def iterate(I, a, b):
    """element locations of [a,b)"""
    a, b = I.val(a), I.val(b)
    und = 0
    if isinstance(a, Ptr):
        seq_range(I, a, b)
    while True:
        c = iter_eq(I, a, b)
        if I.facts.decide(c) is None:
            und += 1
            if und > I.UNROLL + 1:
                raise PathEnd('cut', 'algorithm over a sequence of unknown length')
        if I.truth(c):
            return
        yield a
        a = iter_next(I, a)


@m('std::copy|std::move_range|std::copy_n|std::copy_backward')
def f(I, ref, this, a, node):
    if ref.q == 'std::copy_n':
        n = I.rd(a[1])
        first = I.val(a[0])
        last = I.ptr_elem(first, n) if isinstance(first, Ptr) else None
        out = I.val(a[2])
    else:
        first, last, out = I.val(a[0]), I.val(a[1]), I.val(a[2])
    if ref.q == 'std::copy_backward':
        raise Undecided(ref.q)
    return copy_to(I, first, last, out)


def copy_to(I, first, last, out):
    if isinstance(out, BackIns):
        if out.mode == 'map':
            raise Undecided('copy into a map')
        et = et_of(I, out.c)
        append(I, out.c, range_segs(I, first, last, et))
        return out
    if isinstance(out, Opaque) and out.what.startswith('stream'):
        return out
    if isinstance(out, Ptr) and isinstance(out.loc, ElemLoc):
        c = out.loc.c
        et = et_of(I, c)
        segs = range_segs(I, first, last, et)
        n = seqlen(Seq(segs))
        ln = seqlen(I.seq_of(c))
        I.oblige('bounds', cand(cle(0, out.loc.i), cle(add(out.loc.i, n), ln)), lambda: f'{n!r} elements copied to position {out.loc.i!r} of a sequence of {ln!r} elements')
        I.store(c, I.seq_replace(I.seq_of(c), out.loc.i, n, segs))
        return I.ptr_elem(out, n)
    if isinstance(out, Ptr) and isinstance(out.loc, ByteLoc):
        segs = range_segs(I, first, last, out.loc.T)
        n = I.facts.const(seqlen(Seq(segs)))
        o = I.facts.const(out.loc.off)
        if n is None or n > 64:
            raise Undecided('copy into a scalar')
        I.oblige('bounds', o + n <= out.loc.l.T.sz, lambda: f'{n} bytes copied to byte {o} of a {out.loc.l.T.s}')
        c = I.new_cell(None, Seq(segs))
        for k in range(n):
            I.store(ByteLoc(I, out.loc.l, o + k, out.loc.T), ElemLoc(I, c, k).get())
        return I.ptr_elem(out, n)
    if isinstance(out, RevIt):
        raise Undecided('copy to a reverse iterator')
    raise Undecided('copy destination')


@m('std::copy_if|std::remove_copy_if')
def f(I, ref, this, a, node):
    out = I.val(a[2])
    for it in iterate(I, a[0], a[1]):
        x = iter_deref(I, it)
        t = I.truth(I.rd(I.call_lv(a[3], [x])))
        if t == (ref.q == 'std::copy_if'):
            out = put(I, out, x)
    return out


def put(I, out, x):
    if isinstance(out, BackIns):
        if out.mode == 'map':
            map_insert(I, out.c, None, x)
            return out
        append(I, out.c, [('e', mkelem(I, et_of(I, out.c), x))])
        return out
    l = iter_deref(I, out)
    if isinstance(l, Obj):
        I.assign(l, x)
    else:
        I.store(l, I.copy_value(I.val(x)))
    return iter_next(I, out)


@m('std::transform')
def f(I, ref, this, a, node):
    if len(a) == 5:
        out = I.val(a[3])
        j = I.val(a[2])
        for it in iterate(I, a[0], a[1]):
            out = put(I, out, I.call_lv(a[4], [iter_deref(I, it), iter_deref(I, j)]))
            j = iter_next(I, j)
        return out
    out = I.val(a[2])
    for it in iterate(I, a[0], a[1]):
        out = put(I, out, I.call_lv(a[3], [iter_deref(I, it)]))
    return out


@m('std::for_each')
def f(I, ref, this, a, node):
    for it in iterate(I, a[0], a[1]):
        I.call_lv(a[2], [iter_deref(I, it)])
    return I.val(a[2])


@m('std::find_if|std::find_if_not|std::find')
def f(I, ref, this, a, node):
    last = I.val(a[1])
    for it in iterate(I, a[0], a[1]):
        x = iter_deref(I, it)
        t = I.truth(I.eq_values(x, a[2]) if ref.q == 'std::find' else I.rd(I.call_lv(a[2], [x])))
        if t != (ref.q == 'std::find_if_not'):
            return it
    return last


@m('std::any_of|std::all_of|std::none_of|std::count_if|std::count')
def f(I, ref, this, a, node):
    n = 0
    for it in iterate(I, a[0], a[1]):
        x = iter_deref(I, it)
        t = I.truth(I.eq_values(x, a[2]) if ref.q == 'std::count' else I.rd(I.call_lv(a[2], [x])))
        if ref.q == 'std::any_of' and t:
            return True
        if ref.q == 'std::all_of' and not t:
            return False
        if ref.q == 'std::none_of' and t:
            return False
        n += t
    if ref.q.startswith('std::count'):
        return n
    return ref.q != 'std::any_of'


@m('std::accumulate')
def f(I, ref, this, a, node):
    acc = I.rd(a[2])
    for it in iterate(I, a[0], a[1]):
        x = iter_deref(I, it)
        if len(a) > 3:
            acc = I.rd(I.call_lv(a[3], [acc, x]))
        else:
            acc = I.arith('+', acc, I.rd(x), ref.r)
    return acc


@m('std::max_element|std::min_element')
def f(I, ref, this, a, node):
    best = None
    for it in iterate(I, a[0], a[1]):
        if best is None:
            best = it
            continue
        x, y = iter_deref(I, best), iter_deref(I, it)
        if ref.q == 'std::min_element':
            x, y = y, x
        t = I.truth(I.rd(I.call_lv(a[2], [x, y])) if len(a) > 2 else I.lt_values(x, y))
        if t:
            best = it
    return best if best is not None else I.val(a[1])


@m('std::fill|std::fill_n')
def f(I, ref, this, a, node):
    p = I.val(a[0])
    v = I.rd(a[2])
    if isinstance(p, BackIns):
        append(I, p.c, [('f', v, I.rd(a[1]))])
        return p
    if not (isinstance(p, Ptr) and isinstance(p.loc, ElemLoc)):
        raise Undecided('fill')
    last = I.val(a[1]) if ref.q == 'std::fill' else I.ptr_elem(p, I.rd(a[1]))
    c, i, n = seq_range(I, p, last, 'fill')
    et = et_of(I, c)
    if not I.is_scalar(et):
        raise Undecided('fill of objects')
    I.store(c, I.seq_replace(I.seq_of(c), i, n, [('f', conv_elem(I, v, et, et), n)]))
    return last


@m('std::equal')
def f(I, ref, this, a, node):
    x = Seq(range_segs(I, a[0], a[1]))
    p = I.val(a[2])
    if len(a) == 4:
        y = Seq(range_segs(I, a[2], a[3]))
    else:
        y = Seq(range_segs(I, p, I.ptr_elem(p, seqlen(x))))
    return I.std.seq_eq(I, seq_norm(x.segs, I.facts), seq_norm(y.segs, I.facts))


@m('std::remove_if|std::remove')
def f(I, ref, this, a, node):
    out = I.val(a[0])
    for it in iterate(I, a[0], a[1]):
        x = iter_deref(I, it)
        t = I.truth(I.eq_values(x, a[2]) if ref.q == 'std::remove' else I.rd(I.call_lv(a[2], [x])))
        if not t:
            l = iter_deref(I, out)
            if l is not x:
                if isinstance(l, Obj):
                    I.assign(l, x, True)
                else:
                    I.store(l, I.val(x))
            out = iter_next(I, out)
    return out


@m('std::reverse')
def f(I, ref, this, a, node):
    c, i, n = seq_range(I, I.val(a[0]), I.val(a[1]))
    q = I.seq_of(c)
    segs = I.seq_slice(q, i, n)
    if not all(s[0] == 'e' for s in segs):
        raise Undecided('reverse')
    I.store(c, I.seq_replace(q, i, n, list(reversed(segs))))


@m('std::min|std::max')
def f(I, ref, this, a, node):
    isin = ref.q == 'std::min'
    if len(a) == 1:
        segs = I.seq_of(a[0]).segs
        best = segs[0][1]
        for s in segs[1:]:
            x, y = (s[1], best) if isin else (best, s[1])
            if I.truth(I.lt_values(x, y)):
                best = s[1]
        return best
    x, y = (a[1], a[0]) if isin else (a[0], a[1])
    t = I.truth(I.rd(I.call_lv(a[2], [x, y])) if len(a) > 2 else I.lt_values(x, y))
    return a[1] if t else a[0]


@m('std::clamp')
def f(I, ref, this, a, node):
    if I.truth(I.lt_values(a[0], a[1])):
        return a[1]
    if I.truth(I.lt_values(a[2], a[0])):
        return a[2]
    return a[0]


@m('std::sort|std::stable_sort')
def f(I, ref, this, a, node):
    c, i, n = seq_range(I, I.val(a[0]), I.val(a[1]))
    k = I.facts.const(n)
    if k is None:
        raise Undecided('sort')
    if k > 1:
        raise Undecided('sort')


@m('std::move|std::forward|std::as_const|std::addressof|std::ref|std::cref|std::launder|std::move_if_noexcept')
def f(I, ref, this, a, node):
    if ref.q == 'std::move' and len(a) == 3:
        return copy_to(I, I.val(a[0]), I.val(a[1]), I.val(a[2]))
    if ref.q == 'std::addressof':
        return Ptr(a[0], ref.r)
    return a[0]


@m('std::exchange')
def f(I, ref, this, a, node):
    old = I.move_from(a[0])
    I.store(a[0], I.copy_value(I.val(a[1])))
    return old


@m('std::swap_ranges|std::rotate|std::unique|std::search|std::mismatch|std::lexicographical_compare')
def f(I, ref, this, a, node):
    raise Undecided(ref.q)


@m('std::iota')
def f(I, ref, this, a, node):
    v = I.rd(a[2])
    for it in iterate(I, a[0], a[1]):
        l = iter_deref(I, it)
        I.store(l, wrap(v, l.T.w, l.T.sg, I.facts))
        v = add(v, 1)


# ---------------------------------------------------------------- comparison helpers
@m('std::operator==|std::operator!=|std::operator<|std::operator>|std::operator<=|std::operator>=')
def f(I, ref, this, a, node):
    op = ref.n[8:]
    x, y = I.val(a[0]), I.val(a[1])
    if isinstance(x, OrdV):
        return ord_cmp(x, op, y)
    if isinstance(y, OrdV):
        raise Undecided('reversed ordering')
    if isinstance(x, (MapIter, RevIt)):
        return iter_eq(I, x, y, neg=(op == '!='))
    if isinstance(x, Opt) or isinstance(y, Opt):
        if isinstance(y, Opaque) or isinstance(x, Opaque):
            o = x if isinstance(x, Opt) else y
            c = o.c is None
        else:
            if isinstance(x, Opt) and isinstance(y, Opt):
                c = (x.c is None) == (y.c is None) and (x.c is None or I.eq_values(x.c, y.c))
            else:
                o, v = (x, a[1]) if isinstance(x, Opt) else (y, a[0])
                c = o.c is not None and I.eq_values(o.c, v)
        return c if op == '==' else cnot(c)
    if isinstance(x, Fun) or isinstance(y, Fun):
        c = (x if isinstance(x, Fun) else y).t is None
        return c if op == '==' else cnot(c)
    if isinstance(x, (SP, UP, WP)) or isinstance(y, (SP, UP)):
        lx = x.loc if isinstance(x, (SP, UP)) else None
        ly = y.loc if isinstance(y, (SP, UP)) else None
        c = lx is ly
        if op in ('==', '!='):
            return c if op == '==' else not c
    if isinstance(x, Seq) or isinstance(y, Seq):
        x, y = Seq(to_segs(I, a[0])), Seq(to_segs(I, a[1]))
    if isinstance(x, MapV):
        raise Undecided('map comparison')
    if isinstance(x, ExcV):
        if op in ('==', '!='):
            c = I.eq_values(x.code, y.code if isinstance(y, ExcV) else I.rd(y))
            return c if op == '==' else cnot(c)
    if isinstance(x, TupV) and op in ('==', '!='):
        c = True
        for p, q in zip(x.cells, y.cells):
            c = cand(c, I.eq_values(p, q))
        return c if op == '==' else cnot(c)
    if isinstance(x, Obj) and x.T.q == 'std::pair' and op in ('==', '!='):
        c = cand(I.eq_values(x.f['first'], y.f['first']), I.eq_values(x.f['second'], y.f['second']))
        return c if op == '==' else cnot(c)
    return I.binop(op, x, y, ref.r)


def ord_cmp(x, op, y=0):
    lt, eq = x.lt, x.eq
    return {'<': lt, '==': eq, '!=': cnot(eq), '<=': cor(lt, eq), '>': cand(cnot(lt), cnot(eq)), '>=': cnot(lt)}[op]


@m('std::operator+')
def f(I, ref, this, a, node):
    out = []
    for v in a:
        x = I.val(v)
        if isinstance(x, Ptr):
            x = cstr(I, x)
        elif isinstance(x, (int, Lin)):
            x = Seq([('e', x)])
        if not isinstance(x, Seq):
            raise Undecided('operator+')
        out += list(x.segs)
    return Seq(out)


@m('std::operator<=>')
def f(I, ref, this, a, node):
    x, y = a[0], a[1]
    vx = I.val(x)
    if isinstance(vx, Seq) or isinstance(I.val(y), Seq):
        sx, sy = Seq(to_segs(I, x)), Seq(to_segs(I, y))
        return OrdV(I.std.seq_lt(I, sx, sy), I.std.seq_eq(I, sx, sy))
    if isinstance(vx, (SP, UP)):
        return OrdV(False, I.eq_values(vx, I.val(y)))
    return OrdV(I.lt_values(x, y), I.eq_values(x, y))


@m('std::__cmp_cat::__unspec::__unspec')
def f(I, ref, this, a, node):
    return Opaque('zero')


@m('std::less::less|std::equal_to::equal_to|std::hash::hash|std::allocator::allocator|std::greater::greater|std::plus::plus')
def f(I, ref, this, a, node):
    return Opaque(ref.rec.q)


@m('std::less::operator()|std::greater::operator()|std::equal_to::operator()')
def f(I, ref, this, a, node):
    return I.std.functor(I, Opaque(ref.rec.q), a)


# ---------------------------------------------------------------- pair / tuple / optional
def mkpair(I, T, x, y):
    o = Obj(I, T)
    for n, v, t in (('first', x, T.ta[0]), ('second', y, T.ta[1])):
        if isinstance(v, Obj) or not isinstance(v, Loc):
            pass
        else:
            v = I.copy_value(I.rd(v)) if I.is_scalar(t) else I.copy_value(I.load(v))
        v = conv_to(I, v, t)
        o.f[n] = I.new_cell(t, v, n)
    return o


def conv_to(I, v, T):
    """implicit conversion of a value to T (inside library templates)"""
    if T.k in ('int', 'enum') and isinstance(v, (int, Lin, Cond)) and not (isinstance(v, bool) and T.k == 'bool'):
        if isinstance(v, (bool, Cond)):
            v = b2i(v)
        return wrap(v, T.w, T.sg, I.facts)
    if T.k == 'bool' and not isinstance(v, (bool, Cond)) and isinstance(v, (int, Lin)):
        return i2b(v)
    if T.k == 'float' and isinstance(v, (int, Lin)):
        return float(v) if isinstance(v, int) else F('i2f', v)
    if T.q == 'std::basic_string' and isinstance(v, Ptr):
        return cstr(I, v)
    if T.q == 'std::function' and not isinstance(v, Fun):
        return Fun(v if not (isinstance(v, Ptr) and v.loc is None) else None)
    if T.q == 'std::shared_ptr' and isinstance(v, UP):
        return up_to_sp(I, v)
    if T.k == 'rec' and T.own and T.n in I.P.rec and not (isinstance(v, Obj) and I.derives(v.rec, T.n)):
        return construct_with(I, T, [v], None)
    if T.k == 'rec' and T.q == 'std::pair' and isinstance(v, Obj) and v.T is not T and v.T.q == 'std::pair':
        return mkpair(I, T, v.f['first'].v, v.f['second'].v)
    return v


def decay(I, x):
    """an array given to a template that takes it by reference, as the pointer a conversion sees"""
    if isinstance(x, Loc) and not isinstance(x, Obj) and getattr(getattr(x, 'T', None), 'k', None) == 'arr':
        return Ptr(ElemLoc(I, x, 0))
    return x


def conv_part(I, x, T):
    """a value given for an element of a pair, tuple or container of Ts"""
    if isinstance(x, Ptr) and T.q in ('std::basic_string', 'std::basic_string_view'):
        return cstr(I, x)
    if T.k in ('int', 'enum') and isinstance(x, (int, Lin)) and not isinstance(x, bool):
        return wrap(x, T.w, T.sg, I.facts)
    return x


@m('std::pair::pair')
def f(I, ref, this, a, node):
    if not a:
        return I.std.default(I, ref.rec)
    if len(a) == 1:
        x = I.val(a[0])
        o = I.move_from(x) if ref.ps[0].k == 'rref' and ref.ct == 'move' else I.copy_value(x)
        return mkpair(I, ref.rec, o.f['first'].v, o.f['second'].v)
    if len(a) == 2:
        xs, a = [], [decay(I, x) for x in a]
        for k in (0, 1):
            xs.append(I.move_from(a[k]) if ref.ps[k].k == 'rref' and isinstance(a[k], (Loc, Obj)) else (I.copy_value(I.load(a[k])) if isinstance(a[k], (Loc, Obj)) else a[k]))
        return mkpair(I, ref.rec, *[conv_part(I, x, t) for x, t in zip(xs, ref.rec.ta)])
    raise Undecided('pair constructor')


@m('std::make_pair')
def f(I, ref, this, a, node):
    xs, a = [], [decay(I, x) for x in a]
    for k in (0, 1):
        xs.append(I.move_from(a[k]) if ref.ps[k].k == 'rref' and isinstance(a[k], (Loc, Obj)) else (I.copy_value(I.load(a[k])) if isinstance(a[k], (Loc, Obj)) else a[k]))
    return mkpair(I, ref.r, *xs)


@m('std::pair::operator=')
def f(I, ref, this, a, node):
    x = I.val(a[0])
    o = I.val(this)
    for k in ('first', 'second'):
        c = o.f[k]
        if isinstance(c.v, RefV):
            I.assign_loc = None
            I.store(c.v.loc, I.copy_value(I.load(x.f[k]))) if not isinstance(c.v.loc, Obj) else I.assign(c.v.loc, x.f[k])
        else:
            I.assign(c, x.f[k])
    return this


@m('std::tie|std::forward_as_tuple')
def f(I, ref, this, a, node):
    return TupV([I.new_cell(None, RefV(x)) if isinstance(x, (Loc, Obj)) else I.new_cell(None, x) for x in a])


@m('std::tuple::tuple')
def f(I, ref, this, a, node):
    if ref.ct in ('copy', 'move'):
        return I.copy_value(I.val(a[0]))
    if a and len(a) != len(ref.rec.ta):
        raise Undecided('tuple constructor')
    return TupV([I.new_cell(t, conv_to(I, I.copy_value(I.rd(decay(I, x))), t)) for x, t in zip(a, ref.rec.ta)])


@m('std::make_tuple')
def f(I, ref, this, a, node):
    return TupV([I.new_cell(None, I.copy_value(I.rd(decay(I, x)))) for x in a])


@m('std::tuple::operator=')
def f(I, ref, this, a, node):
    d, s = I.val(this), I.val(a[0])
    sc = s.cells if isinstance(s, TupV) else [s.f['first'], s.f['second']]
    vals = [I.copy_value(I.load(c)) for c in sc]
    for c, v in zip(d.cells, vals):
        l = c.v.loc if isinstance(c.v, RefV) else c
        if isinstance(l, Obj):
            I.assign(l, v)
        elif l.T is None or l.T.q != 'std::ignore':
            I.store(l, conv_to(I, v, l.T) if l.T is not None else v)
    return this


@m('std::get')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    k = [x for x in (ref.ta or []) if isinstance(x, int)]
    if not k:
        raise Undecided('std::get by type')
    if isinstance(v, TupV):
        return I.lv(v.cells[k[0]])
    if isinstance(v, Obj) and 'first' in v.f:
        return I.lv(v.f['first' if k[0] == 0 else 'second'])
    if isinstance(v, Seq):
        return I.elem_ref(a[0], k[0])
    raise Undecided('std::get')


@m('std::optional::optional')
def f(I, ref, this, a, node):
    if not a or isinstance(I.val(a[0]), Opaque):
        return Opt()
    v = I.val(a[0])
    if isinstance(v, Opt):
        return I.copy_value(v)
    t = ref.rec.ta[0]
    return Opt(I.new_cell(t, conv_to(I, I.copy_value(I.rd(decay(I, a[0]))), t)))


@m('std::optional::operator=')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    t = ref.rec.ta[0]
    if isinstance(v, Opaque):
        I.store(this, Opt())
    elif isinstance(v, Opt):
        I.store(this, I.copy_value(v))
    else:
        I.store(this, Opt(I.new_cell(t, conv_to(I, I.copy_value(I.rd(decay(I, a[0]))), t))))
    return this


@m('std::optional::has_value|std::optional::operator bool')
def f(I, ref, this, a, node):
    return I.val(this).c is not None


@m('std::optional::reset')
def f(I, ref, this, a, node):
    I.store(this, Opt())


@m('std::optional::value')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.c is None:
        I.throw_std('std::bad_optional_access')
    return I.lv(v.c)


@m('std::optional::operator*')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.c is None:
        I.fail('null', 'empty optional dereferenced')
    return I.lv(v.c)


@m('std::optional::operator->')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.c is None:
        I.fail('null', 'empty optional dereferenced')
    return Ptr(I.lv(v.c), ref.r)


@m('std::optional::value_or')
def f(I, ref, this, a, node):
    v = I.val(this)
    return I.copy_value(I.load(v.c)) if v.c is not None else conv_to(I, I.copy_value(I.rd(decay(I, a[0]))), ref.rec.ta[0])


@m('std::make_optional')
def f(I, ref, this, a, node):
    t = ref.r.ta[0]
    return Opt(I.new_cell(t, conv_to(I, I.copy_value(I.rd(decay(I, a[0]))), t)))


# ---------------------------------------------------------------- smart pointers
def construct_with(I, T, args, ps):
    """T(args...) as a library template would construct it"""
    args = [decay(I, x) for x in args]
    if I.is_scalar(T):
        return conv_to(I, I.rd(args[0]), T) if args else I.zero_value(T)
    if not T.own or T.n not in I.P.rec:
        if T.q in SEQS and len(args) == 2 and isinstance(I.val(args[0]), Ptr):
            return seq_norm(range_segs(I, args[0], args[1], T.ta[0] if T.q != 'std::basic_string' else CHAR), I.facts)
        if T.q in SEQS and len(args) in (1, 2) and isinstance(I.val(args[0]), (int, Lin)):
            et = T.ta[0]
            return fill_seq(I, et, I.rd(args[0]), args[1] if len(args) > 1 else I.zero_value(et))
        if len(args) == 0:
            return I.std_default(T)
        if T.q == 'std::pair' and len(args) == 2:
            return mkpair(I, T, *[I.copy_value(I.rd(x)) for x in args])
        if len(args) == 1:
            x = args[0]
            v = I.move_from(x) if ps and ps[-1].k == 'rref' and isinstance(x, (Loc, Obj)) else I.copy_value(I.rd(x))
            return conv_to(I, v, T)
        raise Undecided('construction of ' + T.s)
    best = []
    for r in I.ctors(T):
        if r.del_ or len(r.ps) != len(args) and not (len(r.ps) > len(args) and r.id in I.P.body and all('di' in q for q in I.P.body[r.id]['params'][len(args):])):
            continue
        sc = 0
        for p, x in zip(r.ps, args):
            s = match(I, p, x)
            if s is None:
                sc = None
                break
            sc += s
        if sc is not None:
            best.append((sc, r))
    if not best:
        if not args:
            o = I.make_obj(T, True)
            I.implicit_default(o, T.n)
            return o
        raise Undecided(f'no constructor of {T.s} for {len(args)} arguments')
    best.sort(key=lambda x: -x[0])
    if len(best) > 1 and best[0][0] == best[1][0]:
        raise Undecided(f'ambiguous construction of {T.s}')
    r = best[0][1]
    if r.ct in ('copy', 'move') and r.id not in I.P.body:
        return I.copy_value(I.val(args[0])) if r.ct == 'copy' else I.move_from(args[0])
    args2 = []
    for p, x in zip(r.ps, args):
        if p.k in ('lref', 'rref'):
            if not isinstance(x, (Loc, Obj)):
                x = conv_to(I, x, p.to)
            elif p.to.q == 'std::basic_string' and isinstance(I.val(x), Ptr):
                x = cstr(I, I.val(x))
            args2.append(x)
        else:
            v = I.move_from(x) if isinstance(x, (Loc, Obj)) and not I.is_scalar(p) and False else I.copy_value(I.rd(x))
            args2.append(conv_to(I, v, p))
    for q in I.P.body[r.id]['params'][len(args):] if len(r.ps) > len(args) else ():
        args2.append(I.default_arg(q, r))
    o = I.make_obj(T)
    I.run_ctor(o, r, args2, T)
    return o


def match(I, p, x):
    t = bare(p)
    v = I.val(x)
    if isinstance(v, Obj):
        if t.k != 'rec' or not t.n:
            return None
        if t.n == v.rec:
            return 3
        if I.derives(v.rec, t.n):
            return 2
        return None
    if isinstance(v, (bool, Cond)):
        return 3 if t.k == 'bool' else 1 if t.k in ('int', 'float') else None
    if isinstance(v, (int, Lin)):
        xt = getattr(x, 'T', None)
        if t.k in ('int', 'enum'):
            return 3 if xt is not None and xt.w == t.w and xt.sg == t.sg and xt.k == t.k else 2
        return 1 if t.k in ('float', 'bool') else None
    if isinstance(v, (F, float)):
        return 3 if t.k == 'float' else 1 if t.k == 'int' else None
    if isinstance(v, Seq):
        if t.q in SEQS:
            xt = getattr(x, 'T', None)
            return 3 if xt is None or xt.q == t.q else 1
        return None
    if isinstance(v, SP):
        return 3 if t.q in ('std::shared_ptr', 'std::weak_ptr') else None
    if isinstance(v, UP):
        return 3 if t.q == 'std::unique_ptr' else None
    if isinstance(v, Fun):
        return 3 if t.q == 'std::function' else None
    if isinstance(v, Ptr):
        return 3 if t.k == 'ptr' else 2 if t.q == 'std::basic_string' else None
    if isinstance(v, Dur):
        return 3 if t.q in ('std::chrono::duration', 'std::chrono::time_point') else None
    if isinstance(v, MapV):
        return 3 if t.q in MAPS else None
    return 1 if t.k == 'rec' else None


@m('std::make_shared|std::allocate_shared')
def f(I, ref, this, a, node):
    T = ref.r.ta[0]
    if ref.q == 'std::allocate_shared':
        a = a[1:]
    v = construct_with(I, T, a, ref.ps)
    loc = v if isinstance(v, Obj) else I.new_cell(T, v)
    return SP(Ctrl(I, loc))


@m('std::make_unique')
def f(I, ref, this, a, node):
    T = ref.r.ta[0]
    if T.k == 'arr' or T.k == 'other':
        n = I.rd(a[0])
        alloc(I, n)
        from .interp import _ArrT
        et = T.to
        if et is None:
            raise Undecided('array unique_ptr')
        c = I.new_cell(_ArrT(et), seq_norm([('f', I.zero_value(et), n)], I.facts))
        return UP(ElemLoc(I, c, 0))
    v = construct_with(I, T, a, ref.ps)
    return UP(v if isinstance(v, Obj) else I.new_cell(T, v))


def up_to_sp(I, u):
    if u.loc is None:
        return SP()
    return SP(Ctrl(I, u.loc))


@m('std::shared_ptr::shared_ptr|std::__shared_ptr::__shared_ptr')
def f(I, ref, this, a, node):
    if not a:
        return SP()
    v = I.val(a[0])
    if isinstance(v, SP):
        if len(a) == 2:
            p = I.val(a[1])
            return SP(v.ctrl, p.loc)
        if ref.ps[0].k == 'rref' and isinstance(a[0], Loc):
            I.store(a[0], SP())
        return SP(v.ctrl, v.loc)
    if isinstance(v, UP):
        if isinstance(a[0], Loc):
            I.store(a[0], UP())
        return up_to_sp(I, v)
    if isinstance(v, WP):
        if v.ctrl is None or not v.ctrl.alive:
            I.throw_std('std::bad_weak_ptr')
        return SP(v.ctrl, v.loc)
    if len(a) > 1:
        raise Undecided('shared_ptr with a deleter')
    if isinstance(v, Ptr):
        if v.loc is None:
            return SP()
        return SP(Ctrl(I, v.loc))
    raise Undecided('shared_ptr constructor')


@m('std::shared_ptr::operator=|std::__shared_ptr::operator=')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    if isinstance(v, SP):
        if ref.ps[0].k == 'rref' and isinstance(a[0], Loc) and a[0] is not this:
            I.store(a[0], SP())
        nv = SP(v.ctrl, v.loc)
    elif isinstance(v, UP):
        if isinstance(a[0], Loc):
            I.store(a[0], UP())
        nv = up_to_sp(I, v)
    elif isinstance(v, Ptr) or isinstance(v, Opaque):
        nv = SP()
    else:
        raise Undecided('shared_ptr assignment')
    old = I.val(this)
    I.store(this, nv)
    if old.loc is not None:
        I.dropped = True
    return this


@m('std::__shared_ptr::reset|std::shared_ptr::reset')
def f(I, ref, this, a, node):
    nv = SP()
    if a:
        p = I.val(a[0])
        nv = SP(Ctrl(I, p.loc)) if p.loc is not None else SP()
    I.store(this, nv)
    I.dropped = True
    I.gc()


@m('std::unique_ptr::unique_ptr')
def f(I, ref, this, a, node):
    if len(a) > 1 or (ref.rec is not None and ref.rec.ta and len(ref.rec.ta) > 1 and ref.rec.ta[1].q not in ('std::default_delete', None, '')):
        raise Undecided('unique_ptr with a deleter')
    if not a:
        return UP()
    v = I.val(a[0])
    if isinstance(v, UP):
        if isinstance(a[0], Loc):
            I.store(a[0], UP())
        return UP(v.loc)
    if isinstance(v, Ptr):
        return UP(v.loc)
    raise Undecided('unique_ptr constructor')


@m('std::unique_ptr::operator=')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    old = I.val(this)
    if isinstance(v, UP):
        if a[0] is this:
            return this
        if isinstance(a[0], Loc):
            I.store(a[0], UP())
        I.store(this, UP(v.loc))
    elif isinstance(v, Ptr):
        I.store(this, UP())
    else:
        raise Undecided('unique_ptr assignment')
    I.destroy_value(old)
    return this


@m('std::unique_ptr::reset')
def f(I, ref, this, a, node):
    old = I.val(this)
    p = I.val(a[0]) if a else Ptr(None)
    I.store(this, UP(p.loc))
    I.destroy_value(old)


@m('std::unique_ptr::release')
def f(I, ref, this, a, node):
    v = I.val(this)
    I.store(this, UP())
    return Ptr(v.loc, ref.r)


@m('std::unique_ptr::get|std::__shared_ptr::get|std::shared_ptr::get')
def f(I, ref, this, a, node):
    v = I.val(this)
    return Ptr(v.loc, ref.r)


@m('std::unique_ptr::operator->|std::__shared_ptr_access::operator->|std::shared_ptr::operator->')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.loc is None:
        I.fail('null', f'an empty pointer is dereferenced')
    return Ptr(v.loc, ref.r)


@m('std::unique_ptr::operator*|std::__shared_ptr_access::operator*|std::shared_ptr::operator*')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.loc is None:
        I.fail('null', 'an empty pointer is dereferenced')
    return I.lv(v.loc)


@m('std::unique_ptr::operator[]')
def f(I, ref, this, a, node):
    v = I.val(this)
    return I.deref_e(I.ptr_elem(Ptr(v.loc), I.rd(a[0])))


@m('std::unique_ptr::operator bool|std::__shared_ptr::operator bool|std::shared_ptr::operator bool')
def f(I, ref, this, a, node):
    return I.val(this).loc is not None


@m('std::__shared_ptr::use_count|std::shared_ptr::use_count|std::__weak_ptr::use_count')
def f(I, ref, this, a, node):
    raise Undecided('use_count')


@m('std::static_pointer_cast|std::const_pointer_cast')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    return SP(v.ctrl, v.loc)


@m('std::dynamic_pointer_cast')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    if v.loc is None or not I.derives(v.loc.rec, ref.r.ta[0].n):
        return SP()
    return SP(v.ctrl, v.loc)


@m('std::weak_ptr::weak_ptr|std::weak_ptr::operator=|std::__weak_ptr::operator=')
def f(I, ref, this, a, node):
    v = I.val(a[0]) if a else WP()
    if not isinstance(v, (SP, WP)):
        raise Undecided('weak_ptr')
    w = WP(v.ctrl, v.loc)
    if ref.n == 'operator=':
        I.store(this, w)
        return this
    return w


@m('std::weak_ptr::lock')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.ctrl is None:
        return SP()
    I.dropped = True
    I.gc()
    return SP(v.ctrl, v.loc) if v.ctrl.alive else SP()


@m('std::weak_ptr::expired|std::__weak_ptr::expired')
def f(I, ref, this, a, node):
    v = I.val(this)
    I.dropped = True
    I.gc()
    return v.ctrl is None or not v.ctrl.alive


@m('std::weak_ptr::reset|std::__weak_ptr::reset')
def f(I, ref, this, a, node):
    I.store(this, WP())


@m('std::enable_shared_from_this::shared_from_this|std::enable_shared_from_this::weak_from_this')
def f(I, ref, this, a, node):
    for c in I.heap:
        if c.obj is this and c.alive:
            return SP(c, this) if ref.n == 'shared_from_this' else WP(c, this)
    I.throw_std('std::bad_weak_ptr')


@m('std::enable_shared_from_this::enable_shared_from_this')
def f(I, ref, this, a, node):
    return Opaque('esft')


# ---------------------------------------------------------------- function
@m('std::function::function|std::function::operator=')
def f(I, ref, this, a, node):
    if not a:
        nv = Fun(None)
    else:
        v = I.val(a[0])
        if isinstance(v, Fun):
            nv = I.copy_value(v) if ref.ps[0].k != 'rref' or not isinstance(a[0], Loc) else I.move_from(a[0])
            if not isinstance(nv, Fun):
                nv = Fun(nv)
        elif isinstance(v, Ptr) and v.loc is None:
            nv = Fun(None)
        elif isinstance(v, Ptr) and isinstance(v.loc, FnPtr):
            nv = Fun(v.loc)
        elif isinstance(v, Obj):
            nv = Fun(I.copy_value(v))
        elif isinstance(v, (FnPtr, SymFn, BindV, Opaque)):
            nv = Fun(v)
        else:
            raise Undecided('std::function target')
    if ref.n == 'operator=':
        old = I.val(this)
        I.store(this, nv)
        I.destroy_value(old)
        return this
    return nv


@m('std::function::operator bool')
def f(I, ref, this, a, node):
    return I.val(this).t is not None


@m('std::function::operator()')
def f(I, ref, this, a, node):
    v = I.val(this)
    if v.t is None:
        I.throw_std('std::bad_function_call')
    # arguments are passed as declared by the signature
    t = v.t
    hold = len(I.hold)
    I.hold.append(a)
    # the target runs inside the function object: destroying or replacing it meanwhile ends its lifetime
    r = I.call_lv(t, a, node)
    del I.hold[hold:]
    return r


class BindV:
    def __init__(self, f, args):
        self.f, self.args = f, args


@m('std::bind')
def f(I, ref, this, a, node):
    fn = I.val(a[0])
    return Opaque2(fn, [I.val(x) if not isinstance(x, Obj) else x for x in a[1:]])


class Opaque2(Opaque):
    """std::bind result"""
    __slots__ = ('f', 'args')

    def __init__(self, f, args):
        self.what, self.f, self.args = 'bind', f, args

    def __call__(self, *xs):
        raise Undecided('bind')


# ---------------------------------------------------------------- maps
def map_eq(I, c, ref, k1, k2):
    T = ref.rec if ref is not None and ref.rec is not None and ref.rec.q in MAPS else getattr(c, 'T', None)
    if T is not None and T.q in ('std::map', 'std::set', 'std::multimap'):
        v1 = I.val(k1)
        ci = 1 if T.q == 'std::set' else 2
        if isinstance(v1, Obj) or (T.ta and len(T.ta) > ci and getattr(T.ta[ci], 'own', False)):
            cmpT = T.ta[ci] if T.ta and len(T.ta) > ci else None
            if cmpT is not None and cmpT.own:
                o = I.make_obj(cmpT)
                lt = lambda x, y: I.call_lv(o, [x, y])
            else:
                lt = I.lt_values
            if I.truth(lt(k1, k2)):
                return False
            return cnot(lt(k2, k1))
    return I.eq_values(k1, k2)


def map_find(I, c, ref, key):
    v = I.val(c)
    if not isinstance(v, MapV):
        raise Undecided('map')
    for n in v.nodes:
        if I.truth(map_eq(I, c, ref, n.f['first'], key)):
            return n
    return None


def map_place(I, v, node, ref):
    """ordered insertion for constant keys"""
    k = I.val(node.f['first'])
    ns = list(v.nodes)
    if isinstance(k, int) and not isinstance(k, bool):
        for i, n in enumerate(ns):
            x = I.val(n.f['first'])
            if isinstance(x, int) and x > k:
                ns.insert(i, node)
                return MapV(ns)
    return MapV(ns + [node])


def node_for(I, c, ref, key, val):
    T = ref.rec if ref is not None and ref.rec is not None and ref.rec.q in MAPS else c.T
    K, V = T.ta[0], (T.ta[1] if T.q not in ('std::set', 'std::unordered_set') else T.ta[0])
    return mkpair(I, PairT(K, V), key, val)


def map_insert(I, c, ref, pair):
    p = I.val(pair)
    T = ref.rec if ref is not None and ref.rec is not None and ref.rec.q in MAPS else c.T
    key = p.f['first'] if isinstance(p, Obj) and 'first' in p.f else pair
    n = map_find(I, c, ref, key)
    if n is not None:
        return n, False
    node = node_for(I, c, ref, I.copy_value(I.load(key)), I.copy_value(I.load(p.f['second'])) if T.q not in ('std::set', 'std::unordered_set') else 0)
    I.store(c, map_place(I, I.val(c), node, ref))
    return node, True


@m('std::multimap::multimap|std::multiset::multiset|std::unordered_multimap::unordered_multimap')
def f(I, ref, this, a, node):
    raise Undecided('container of equal keys')


def mm(op):
    return m(*[c + '::' + op for c in MAPS])


@mm('map')
def f(I, ref, this, a, node):
    return MapV()


@m('std::map::map|std::unordered_map::unordered_map|std::set::set')
def f(I, ref, this, a, node):
    if ref.ct == 'copy':
        return I.copy_value(I.val(a[0]))
    if ref.ct == 'move':
        return I.move_from(a[0])
    if not a:
        return MapV()
    v = I.val(a[0])
    if isinstance(v, Seq):
        c = I.new_cell(ref.rec, MapV())
        for s in v.segs:
            map_insert(I, c, ref, I.lv(s[1]) if isinstance(s[1], Cell) else s[1])
        return c.v
    if isinstance(v, Opaque):
        return MapV()
    raise Undecided('map constructor')


@mm('operator=')
def f(I, ref, this, a, node):
    old = I.val(this)
    v = I.val(a[0])
    if isinstance(v, Seq):
        I.store(this, MapV())
        for s in v.segs:
            map_insert(I, this, ref, I.lv(s[1]))
    else:
        I.store(this, I.copy_value(v) if ref.ps[0].k != 'rref' else I.move_from(a[0]))
    I.destroy_value(old)
    return this


@mm('begin')
def f(I, ref, this, a, node):
    v = I.val(this)
    return MapIter(this, v.nodes[0] if v.nodes else None)


H.update({c + '::cbegin': H[c + '::begin'] for c in MAPS})


@mm('end')
def f(I, ref, this, a, node):
    return MapIter(this, None)


H.update({c + '::cend': H[c + '::end'] for c in MAPS})


@mm('size')
def f(I, ref, this, a, node):
    return len(I.val(this).nodes)


@mm('empty')
def f(I, ref, this, a, node):
    return not I.val(this).nodes


@mm('clear')
def f(I, ref, this, a, node):
    v = I.val(this)
    I.store(this, MapV())
    I.destroy_value(v)


@mm('find')
def f(I, ref, this, a, node):
    return MapIter(this, map_find(I, this, ref, a[0]))


@mm('equal_range')
def f(I, ref, this, a, node):
    n = map_find(I, this, ref, a[0])
    if n is None:
        return pair_ib(I, MapIter(this, None), MapIter(this, None))
    it = MapIter(this, n)
    return pair_ib(I, it, map_next(I, it))


@mm('count')
def f(I, ref, this, a, node):
    return int(map_find(I, this, ref, a[0]) is not None)


@mm('contains')
def f(I, ref, this, a, node):
    return map_find(I, this, ref, a[0]) is not None


@mm('at')
def f(I, ref, this, a, node):
    n = map_find(I, this, ref, a[0])
    if n is None:
        I.throw_std('std::out_of_range')
    return I.lv(n.f['second'])


@mm('operator[]')
def f(I, ref, this, a, node):
    n = map_find(I, this, ref, a[0])
    if n is None:
        T = ref.rec
        V = T.ta[1]
        n = node_for(I, this, ref, I.copy_value(I.rd(a[0])), I.zero_value(V) if I.is_scalar(V) else I.default_value(V))
        I.store(this, map_place(I, I.val(this), n, ref))
    return I.lv(n.f['second'])


def pair_ib(I, it, b):
    o = Obj(I, PairT(None, None))
    o.f['first'] = I.new_cell(None, it)
    o.f['second'] = I.new_cell(None, b)
    return o


@mm('insert')
def f(I, ref, this, a, node):
    x = a[-1]
    v = I.val(x)
    if len(a) == 2 and isinstance(I.val(a[0]), MapIter) and isinstance(v, MapIter):
        it = I.val(a[0])
        while it.node is not v.node:
            map_insert(I, this, ref, map_deref(I, it))
            it = map_next(I, it)
        return None
    if isinstance(v, Seq):
        for s in v.segs:
            map_insert(I, this, ref, I.lv(s[1]))
        return None
    n, ok = map_insert(I, this, ref, x)
    it = MapIter(this, n)
    return it if len(a) == 2 else pair_ib(I, it, ok)


@mm('emplace')
def f(I, ref, this, a, node):
    if len(a) == 1:
        n, ok = map_insert(I, this, ref, a[0])
    elif len(a) == 2:
        a = [decay(I, x) for x in a]
        p = node_for(I, this, ref, I.copy_value(I.rd(a[0])), conv_part(I, I.move_from(a[1]) if ref.ps[1].k == 'rref' and isinstance(a[1], (Loc, Obj)) else I.copy_value(I.rd(a[1])), ref.rec.ta[1]) if len(ref.rec.ta) > 1 else I.rd(a[1]))
        n = map_find(I, this, ref, p.f['first'])
        ok = n is None
        if ok:
            n = p
            I.store(this, map_place(I, I.val(this), n, ref))
    else:
        raise Undecided('map emplace')
    return pair_ib(I, MapIter(this, n), ok)


@mm('try_emplace')
def f(I, ref, this, a, node):
    n = map_find(I, this, ref, a[0])
    ok = n is None
    if ok:
        V = ref.rec.ta[1]
        n = node_for(I, this, ref, I.copy_value(I.rd(a[0])), construct_with(I, V, a[1:], ref.ps[1:]))
        I.store(this, map_place(I, I.val(this), n, ref))
    return pair_ib(I, MapIter(this, n), ok)


@mm('insert_or_assign')
def f(I, ref, this, a, node):
    n = map_find(I, this, ref, a[0])
    ok = n is None
    if ok:
        a = [decay(I, x) for x in a]
        n = node_for(I, this, ref, I.copy_value(I.rd(a[0])), conv_part(I, I.copy_value(I.rd(a[1])), ref.rec.ta[1]))
        I.store(this, map_place(I, I.val(this), n, ref))
    else:
        a = [a[0], decay(I, a[1])]
        I.assign(n.f['second'], conv_part(I, a[1], ref.rec.ta[1]))
    return pair_ib(I, MapIter(this, n), ok)


@mm('erase')
def f(I, ref, this, a, node):
    v = I.val(this)
    x = I.val(a[0])
    if isinstance(x, MapIter):
        if len(a) == 2:
            y = I.val(a[1])
            it, gone = x, []
            while it.node is not y.node:
                gone.append(map_deref(I, it))
                it = map_next(I, it)
            I.store(this, MapV([n for n in v.nodes if not any(n is g for g in gone)]))
            for g in gone:
                I.destroy_value(g)
            return y
        if x.node is None:
            I.fail('iterator', 'the end iterator is erased')
        nxt = map_next(I, x)
        I.store(this, MapV([n for n in v.nodes if n is not x.node]))
        I.destroy_value(x.node)
        return nxt
    n = map_find(I, this, ref, a[0])
    if n is None:
        return 0
    I.store(this, MapV([y for y in I.val(this).nodes if y is not n]))
    I.destroy_value(n)
    return 1


@m('std::erase_if')
def f(I, ref, this, a, node):
    v = I.val(a[0])
    k = 0
    if isinstance(v, MapV):
        gone = []
        for n in v.nodes:
            if I.truth(I.rd(I.call_lv(a[1], [n]))):
                gone.append(n)
        I.store(a[0], MapV([n for n in I.val(a[0]).nodes if not any(n is g for g in gone)]))
        for g in gone:
            I.destroy_value(g)
        return len(gone)
    raise Undecided('erase_if')


# ---------------------------------------------------------------- exceptions, error codes
@m('exc')
def exc(I, ref, this, a, node):
    q = ref.rec.q
    if ref.ct in ('copy', 'move'):
        return I.val(a[0])
    if q == 'std::system_error':
        v = I.val(a[0])
        if isinstance(v, ExcV):
            return ExcV(None, v.code)
        return ExcV(None, v)
    v = I.val(a[0]) if a else None
    if isinstance(v, Ptr):
        v = cstr(I, v)
    return ExcV(v)


for _q in STD_BASES:
    H[_q + '::' + _q.split('::')[-1]] = exc


@m('std::error_code::error_code|std::make_error_code')
def f(I, ref, this, a, node):
    if not a:
        return ExcV(None, 0)
    v = I.val(a[0])
    return v if isinstance(v, ExcV) else ExcV(None, v)


@m('std::error_code::value|std::error_condition::value')
def f(I, ref, this, a, node):
    return I.val(this).code


@m('std::error_code::message|std::error_category::message')
def f(I, ref, this, a, node):
    return opaque_str('message')


@m('std::error_code::operator bool')
def f(I, ref, this, a, node):
    return cne(I.val(this).code, 0)


@m('std::system_error::code')
def f(I, ref, this, a, node):
    v = I.val(this)
    return ExcV(None, v.code if isinstance(v, ExcV) else 0)


@m(*[c + '::what' for c in STD_BASES])
def f(I, ref, this, a, node):
    v = I.val(this)
    s = v.what if isinstance(v, ExcV) and v.what is not None else opaque_str('what')
    c = I.new_cell(SeqT(CHAR), Seq(list(s.segs) + [('e', 0)]))
    c.T.q = 'std::basic_string'
    return Ptr(ElemLoc(I, c, 0), ref.r)


@m('std::generic_category|std::system_category')
def f(I, ref, this, a, node):
    return I.new_cell(None, Opaque('category'))


@m('std::terminate|std::abort|abort|std::exit|exit|_exit|std::quick_exit')
def f(I, ref, this, a, node):
    raise PathEnd('terminate', ref.q)


@m('__assert_fail')
def f(I, ref, this, a, node):
    I.fail('assert', 'an assertion fails')


@m('std::uncaught_exceptions')
def f(I, ref, this, a, node):
    return 0


@m('std::uncaught_exception')
def f(I, ref, this, a, node):
    return False


@m('std::current_exception')
def f(I, ref, this, a, node):
    return Opaque('exception_ptr')


# ---------------------------------------------------------------- chrono
def period(T):
    T = bare(T)
    if T.q == 'std::chrono::time_point':
        T = T.ta[1]
    if T.q == 'std::chrono::duration':
        r = T.ta[1]
        return Fraction(r.ta[0], r.ta[1])
    return None


def drep(T):
    T = bare(T)
    if T.q == 'std::chrono::time_point':
        T = T.ta[1]
    return T.ta[0]


def conv_dur(I, n, p, q):
    """ticks of period p to ticks of period q, truncating"""
    f = p / q
    if isinstance(n, (F, float)):
        return n if f == 1 else (n * float(f) if isinstance(n, float) else F('*', n, float(f)))
    n = mul(n, f.numerator, I.facts)
    return n if f.denominator == 1 else I.quot(n, f.denominator)


@m('std::chrono::duration::duration|std::chrono::time_point::time_point')
def f(I, ref, this, a, node):
    if not a:
        return Dur(0 if ref.rec.q == 'std::chrono::time_point' or node.get('z') else UNINIT)
    v = I.val(a[0])
    if isinstance(v, Dur):
        p = period(ref.ps[0])
        return Dur(conv_dur(I, v.n, p, period(ref.rec)) if p is not None else v.n)
    if isinstance(v, (bool, Cond)):
        v = b2i(v)
    r = drep(ref.rec)
    if r.k == 'int' and isinstance(v, (int, Lin)):
        v = wrap(v, r.w, r.sg, I.facts)
    return Dur(v)


@m('std::chrono::duration::operator=|std::chrono::time_point::operator=')
def f(I, ref, this, a, node):
    I.store(this, I.val(a[0]))
    return this


@m('std::chrono::duration_cast|std::chrono::time_point_cast|std::chrono::floor')
def f(I, ref, this, a, node):
    return Dur(conv_dur(I, I.val(a[0]).n, period(ref.ps[0]), period(ref.r)))


@m('std::chrono::duration::count')
def f(I, ref, this, a, node):
    return I.val(this).n


@m('std::chrono::time_point::time_since_epoch')
def f(I, ref, this, a, node):
    return I.val(this)


@m('std::chrono::duration::zero')
def f(I, ref, this, a, node):
    return Dur(0)


@m('std::chrono::duration::max|std::chrono::time_point::max')
def f(I, ref, this, a, node):
    return Dur(2 ** 63 - 1)


@m('std::chrono::operator+|std::chrono::operator-')
def f(I, ref, this, a, node):
    q = period(ref.r)
    x, y = I.val(a[0]), I.val(a[1])
    px, py = period(ref.ps[0]), period(ref.ps[1])
    nx, ny = conv_dur(I, x.n, px, q), conv_dur(I, y.n, py, q)
    return Dur(add(nx, ny) if ref.n == 'operator+' else sub(nx, ny))


@m('std::chrono::operator*')
def f(I, ref, this, a, node):
    x, y = I.val(a[0]), I.val(a[1])
    if not isinstance(x, Dur):
        x, y = y, x
        px = period(ref.ps[1])
    else:
        px = period(ref.ps[0])
    return Dur(conv_dur(I, mul(x.n, y, I.facts), px, period(ref.r)))


@m('std::chrono::operator/')
def f(I, ref, this, a, node):
    x, y = I.val(a[0]), I.val(a[1])
    if isinstance(y, Dur):
        return I.quot(x.n, y.n)
    return Dur(I.quot(x.n, y))


def _dcmp(op):
    def f(I, ref, this, a, node):
        x, y = I.val(a[0]), I.val(a[1])
        px, py = period(ref.ps[0]), period(ref.ps[1])
        q = min(px, py) if (px / py).denominator == 1 or (py / px).denominator == 1 else Fraction(1, 10 ** 9)
        nx, ny = conv_dur(I, x.n, px, q), conv_dur(I, y.n, py, q)
        if op == '<=>':
            return OrdV(clt(nx, ny), ceq(nx, ny))
        return {'<': clt(nx, ny), '>': clt(ny, nx), '<=': cle(nx, ny), '>=': cle(ny, nx), '==': ceq(nx, ny), '!=': cne(nx, ny)}[op]
    return f


for _o in ('<', '>', '<=', '>=', '==', '!=', '<=>'):
    H['std::chrono::operator' + _o] = _dcmp(_o)


@m('std::chrono::duration::operator+=|std::chrono::time_point::operator+=|std::chrono::duration::operator-=|std::chrono::time_point::operator-=')
def f(I, ref, this, a, node):
    x, y = I.val(this), I.val(a[0])
    n = conv_dur(I, y.n, period(ref.ps[0]), period(ref.rec))
    I.store(this, Dur(add(x.n, n) if ref.n == 'operator+=' else sub(x.n, n)))
    return this


@m('std::chrono::duration::operator-')
def f(I, ref, this, a, node):
    return Dur(scale(I.val(this).n, -1))


# ---------------------------------------------------------------- streams
STREAMS = ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ostream', 'std::basic_ios', 'std::ios_base')


def stream_put(I, st, piece):
    v = I.val(st)
    if isinstance(v, Seq):
        I.store(st, seq_norm(list(v.segs) + list(piece), I.facts))
    elif isinstance(v, Opaque):
        I.events.append(('stream', v.what, Seq(piece)))
    return st


@m('std::basic_ostream::operator<<')
def f(I, ref, this, a, node):
    x = I.val(a[0])
    p = x.loc if isinstance(x, Ptr) else x
    if isinstance(p, FnPtr):
        n = getattr(I.P.fn.get(p.id) if hasattr(I.P.fn, 'get') else None, 'n', None)
        if n not in ('endl', 'flush', 'dec', 'ends'):
            I.env.setdefault('formatted', []).append(this)
        elif n in ('endl',):
            return stream_put(I, this, [('e', 10)])
        return this
    return stream_put(I, this, fmt(I, x, any(s is this for s in I.env.get('formatted', ()))))


def fmt(I, x, formatted=False):
    if isinstance(x, Seq):
        return x.segs
    if isinstance(x, (int, Lin, Cond)) and not formatted:
        return dectext(x).segs
    if isinstance(x, Opaque) and x.what == 'manip':
        raise Undecided('formatted output')
    return opaque_str('fmt:' + repr(x)).segs


@m('std::operator<<')
def f(I, ref, this, a, node):
    x = I.val(a[1])
    if isinstance(x, Ptr):
        x = cstr(I, x)
    elif isinstance(x, (int, Lin)):
        x = Seq([('e', x)])
    return stream_put(I, a[0], fmt(I, x))


@m('std::endl|std::flush|std::basic_ostream::flush|std::basic_ostream::write|std::basic_ostream::put|std::hex|std::dec|std::setw|std::setfill|std::showbase|std::uppercase|std::boolalpha|std::oct|std::left|std::right|std::setprecision|std::fixed')
def f(I, ref, this, a, node):
    return this if this is not None else (a[0] if a and isinstance(a[0], (Loc, Obj)) else Opaque('manip'))


@m('std::basic_ostringstream::basic_ostringstream|std::basic_stringstream::basic_stringstream')
def f(I, ref, this, a, node):
    if a and isinstance(I.val(a[0]), Seq):
        return I.val(a[0])
    return Seq()


@m('std::basic_ostringstream::str|std::basic_stringstream::str')
def f(I, ref, this, a, node):
    if a:
        I.store(this, I.val(a[0]))
        return None
    return I.seq_of(this)


# ---------------------------------------------------------------- misc
@m('std::pow|pow|powf|std::powf')
def f(I, ref, this, a, node):
    x, y = I.rd(a[0]), I.rd(a[1])
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return float(x) ** float(y)
    def fl(z):
        return float(z) if isinstance(z, int) else F('i2f', z) if isinstance(z, Lin) else z
    return F('pow', fl(x), fl(y))


@m('std::abs|abs|labs|std::fabs|fabs')
def f(I, ref, this, a, node):
    v = I.rd(a[0])
    if isinstance(v, (int, Lin)):
        return v if I.branch(cle(0, v)) else scale(v, -1)
    if isinstance(v, float):
        return abs(v)
    return F('call', 'abs', v)


@m('std::round|std::floor|std::ceil|std::trunc|round|floor|ceil|lround|std::lround|roundf|floorf|ceilf|std::isnan|std::isfinite|std::isinf')
def f(I, ref, this, a, node):
    v = I.rd(a[0])
    if ref.r.k == 'float':
        return F('call', ref.n, v)
    if ref.r.k == 'bool':
        return pred('fclass', ref.n, v)
    lo, hi = I.trange(ref.r)
    return A(atom('f2i', (F('call', ref.n, v), ref.r.w, True), lo, hi))


@m('std::random_device::random_device|std::mersenne_twister_engine::mersenne_twister_engine|std::linear_congruential_engine::linear_congruential_engine')
def f(I, ref, this, a, node):
    return Opaque('rng')


@m('std::random_device::operator()|std::mersenne_twister_engine::operator()')
def f(I, ref, this, a, node):
    return I.fresh('random', ref.r)


@m('std::uniform_int_distribution::uniform_int_distribution')
def f(I, ref, this, a, node):
    lo = I.rd(a[0]) if a else 0
    hi = I.rd(a[1]) if len(a) > 1 else I.trange(ref.rec.ta[0])[1]
    return TupV([I.new_cell(None, lo), I.new_cell(None, hi)])


@m('std::uniform_int_distribution::operator()')
def f(I, ref, this, a, node):
    d = I.val(this)
    x = I.fresh('random', ref.r)
    I.assume(cand(cle(d.cells[0].v, x), cle(x, d.cells[1].v)))
    return x


@m('rand|std::rand|random')
def f(I, ref, this, a, node):
    x = I.fresh('random', ref.r)
    I.assume(cle(0, x))
    return x


@m('srand|std::srand')
def f(I, ref, this, a, node):
    return None


@m('std::lock_guard::lock_guard|std::unique_lock::unique_lock|std::scoped_lock::scoped_lock|std::mutex::mutex|std::recursive_mutex::recursive_mutex')
def f(I, ref, this, a, node):
    return Opaque(ref.rec.q)


@m('std::mutex::lock|std::mutex::unlock|std::unique_lock::lock|std::unique_lock::unlock|std::recursive_mutex::lock|std::recursive_mutex::unlock|std::this_thread::sleep_for|std::this_thread::yield|std::call_once')
def f(I, ref, this, a, node):
    return None


@m('std::atomic::load|std::atomic::operator int|std::__atomic_base::load')
def f(I, ref, this, a, node):
    return I.rd(this)


@m('memcpy|std::memcpy|memmove|std::memmove')
def f(I, ref, this, a, node):
    d, s, n = I.val(a[0]), I.val(a[1]), I.rd(a[2])
    mem_copy(I, d, s, n)
    return d


def as_bytes(I, p, n, T=CHAR):
    """byte pointer for memory functions"""
    l = p.loc
    if l is None:
        if I.facts.decide(ceq(n, 0)) is True:
            return p
        I.fail('null', 'null pointer given to a memory function')
    if isinstance(l, (ElemLoc, ByteLoc)):
        return p
    if isinstance(l, Loc) and l.T is not None and l.T.k in ('int', 'float', 'enum', 'bool'):
        return Ptr(ByteLoc(I, l, 0, T), p.T)
    return p


def scalar_loc(l):
    return isinstance(l, Loc) and not isinstance(l, (ElemLoc, ByteLoc)) and l.T is not None and l.T.k in ('int', 'float', 'enum', 'bool')


def mem_copy(I, d, s, n):
    if I.facts.decide(ceq(n, 0)) is True:
        return
    if isinstance(d.loc, Obj) and isinstance(s.loc, Obj):
        c = I.facts.const(n)
        if c is not None and d.loc.T.sz == c and d.loc.rec == s.loc.rec:
            for k, x in I.copy_value(s.loc).f.items():
                I.store(d.loc.f[k], x.v)
            return
        raise Undecided('memcpy of objects')
    if scalar_loc(d.loc) and scalar_loc(s.loc) and d.loc.T.sz == s.loc.T.sz == I.facts.const(n):
        I.store(d.loc, I.reinterpret(I.load(s.loc), s.loc.T, d.loc.T))
        return
    d, s = as_bytes(I, d, n), as_bytes(I, s, n)
    if isinstance(s.loc, ElemLoc) and s.loc.c.T is not None:
        et = I.elem_type(s.loc.c.T)
        if et.sz and et.sz > 1:
            dt = I.elem_type(d.loc.c.T) if isinstance(d.loc, ElemLoc) else None
            if dt is not None and dt.sz == et.sz:
                c = div(n, et.sz, I.facts)
                copy_to(I, s, I.ptr_elem(s, c), d)
                return
            raise Undecided('memcpy of wide elements')
    if isinstance(d.loc, ElemLoc) and d.loc.c.T is not None:
        dt = I.elem_type(d.loc.c.T)
        if dt.sz and dt.sz > 1:
            raise Undecided('memcpy into wide elements')
    copy_to(I, s, I.ptr_elem(s, n), d)


@m('memset|std::memset|bzero')
def f(I, ref, this, a, node):
    p = I.val(a[0])
    v, n = (I.rd(a[1]), I.rd(a[2])) if len(a) == 3 else (0, I.rd(a[1]))
    l = p.loc
    if l is None:
        I.fail('null', 'memset on a null pointer')
    if isinstance(l, Obj):
        if v == 0 and I.facts.const(n) == l.T.sz:
            z = I.make_obj(l.T, True)
            for k, c in z.f.items():
                l.f[k].v = c.v
            return p
        raise Undecided('memset of an object')
    if isinstance(l, ElemLoc):
        et = et_of(I, l.c)
        k = n if et.sz in (1, None) else div(n, et.sz, I.facts)
        if et.sz not in (1, None) and v != 0:
            raise Undecided('memset of wide elements')
        c, i, cnt = seq_range(I, p, I.ptr_elem(p, k), 'memset')
        v = wrap(v, et.w, et.sg, I.facts)
        I.store(c, I.seq_replace(I.seq_of(c), i, cnt, [('f', v, cnt)]))
        return p
    if v == 0 and l.T is not None and I.facts.const(n) == l.T.sz:
        I.store(l, I.zero_value(l.T))
        return p
    raise Undecided('memset')


@m('strlen|std::strlen')
def f(I, ref, this, a, node):
    return seqlen(cstr(I, I.val(a[0])))


@m('strcmp|std::strcmp')
def f(I, ref, this, a, node):
    x, y = cstr(I, I.val(a[0])), cstr(I, I.val(a[1]))
    return 0 if I.truth(I.std.seq_eq(I, x, y)) else 1


@m('memcmp|std::memcmp')
def f(I, ref, this, a, node):
    n = I.rd(a[2])
    x, y = I.val(a[0]), I.val(a[1])
    s, t = Seq(range_segs(I, x, I.ptr_elem(x, n))), Seq(range_segs(I, y, I.ptr_elem(y, n)))
    return 0 if I.truth(I.std.seq_eq(I, s, t)) else 1


@m('strerror|std::strerror')
def f(I, ref, this, a, node):
    c = I.new_cell(SeqT(CHAR), opaque_str('strerror'))
    c.T.q = 'std::basic_string'
    return Ptr(ElemLoc(I, c, 0), ref.r)


@m('__builtin_expect')
def f(I, ref, this, a, node):
    return I.rd(a[0])


@m('__builtin_bswap16|__builtin_bswap32|htons|ntohs|htonl|ntohl|__bswap_16|__bswap_32')
def f(I, ref, this, a, node):
    v = I.rd(a[0])
    w = ref.r.w
    u = wrap(v, w, False, I.facts)
    ps = bits_of(u, w, I.facts)
    out = []
    for i in reversed(range(w // 8)):
        out += bits_take(ps, 8 * i, 8)
    return bits_join(out, I.facts)


@m('std::bit_cast')
def f(I, ref, this, a, node):
    v = I.rd(a[0])
    return I.reinterpret(v, bare(ref.ps[0]), ref.r)


def install(I):
    I.std = Std()
