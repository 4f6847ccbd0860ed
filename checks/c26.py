"""Algebraic normal form of what the conversions compute: the float term the abstract interpreter extracts (for unknown value, multiplier, divisor, base, offset and precision, for seven value types) is brought to a quotient of polynomials and compared with the CIP scaling formula and its algebraic inverse; wrapping integer arithmetic stays visible as its own atom."""
from fractions import Fraction
from checks.util import *

PROBES = ['p_param']
H = 'src/ParameterObject.h'
FILE = 'src/ParameterObject.cpp'
ds = u8('ds')


# ---- quotients of polynomials: {monomial: Fraction}, monomial = sorted tuple of (atom, power)
def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            t = tuple(sorted(((x, k) for x, k in e.items() if k), key=repr))
            r[t] = r.get(t, 0) + c * d
            if not r[t]:
                del r[t]
    return r


def patom(x):
    return {((x, 1),): Fraction(1)}


def lin_poly(v):
    if isinstance(v, int):
        return pconst(v)
    r = pconst(v.c)
    for a, k in v.t:
        t = pmul(lin_poly(a.args[0]), lin_poly(a.args[1])) if a.kind == 'mul' else patom(a)
        r = padd(r, t, k)
    return r


def nf(v):
    if isinstance(v, float):
        return pconst(Fraction(v)), pconst(1)
    if isinstance(v, int):
        return pconst(v), pconst(1)
    if isinstance(v, Lin):
        return lin_poly(v), pconst(1)
    o, a = v.op, v.a
    if o == 'i2f':
        return lin_poly(a[0]), pconst(1)
    if o == 'neg':
        n, d = nf(a[0])
        return padd({}, n, -1), d
    if o == 'cast' and a[1] == 64:
        return nf(a[0])
    if o in '+-':
        (n, d), (m, e) = nf(a[0]), nf(a[1])
        if d == e:
            return padd(n, m, 1 if o == '+' else -1), d
        return padd(pmul(n, e), pmul(m, d), 1 if o == '+' else -1), pmul(d, e)
    if o == '*':
        (n, d), (m, e) = nf(a[0]), nf(a[1])
        return pmul(n, m), pmul(d, e)
    if o == '/':
        (n, d), (m, e) = nf(a[0]), nf(a[1])
        return pmul(n, e), pmul(d, m)
    if o == 'pow':
        (n, d), (m, e) = nf(a[0]), nf(a[1])
        if n == pconst(10) and d == pconst(1) and e == pconst(1):
            if set(m) <= {()}:
                k = m.get((), Fraction(0))
                if k.denominator == 1 and abs(k) < 400:
                    return (pconst(10 ** k), pconst(1)) if k >= 0 else (pconst(1), pconst(10 ** -k))
            key = tuple(sorted(m.items(), key=repr))
            if all(c < 0 for c in m.values()):
                return pconst(1), patom(('pow10', tuple(sorted(padd({}, m, -1).items(), key=repr))))
            return patom(('pow10', key)), pconst(1)
    return patom(v), pconst(1)


def same_formula(a, b):
    (n, d), (m, e) = nf(a), nf(b)
    return pmul(n, e) == pmul(m, d)


def conv(v):
    """value of an integer or float term in double arithmetic"""
    return v if isinstance(v, (float, F)) else float(v) if isinstance(v, int) else F('i2f', v)


def run(cx):
    m, d, b, prec = u16('m'), u16('d'), u16('b'), u8('p')
    off = sym('o', -32768, 32767)
    ten = lambda p: F('pow', 10.0, conv(p))

    def eng(x, pr):
        return F('/', F('*', F('*', F('+', conv(x), conv(off)), conv(m)), conv(b)), F('*', conv(d), ten(pr)))

    def act(x, pr):
        return F('-', F('/', F('*', F('*', conv(x), conv(d)), ten(pr)), F('*', conv(m), conv(b))), conv(off))

    def formula(p, site, what, got, want):
        cx.n['comparisons'] += 1
        if got is None or isinstance(got, (Seq,)):
            cx.bad(p, 'formula', site, f'{what}: no value')
            return
        if same_formula(conv(got), conv(want)):
            cx.n['equal'] += 1
            return
        if f'formula@{site}' in cx.viol:
            return
        res = {}

        def goal(env):
            x, y = env.scalar(conv(got)), env.scalar(conv(want))
            if x != x or y != y or INF in (abs(x), abs(y)):
                return False
            if abs(x - y) > 1e-9 * max(abs(x), abs(y)) + 1e-6:
                res['v'] = (x, y)
                return True
            return False
        nonzero = [cne(z, 0) for z in (m, d, b)]
        env = find_env(p.facts.all + [c for c in nonzero if p.facts.decide(c) is None], goal=goal, tries=80)
        if env is None:
            cx.note(f'formula at {site}: {what}: neither equal in normal form nor distinguished: {got!r}'[:300])
            return
        cx.violation('formula', site, f'{what}: {res["v"][0]} instead of {res["v"][1]}', p, env)

    for p in cx.run('eng_direct'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'formula', FILE, f'a conversion ends with {p.kind} {p.exc or p.o.why}')
            continue
        sc = bool(p.out('scaled'))
        pr = [0, 1, 2, prec][p.out('precisionCase')]
        x = F('sym', 'x', 64)
        formula(p, f'{FILE} (actualToEngValue)', 'engineering value', p.out('eng'), eng(x, pr) if sc else x)
        formula(p, f'{FILE} (engToActualValue)', 'actual value', p.out('actual'), act(x, pr) if sc else x)

    def script(I, k, req):
        if k == 0:
            return 0, Seq([('e', n)])
        if k == 1:
            return 0, cat(sub_seq('val', n), [('e', 0), ('e', 0), ('e', 0), ('e', 0xc8), ('e', 4), ('e', 0), ('e', 0), ('e', 0)], sub_seq('min', n), sub_seq('max', n), sub_seq('def', n))
        return 0, Seq()
    for t, n, sg, fl in (('u8', 1, 0, 0), ('u16', 2, 0, 0), ('u32', 4, 0, 0), ('i16', 2, 1, 0), ('i32', 4, 1, 0), ('f32', 4, 0, 1), ('f64', 8, 0, 1)):
        for p in cx.run('eng_' + t, oscfg={'hook': router(script)}):
            if not p.done:
                if p.decided:
                    cx.bad(p, 'formula', H, f'a conversion of type {t} ends with {p.kind} {p.exc or p.o.why}')
                continue
            sc = bool(p.out('scaled'))
            pr = [0, 1, 2, prec][p.out('precisionCase')]

            def value(a):
                v = dec(a, 0, n, p.facts, bool(sg))
                return F('frombits', v, 8 * n) if fl else v
            vals = {'actual': value(fix('val')), 'min': value(fix('min')), 'max': value(fix('max')), 'default': value(fix('def'))}
            for k, src in (('eng', 'actual'), ('engMin', 'min'), ('engMax', 'max'), ('engDefault', 'default')):
                v = vals[src]
                formula(p, f'{H} (get {k})', f'{k}<{t}>', p.out(k), eng(v, pr) if sc else v)
            which = ['min', 'max', 'default'][p.out('setter')]
            x = F('sym', 'x', 64)
            want = act(x, pr) if sc else x
            for k in vals:
                if k != which:
                    if fl:
                        formula(p, f'{H} (setEng {which})', f'{k}<{t}> after setting the {which}', p.out(k), vals[k])
                    else:
                        cx.expect(p, 'setter', f'{H} (setEng {which})', f'{k}<{t}> after setting the {which}', p.out(k), vals[k])
            got = p.out(which)
            g = underlying(got, n, bool(sg), fl)
            if g is None:
                # not the conversion of one float: compare as values
                formula(p, f'{H} (setEng {which})', f'{which}<{t}> after setting it', got, want)
                continue
            formula(p, f'{H} (setEng {which})', f'{which}<{t}> after setting it', g, want)


def underlying(v, n, sg, fl):
    """the float term an integer or float value was converted from"""
    if isinstance(v, F) and fl:
        while v.op == 'cast' and v.a[1] == 8 * n:
            v = v.a[0]
        return v
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        a = v.t[0][0]
        if a.kind in ('sgn', 'sl', 'mod') and isinstance(a.args[0], Lin):
            return underlying(a.args[0], n, sg, fl)
        if a.kind == 'f2i':
            g = a.args[0]
            while isinstance(g, F) and g.op == 'call' and g.a[0] in ('round', 'trunc', 'floor', 'rint', 'nearbyint'):
                g = g.a[1]
            return g
    if isinstance(v, Lin):
        return None
    return v if isinstance(v, float) else None
