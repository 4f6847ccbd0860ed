"""Abstract interpretation of EndPoint: fields and text of end points built from any host, port or socket address; the comparison operators are reduced to a decision table over (host relation, port relation), on which the laws of a strict weak ordering are checked for all triples."""
from itertools import product
from eip.check import *
from eip.stdmodel import dectext
from eip.sysmodel import aton, parse_ip

PROBES = ['p_values']
ASSUMES = ['ports are 0 to 65535']


def swap16(v, f):
    b = bits_of(v, 16, f)
    return add(scale(bits_join(bits_take(b, 0, 8), f), 256), bits_join(bits_take(b, 8, 8), f))


def text(host, port):
    d = list(dectext(port).segs)
    return cat(host, [('e', ord(':'))], d)


def lit(s):
    return cat([('e', ord(c)) for c in s])


def run(cx):
    file = 'src/sockets/EndPoint.cpp'
    port = u16('p')

    def fields(p, host, prt, fam, nport, naddr, i=0, site='(EndPoint)'):
        for k, v in (('host', host), ('port', prt), ('family', fam), ('nport', nport), ('naddr', naddr), ('text', text(host, prt))):
            if v is not None:
                cx.expect(p, 'fields', f'{file} {site if k != "text" else "(toString)"}', {'nport': 'port in network order', 'naddr': 'address in network order'}.get(k, k), p.out(k, i), v)

    h = cat(strg('h'))
    ok, addr = aton(None, h)
    for p in cx.run('ep_host'):
        if not p.done:
            for f, (v,) in cx.cases(p, ok):
                if v and p.decided:
                    cx.must(p, 'construct', f'{file} (EndPoint)', f'an end point with a valid host ends with {p.kind} {p.exc or p.o.why}', False, f)
            continue
        fields(p, h, port, 2, swap16(port, p.facts), addr if p.facts.decide(ok) is True else None)
    for p in cx.run('ep_literal'):
        fields(p, lit('192.168.7.250'), port, 2, swap16(port, p.facts), parse_ip('192.168.7.250'))
        fields(p, lit('255.255.255.255'), 44818, 2, ((44818 & 255) << 8) | 44818 >> 8, 0xffffffff, 1)
    for p in cx.run('ep_addr'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'construct', f'{file} (EndPoint)', f'{p.kind} {p.exc or p.o.why}')
            continue
        a = u32('addr')
        z = p.facts.const(a) == 0
        host = lit('0.0.0.0') if z else cat(arr(('ntoa', a), 46, 57, 15))
        for i in (0, 1):
            fields(p, host, swap16(u16('port'), p.facts), u16('family'), u16('port'), a, i)
        cx.expect(p, 'equality', f'{file} (operator==)', 'a copy equals the original', p.out('copyEqual'), True)
    # decision table of the ordering
    s1, s2 = cat(strg('h1')).segs, cat(strg('h2')).segs
    seqeq = pred('seqeq', *sorted((s1, s2), key=repr))
    p1, p2 = u16('p1'), u16('p2')
    T, open_ = {}, set()

    def look(ps, hrel):
        for p in ps:
            if not p.done:
                if p.decided and p.kind != 'throw':
                    cx.bad(p, 'order', f'{file} (operator<)', f'{p.kind} {p.exc or p.o.why}')
                continue
            cx.expect(p, 'order', f'{file} (operator<)', 'an end point is before itself', p.out('self'), False)
            cx.expect(p, 'equality', f'{file} (operator==)', 'an end point equals itself', p.out('selfeq'), True)
            x, y = (v if isinstance(v, (bool, Cond)) else i2b(v) for v in (p.out('lt'), p.out('gt')))
            for f, (eq, a, b) in cx.cases(p, ceq(p1, p2), x, y):
                if a and b:
                    cx.must(p, 'asymmetry', f'{file} (operator<)', 'two end points are each before the other', False, f)
                elif not a and not b and not (eq and hrel == 0):
                    cx.must(p, 'equivalence', f'{file} (operator<)', 'of two end points that differ neither is before the other', False, f)
                else:
                    cx.rule_ok()
            for f, (lt, eq) in cx.cases(p, clt(p1, p2), ceq(p1, p2)):
                if lt and eq:
                    continue
                prel = -1 if lt else 0 if eq else 1
                e = hrel == 0 and prel == 0
                cx.expect(p, 'equality', f'{file} (operator==)', f'equality with hosts {"equal" if hrel == 0 else "different"} and ports {"equal" if prel == 0 else "different"}', p.out('eq'), e, f)
                cx.expect(p, 'equality', f'{file} (operator!=)', 'inequality', p.out('ne'), not e, f)
                v = p.out('lt')
                d = v if isinstance(v, bool) else f.decide(v if isinstance(v, Cond) else i2b(v) if isinstance(v, (int, Lin)) else v)
                if d is None:
                    open_.add((hrel, prel))
                    continue
                T.setdefault((hrel, prel), {}).setdefault(d, p)

    for hrel in (-1, 1):
        def relate(I, name, a, ref, hrel=hrel):
            I.assume(cnot(seqeq))
            I.assume(cne(length(strg('h1')), -1))
            x, y = pred('seqlt', s1, s2), pred('seqlt', s2, s1)
            I.assume(x if hrel < 0 else cnot(x))
            I.assume(cnot(y) if hrel < 0 else y)
        look(cx.run('ep_order', oscfg={'hook': relate}), hrel)
    look(cx.run('ep_same_host'), 0)
    cells = list(product((-1, 0, 1), repeat=2))
    site = f'{file} (operator<)'
    cx.extra = {'ordering_table': {f'host {a} port {b}': sorted(T.get((a, b), {})) for a, b in cells}}
    for c in cells:
        if c in open_ or len(T.get(c, {})) != 1:
            if len(T.get(c, {})) == 2:
                p = T[c][True]
                cx.note(f'order: for hosts {c[0]} and ports {c[1]} the result also depends on something else')
            else:
                cx.note(f'order: no decided result for hosts {c[0]}, ports {c[1]}')
    if any((T.get(c, {}).get(True) and c == (0, 0)) for c in cells):
        cx.bad(T[(0, 0)][True], 'order', site, 'an end point is before one with equal host and port')
    if all(len(T.get(c, {})) == 1 and c not in open_ for c in cells):
        tab = {c: list(T[c])[0] for c in cells}
        sg = lambda a, b: (a > b) - (a < b)
        less = lambda x, y: tab[(sg(x[0], y[0]), sg(x[1], y[1]))]
        pts = list(product(range(3), repeat=2))
        rep = lambda c: list(T[c].values())[0]
        for x, y in product(pts, pts):
            c = (sg(x[0], y[0]), sg(x[1], y[1]))
            cx.rule_ok()
            if less(x, y) and less(y, x):
                cx.bad(rep(c), 'asymmetry', site, f'both orders hold for hosts {c[0]:+d}, ports {c[1]:+d}')
            if x != y and not less(x, y) and not less(y, x):
                cx.bad(rep(c), 'equivalence', site, f'end points that differ (hosts {c[0]:+d}, ports {c[1]:+d}) are equivalent')
            for z in pts:
                cx.rule_ok()
                if less(x, y) and less(y, z) and not less(x, z):
                    cx.bad(rep((sg(x[0], z[0]), sg(x[1], z[1]))), 'transitivity', site, f'order is not transitive for (host,port) {x}, {y}, {z}')
    # equality of end points built from socket addresses
    for p in cx.run('ep_addr_eq'):
        if not p.done:
            continue
        x, y = p.out('eq'), p.out('ne')
        same = u32('a1') == u32('a2')
        e = i2b(b2i(x)) if isinstance(x, Cond) else bool(x)
        for f, (v, pe) in cx.cases(p, e, ceq(p1, p2)):
            if v:
                cx.must(p, 'equality', f'{file} (operator==)', 'end points with different ports are equal', pe, f)
