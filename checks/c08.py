"""Abstract interpretation of both message routers and MessageRouterResponse::expand on replies: every message announcing 0 to 2 items (3 in the thorough tier) followed by arbitrary bytes is partitioned into accepted and refused ones; accepted fields are traced back to their bytes, with additional-status counts up to 3 and 255 word by word."""
from eip.check import *
from checks.c05 import split

PROBES = ['p_explicit']


def items_of(f, m, L, n, i=0, off=0):
    """(facts, [(offset, length)]) or (facts, None) for an incomplete packet"""
    if i == n:
        yield f, []
        return
    for g, b in split(f, cle(add(off, 4), L)):
        if not b:
            yield g, None
            continue
        ln = dec(m, add(off, 2), 2, g)
        for h, b2 in split(g, cle(add(add(off, 4), ln), L)):
            if not b2:
                yield h, None
                continue
            for k, r in items_of(h, m, L, n, i + 1, h.simp(norm(add(add(off, 4), ln), h))):
                yield k, None if r is None else [(off, ln)] + r


def check_response(cx, p, site, m, off, ln, f, counts):
    """the response decoded from ln bytes at off (ln >= 4)"""
    ns = elem(m, facts_idx(add(off, 3), f))
    for k, v in (('service', elem(m, facts_idx(off, f))), ('status', elem(m, facts_idx(add(off, 2), f)))):
        cx.expect(p, 'decode', site, k, p.out(k), v, f)
    got = p.out('additional')
    c = f.const(ns)
    if c is None and isinstance(got, Seq):
        c = f.const(seqlen(got))
        if c is not None:
            cx.expect(p, 'decode', site, 'number of additional status words', c, ns, f)
    if c is None:
        if isinstance(got, Seq):
            cx.expect(p, 'decode', site, 'number of additional status words', seqlen(got), ns, f)
        return
    cx.expect(p, 'decode', site, 'additional status', got, Seq([('e', dec(m, add(off, 4 + 2 * i), 2, f)) for i in range(c)]), f)
    cx.expect(p, 'decode', site, 'data', p.out('data'), cat((m, add(off, 4 + 2 * c), sub(ln, 4 + 2 * c))), f)


def run(cx):
    for pr, cls in (('rep_generic', 'src/MessageRouter.cpp'), ('rep_yaskawa', 'src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp')):
        site = cls + ' (sendRequest)'
        # structured replies
        for extra in (0, 1, 2, 3) if cx.deep else (0, 2):
            for ns in (0, 1, 2, 3, 255) if cx.deep else (0, 2, 255):
                rest = inp('rest', 30000)
                ex = [(u16(f'xt{i}'), inp(f'xd{i}', 5000)) for i in range(extra)]

                def answer(I, name, a, ref, extra=extra, ns=ns):
                    f = I.facts
                    st = fix('words')
                    body = cat([('e', u8('rs')), ('e', u8('res')), ('e', u8('rst')), ('e', ns)], [('e', elem(st, i)) for i in range(2 * ns)], rest)
                    def it(t, d):
                        return cat(byt(t, 2, f), byt(seqlen(d), 2, f), d)
                    I.store(a[0], cat(byt(u32('iface'), 4, f), byt(u16('tmo'), 2, f), byt(2 + extra, 2, f), it(u16('at'), Seq()), it(u16('dt'), body), *[it(t, cat(d)) for t, d in ex]))
                for p in cx.run(pr, oscfg={'hook': answer}):
                    if not p.decided:
                        continue
                    if not p.done:
                        cx.bad(p, 'accept', site, f'a well-formed reply with {ns} additional status words and {extra} further items ends with {p.kind} {p.exc or p.o.why}')
                        continue
                    st = fix('words')
                    for k, v in (('service', u8('rs')), ('status', u8('rst')), ('additional', Seq([('e', add(elem(st, 2 * i), scale(elem(st, 2 * i + 1), 256))) for i in range(ns)])),
                                 ('data', cat(rest)), ('items', extra)):
                        cx.expect(p, 'decode', site, k, p.out(k), v)
                    for i, (t, d) in enumerate(ex):
                        for k, v in (('itemType', t), ('itemData', cat(d)), ('itemLength', length(d))):
                            cx.expect(p, 'decode', site, f'{k} of further item {i}', p.out(k, i), v)
        # arbitrary replies
        m = inp('msg', 60000)
        L = length(m)
        for n in (0, 1, 2, 3) if cx.deep else (0, 1, 2):
            def answer(I, name, a, ref, n=n):
                I.store(a[0], cat([('e', elem(fix('head'), i)) for i in range(6)], byt(n, 2), m))
            for p in cx.run(pr, oscfg={'hook': answer}, tune=lambda I: setattr(I, 'UNROLL', 2)):
                if not p.decided:
                    continue
                if p.threw and not p.throws('std::runtime_error') or p.kind in ('ub', 'terminate'):
                    cx.bad(p, 'refuse', site, f'a bad reply ends with {p.kind} {p.exc or p.o.why}')
                    continue
                for g, its in items_of(p.facts, m, L, n):
                    if its is None or n < 2:
                        cx.must(p, 'refuse', site, f'a reply with too few or incomplete items ({n} announced) is accepted', not p.done, g)
                        continue
                    off, ln = add(its[1][0], 4), its[1][1]
                    for h, b in split(g, cle(4, ln)):
                        if not b:
                            cx.must(p, 'refuse', site, 'a reply too short for its header is accepted', not p.done, h)
                            continue
                        ns = elem(m, facts_idx(add(off, 3), h))
                        for k, fit in split(h, cle(add(4, scale(ns, 2)), ln)):
                            if not fit:
                                cx.must(p, 'refuse', site, 'a reply whose additional status exceeds its data is accepted', not p.done, k)
                            elif not p.done:
                                cx.must(p, 'accept', site, f'a well-formed reply ends with {p.exc}', False, k)
                            else:
                                check_response(cx, p, site, m, off, ln, k, None)
                                cx.expect(p, 'decode', site, 'number of further items', p.out('items'), n - 2, k)
                                for i, (o2, l2) in enumerate(its[2:]):
                                    cx.expect(p, 'decode', site, f'type of further item {i}', p.out('itemType', i), dec(m, o2, 2, k), k)
                                    cx.expect(p, 'decode', site, f'data of further item {i}', p.out('itemData', i), cat((m, add(o2, 4), l2)), k)
        # too short for the item count
        for n in range(8):
            def answer(I, name, a, ref, n=n):
                I.store(a[0], Seq([('e', elem(fix('head'), i)) for i in range(n)]))
            for p in cx.run(pr, oscfg={'hook': answer}):
                if p.done:
                    cx.bad(p, 'refuse', site, f'a reply of {n} bytes is accepted')
                elif p.decided and not p.throws('std::runtime_error'):
                    cx.bad(p, 'refuse', site, f'a reply of {n} bytes ends with {p.kind} {p.exc or p.o.why}')
                elif p.decided:
                    cx.ok()
    m = inp('msg')
    L = length(m)
    site = 'src/cip/MessageRouterResponse.cpp (expand)'
    for pr in ('rep_expand', 'rep_expand_used'):
        for p in cx.run(pr, tune=lambda I: setattr(I, 'UNROLL', 4)):
            if not p.decided:
                continue
            if p.threw and not p.throws('std::runtime_error') or p.kind in ('ub', 'terminate'):
                cx.bad(p, 'refuse', site, f'a bad reply ends with {p.kind} {p.exc or p.o.why}')
                continue
            for g, (hd,) in cx.cases(p, cle(4, L)):
                if not hd:
                    cx.must(p, 'refuse', site, 'a reply without a full header is accepted', not p.done, g)
                    continue
                for h, fit in split(g, cle(add(4, scale(elem(m, 3), 2)), L)):
                    if not fit:
                        cx.must(p, 'refuse', site, 'a reply whose additional status exceeds its data is accepted', not p.done, h)
                    elif not p.done:
                        cx.must(p, 'accept', site, f'a well-formed reply ends with {p.exc}', False, h)
                    else:
                        check_response(cx, p, site, m, 0, L, h, None)
    for p in cx.run('rep_setters'):
        if p.done:
            for i, (k, v) in enumerate((('status', 0), ('status', u8('st')))):
                cx.expect(p, 'fields', 'src/cip/MessageRouterResponse.cpp', k, p.out(k, i), v)
            for i, v in enumerate((Seq(), cat(inp('d')))):
                cx.expect(p, 'fields', 'src/cip/MessageRouterResponse.cpp', 'data', p.out('data', i), v)
