"""Abstract interpretation of CommonPacket, CommonPacketItem and their factory: packed bytes for 0 to 3 items of unknown type and length, and the partition of every message announcing 0 to 4 (thorough: 6) items, or any number, into accepted and refused ones with items traced back to their bytes."""
from eip.check import *

PROBES = ['p_frames']
CP = 'src/eip/CommonPacket.cpp'
IT = 'src/eip/CommonPacketItem.cpp'
FAC = 'src/eip/CommonPacketItemFactory.cpp'


def item(f, typ, *data):
    d = cat(*data)
    return cat(byt(typ, 2, f), byt(seqlen(d), 2, f), d)


def run(cx):
    for p in cx.run('cp_pack'):
        if not p.decided:
            continue
        if not p.done:
            cx.bad(p, 'pack', CP + ' (pack)', f'{p.kind} {p.exc or p.o.why} for items that fit')
            continue
        n = p.out('n')
        its = [(u16(f't{i}'), inp(f'd{i}', 65535)) for i in range(n)]
        f = p.facts
        for r in range(2):
            cx.expect(p, 'pack', CP + ' (pack)', f'packet of {n} items', p.out('packed', r), cat(byt(n, 2, f), *[item(f, t, d) for t, d in its]))
        cx.expect(p, 'items', CP + ' (getItems)', 'number of items', p.out('count'), n)
        for i, (t, d) in enumerate(its):
            for k, v in (('type', t), ('length', length(d)), ('data', cat(d))):
                cx.expect(p, 'items', IT, f'{k} of item {i}', p.out(k, i), v)
    for p in cx.run('cp_default'):
        for k, v in (('type', 0), ('length', 0), ('data', Seq()), ('packed', cat(bytes(4)))):
            if p.done:
                cx.expect(p, 'default', IT + ' (CommonPacketItem)', k, p.out(k), v)
    big = inp('data')
    for p in cx.run('item_long'):
        site = IT + ' (CommonPacketItem)'
        if p.done:
            cx.must(p, 'length', site, 'item data of more than 65535 bytes is accepted with a truncated length', cle(length(big), 65535))
            cx.expect(p, 'pack', IT + ' (pack)', 'item', p.out('packed'), item(p.facts, 0xb2, big))
        elif p.decided:
            cx.must(p, 'length', site, 'item data of at most 65535 bytes is refused', clt(65535, length(big)))
    for p in cx.run('item_equal'):
        if p.done:
            eq = b2i(ceq(u16('t0'), u16('t1')))
            dq = b2i(ceq(u8('y'), u8('y2')))
            for k, v in (('data', dq), ('ndata', sub(1, dq)), ('same', True), ('type', eq), ('size', False), ('nsame', False), ('ntype', sub(1, eq))):
                cx.expect(p, 'equal', IT + ' (operator==)', k, p.out(k), v)
    for p in cx.run('fac_items'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'factory', FAC, f'{p.kind} {p.exc or p.o.why}')
            continue
        f = p.facts
        u, c = inp('u', 65535), inp('c', 65535)
        for k, v in (('null', cat(bytes(4))), ('unconnected', item(f, 0xb2, u)), ('connected', item(f, 0xb1, c)),
                     ('sequence', item(f, 0x8002, byt(u32('id'), 4, f), byt(u32('seq'), 4, f)))):
            cx.expect(p, 'factory', FAC, f'{k} item', p.out(k), v)
    # decoding
    m = inp('msg')
    L = length(m)
    site = CP + ' (expand)'
    for p in cx.run('cp_expand'):
        if not p.decided:
            continue
        n = p.out('n')
        f = p.facts

        def walk(f, i, off):
            """complete items: yields (facts, items or None)"""
            if i == n:
                yield f, []
                return
            for g, b in split(f, cle(add(off, 4), L)):
                if not b:
                    yield g, None
                    continue
                ln = dec(m, add(off, 2), 2, g)
                for h, b2 in split(g, cle(add(add(off, 4), ln), L)):
                    if not b2:
                        yield h, None
                        continue
                    for k, r in walk(h, i + 1, h.simp(norm(add(add(off, 4), ln), h))):
                        yield k, None if r is None else [(off, ln)] + r
        for g, its in walk(f, 0, 0):
            if its is None:
                if p.done:
                    cx.must(p, 'truncated', site, f'a packet with fewer than the announced {n} items is accepted', False, g)
                elif not p.throws('std::runtime_error'):
                    cx.must(p, 'truncated', site, f'an incomplete packet ends with {p.kind} {p.exc or p.o.why}', False, g)
                else:
                    cx.ok()
                continue
            if not p.done:
                cx.must(p, 'accept', site, f'a complete packet of {n} items ends with {p.kind} {p.exc or p.o.why}', False, g)
                continue
            cx.expect(p, 'expand', site, 'number of items', p.out('count'), n, g)
            for i, (off, ln) in enumerate(its):
                for k, v in (('type', dec(m, off, 2, g)), ('length', ln), ('data', cat((m, add(off, 4), ln)))):
                    cx.expect(p, 'expand', site, f'{k} of item {i}', p.out(k, i), v, g)
    for p in cx.run('cp_expand_any', tune=lambda I: setattr(I, 'UNROLL', 2 if cx.deep else 1)):
        if p.done:
            cx.must(p, 'truncated', site, 'a message without item count is accepted', cle(2, L))
            if p.facts.decide(cle(2, L)) is True:
                cx.expect(p, 'expand', site, 'number of items', p.out('count'), dec(m, 0, 2, p.facts))
        elif p.threw and not p.throws('std::runtime_error'):
            cx.bad(p, 'refuse', site, f'refused with {p.exc}')


def split(f, cond):
    d = f.decide(cond)
    if d is not None:
        yield f, d
        return
    for v in (True, False):
        g = f.copy()
        if g.assume(cond if v else cnot(cond)):
            yield g, v
