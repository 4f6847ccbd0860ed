"""Abstract interpretation of EncapsPacket and its factory: every frame is computed as a byte sequence over symbolic fields and a payload of unknown length and compared with the 24-byte header layout; every byte sequence offered as a frame is partitioned into accepted and refused ones and the accepted fields traced back to their bytes."""
from eip.check import *

PROBES = ['p_frames']
SITE = 'src/eip/EncapsPacket.cpp'
FAC = 'src/eip/EncapsPacketFactory.cpp'


def frame(f, cmd, handle, status, body):
    b = cat(*([body] if not isinstance(body, list) else body)) if not isinstance(body, Seq) else body
    return cat(byt(cmd, 2, f), byt(seqlen(b), 2, f), byt(handle, 4, f), byt(status, 4, f), [('e', 0)] * 12, b)


def i2b_any(x):
    return x if isinstance(x, (bool, Cond)) else i2b(x) if isinstance(x, (int, Lin)) else x


def check_frame(cx, p, site, cmd, handle, status, body, facts=None):
    f = facts or p.facts
    body = cat(body)
    cx.expect(p, 'frame', site, 'frame bytes', p.out('packed'), frame(f, cmd, handle, status, body), f)
    for k, v in (('command', cmd), ('length', seqlen(body)), ('handle', handle), ('status', status), ('body', body)):
        cx.expect(p, 'field', site, k, p.out(k), v, f)


def run(cx):
    d = inp('data', 65535)
    for pr in ('frame_encode', 'frame_reset'):
        for p in cx.run(pr):
            if p.threw or p.kind in ('ub', 'terminate'):
                cx.bad(p, 'frame', SITE + ' (setData)', f'a frame whose data fits is refused: {p.exc or p.o.why}')
            elif p.done:
                check_frame(cx, p, SITE + ' (pack)', u16('command'), u32('handle'), u32('status'), d)
    for p in cx.run('frame_empty'):
        if p.done:
            check_frame(cx, p, SITE + ' (EncapsPacket)', 0, 0, 0, Seq())
    big = inp('data')
    for pr, mx in (('frame_long', 65535), ('fac_rrdata_long', 65529)):
        site = (SITE + ' (setData)') if pr == 'frame_long' else FAC + ' (createSendRRDataPacket)'
        for p in cx.run(pr):
            if p.done:
                cx.must(p, 'length', site, f'{mx + 1} or more data bytes are sent with a truncated length field', cle(length(big), mx))
            elif p.threw:
                cx.must(p, 'length', site, f'data of at most {mx} bytes is refused', clt(mx, length(big)))
            elif p.kind in ('ub', 'terminate'):
                cx.bad(p, 'length', site, f'too long data: {p.o.why}')
    m = inp('msg')
    L = length(m)
    for pr in ('frame_decode', 'frame_redecode'):
        for p in cx.run(pr):
            if not p.decided:
                continue
            f = p.facts
            if p.done:
                cx.must(p, 'accept', SITE + ' (expand)', 'a message without a full header is accepted', cle(24, L))
                cx.must(p, 'accept', SITE + ' (expand)', 'a message whose data differs from the announced length is accepted', ceq(sub(L, 24), dec(m, 2, 2, f)))
                for k, v in (('command', dec(m, 0, 2, f)), ('length', dec(m, 2, 2, f)), ('handle', dec(m, 4, 4, f)), ('status', dec(m, 8, 4, f)), ('body', cat((m, 24, sub(L, 24))))):
                    cx.expect(p, 'decode', SITE + ' (expand)', k, p.out(k), v)
                cx.expect(p, 'decode', SITE + ' (expand)', 'frame encoded again', p.out('packed'), cat(m))
            elif p.threw:
                if not p.throws('std::runtime_error'):
                    cx.bad(p, 'refuse', SITE + ' (expand)', f'a bad frame is refused with {p.exc}')
                for g, (full,) in cx.cases(p, cle(24, L)):
                    if full:
                        cx.must(p, 'refuse', SITE + ' (expand)', 'a well-formed frame is refused', cnot(ceq(sub(L, 24), dec(m, 2, 2, g))), g)
            else:
                cx.bad(p, 'decode', SITE + ' (expand)', f'{p.kind}: {p.o.why}')
    for p in cx.run('frame_length'):
        if p.done:
            cx.must(p, 'length-of', SITE + ' (getLengthFromHeader)', 'a length is taken from an incomplete header', cle(24, L))
            cx.expect(p, 'length-of', SITE + ' (getLengthFromHeader)', 'length', p.out('length'), dec(m, 2, 2, p.facts))
        elif p.decided:
            cx.must(p, 'length-of', SITE + ' (getLengthFromHeader)', 'a full header is refused', clt(L, 24))
            if not p.throws('std::runtime_error'):
                cx.bad(p, 'length-of', SITE + ' (getLengthFromHeader)', f'an incomplete header is refused with {p.exc or p.o.why}')
    for p in cx.run('frame_equal'):
        if p.done:
            cx.expect(p, 'equal', SITE + ' (operator==)', 'equality of copies', p.out('same'), True)
            cx.expect(p, 'equal', SITE + ' (operator!=)', 'inequality of copies', p.out('differ'), False)
            x, y = p.out('same2'), p.out('differ2')
            if isinstance(x, (bool, Cond, int, Lin)) and isinstance(y, (bool, Cond, int, Lin)):
                cx.expect(p, 'equal', SITE + ' (operator!=)', 'negation of equality', y, cnot(i2b(x) if isinstance(x, (int, Lin)) and not isinstance(x, bool) else x))
    for p in cx.run('frame_compare'):
        if p.done:
            i = p.out('part')
            eq = [lambda: b2i(ceq(u16('command'), u16('command2'))), lambda: b2i(ceq(u32('handle'), u32('handle2'))), lambda: b2i(ceq(u32('status'), u32('status2'))),
                  lambda: b2i(ceq(u64('context'), u64('context2'))), lambda: b2i(ceq(u32('options'), u32('options2'))), lambda: b2i(ceq(u8('y'), u8('y2'))), lambda: 1][i]()
            part = ('commands', 'handles', 'status codes', 'contexts', 'options', 'data', 'no fields')[i]
            cx.expect(p, 'equal', SITE + ' (operator==)', f'frames with different {part}: equality', b2i(i2b_any(p.out('eq'))), eq)
            cx.expect(p, 'equal', SITE + ' (operator==)', f'frames with different {part}: equality, swapped', b2i(i2b_any(p.out('qe'))), eq)
            cx.expect(p, 'equal', SITE + ' (operator!=)', f'frames with different {part}: inequality', b2i(i2b_any(p.out('ne'))), sub(1, eq))
        elif p.decided:
            cx.bad(p, 'equal', SITE, f'a well-formed frame is not accepted: {p.kind} {p.exc or p.o.why}')
    z = Seq()
    for pr, fn, spec in (('fac_register', 'createRegisterSessionPacket', (0x65, 0, 0, cat(bytes([1, 0, 0, 0])))),
                         ('fac_unregister', 'createUnRegisterSessionPacket', (0x66, u32('handle'), 0, z)),
                         ('fac_identity', 'createListIdentityPacket', (0x63, 0, 0, z))):
        for p in cx.run(pr):
            if p.done:
                check_frame(cx, p, f'{FAC} ({fn})', *spec)
            elif p.decided:
                cx.bad(p, 'factory', f'{FAC} ({fn})', f'{p.kind} {p.exc or p.o.why}')
    d = inp('data', 65529)
    for p in cx.run('fac_rrdata'):
        site = f'{FAC} (createSendRRDataPacket)'
        if p.done:
            check_frame(cx, p, site, 0x6f, u32('handle'), 0, cat([('e', 0)] * 4, byt(u16('timeout'), 2, p.facts), d))
        elif p.decided:
            cx.bad(p, 'factory', site, f'{p.kind} {p.exc or p.o.why}')
