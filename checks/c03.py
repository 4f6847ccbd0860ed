"""Abstract interpretation of Buffer and the CIP value types: byte provenance of every encoder, value provenance and position of every decoder, compared with the CIP encoding table for values, prefixes and suffixes left symbolic."""
from eip.check import *

PROBES = ['p_buffer']
SITE = 'src/utils/Buffer.cpp'


def twos(name, w):
    return sym(name, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def run(cx):
    pre = inp('pre')
    enc = {}
    for w in (8, 16, 32, 64):
        enc[f'u{w}'] = lambda f, w=w: byt(U('x', w), w // 8, f)
        enc[f'i{w}'] = lambda f, w=w: byt(twos('x', w), w // 8, f)
    enc['f32'] = lambda f: byt(A(atom('fbits', (F('sym', 'x', 32), 32), 0, 2 ** 32 - 1)), 4, f)
    enc['f64'] = lambda f: byt(A(atom('fbits', (F('sym', 'x', 64), 64), 0, 2 ** 64 - 1)), 8, f)
    enc['bytes'] = lambda f: [('s', inp('x'), 0, length(inp('x')))]

    def words(f):
        out = []
        for i in range(5):
            out += byt(elem(arr('fix16:x', 0, 65535, 2 ** 20), i), 2, f)
        return out
    enc['words'] = words
    enc['rev'] = lambda f: [('e', u8('major')), ('e', u8('minor'))]

    def strs(mx, n, s):
        a = strg('x', mx) if s else inp('x', mx)
        return lambda f: byt(length(a), n, f) + [('s', a, 0, length(a))]
    enc['sstr'], enc['str'] = strs(255, 1, False), strs(65535, 2, False)

    def chars(mx, n):
        a = strg('x', mx)
        return lambda f: (byt(length(a), n, f), a)
    enc['ep'] = lambda f: [('e', 0), ('e', 2)] + byt(u16('port'), 2, f) + byt(u32('addr'), 4, f) + [('e', 0)] * 8
    for n, spec in enc.items():
        for p in cx.run('enc_' + n):
            site = f'{SITE} (encoding of {n})'
            if p.threw:
                cx.bad(p, 'encode', site, f'encoding {n} throws {p.exc}')
            elif p.done:
                e = cat(pre, spec(p.facts))
                cx.expect(p, 'encode', site, f'bytes appended for {n}', p.out('data'), e)
                cx.expect(p, 'encode-size', site, f'size after {n}', p.out('size'), seqlen(e))
    # strings built from characters
    for n, mx, k in (('sstr_s', 255, 1), ('str_s', 65535, 2)):
        a = strg('x', mx)
        for p in cx.run('enc_' + n):
            if p.threw:
                cx.bad(p, 'encode', f'{SITE} ({n})', f'encoding a string throws {p.exc}')
            elif p.done and isinstance(p.out('data'), Seq):
                q = p.out('data')
                cx.expect(p, 'encode', f'src/cip/CipString.h ({n})', 'string encoding length', seqlen(q), add(length(pre), add(length(a), k)))
                head = Seq(seq_prefix(q, add(length(pre), k), p.facts))
                cx.expect(p, 'encode', f'src/cip/CipString.h ({n})', 'string length prefix', head, cat(pre, byt(length(a), k, p.facts)))
    # too long for the length prefix: refused
    for n, mx, s in (('sstr_long', 255, 0), ('str_long', 65535, 0), ('sstr_s_long', 255, 1), ('str_s_long', 65535, 1)):
        a = strg('x') if s else inp('x')
        for p in cx.run('enc_' + n):
            site = f'src/cip/CipString.h ({n})'
            if p.done:
                cx.must(p, 'length-prefix', site, f'a string longer than {mx} characters is encoded with a truncated length', cle(length(a), mx))
            elif p.threw:
                cx.must(p, 'length-prefix', site, f'a string of at most {mx} characters is refused', clt(mx, length(a)))
    # decoding
    m = inp('msg')
    L, P0 = length(m), length(pre)

    def common(p, n, k, site):
        cx.expect(p, 'position', site, f'position after decoding {n}', p.out('pos'), add(P0, k))
        cx.expect(p, 'valid', site, 'isValid after a complete value', p.out('valid'), True)
        cx.expect(p, 'valid', site, 'empty exactly at the end', p.out('empty'), b2i(ceq(k, L)) if not isinstance(ceq(k, L), bool) else ceq(k, L))

    def decode(n, k, fn):
        site = f'{SITE} (decoding of {n})'
        for p in cx.run('dec_' + n):
            if not p.decided:
                continue
            kk = k if not callable(k) else k(p)
            if kk is None:
                continue
            for f, (full,) in cx.cases(p, cle(kk, L)):
                if not full:
                    if p.done and f.decide(cle(1, kk)):
                        cx.expect(p, 'truncated', site, f'isValid after a truncated {n}', p.out('valid'), False, f)
                    continue
                if p.kind == 'ub':
                    cx.bad(p, 'decode', site, f'decoding a complete {n} has undefined behaviour: {p.o.why}')
                    continue
                if p.threw:
                    cx.bad(p, 'decode', site, f'decoding a complete {n} throws {p.exc}')
                    continue
                old, p.facts = p.facts, f
                try:
                    common(p, n, kk, site)
                    for what, got, want in fn(p, f):
                        cx.expect(p, 'decode', site, f'{what} of {n}', got, want)
                finally:
                    p.facts = old
    for w in (8, 16, 32, 64):
        decode(f'u{w}', w // 8, lambda p, f, w=w: [('value', p.out('got'), dec(m, 0, w // 8, f))])
        decode(f'i{w}', w // 8, lambda p, f, w=w: [('value', p.out('got'), dec(m, 0, w // 8, f, True))])
    decode('f32', 4, lambda p, f: [('value', p.out('got'), F('frombits', dec(m, 0, 4, f), 32))])
    decode('f64', 8, lambda p, f: [('value', p.out('got'), F('frombits', dec(m, 0, 8, f), 64))])
    decode('bytes', u32('n'), lambda p, f: [('bytes', p.out('got'), cat((m, 0, u32('n'))))])
    decode('words', 6, lambda p, f: [('words', p.out('got'), Seq([('e', dec(m, 2 * i, 2, f)) for i in range(3)]))])
    decode('rev', 2, lambda p, f: [('major', p.out('major'), elem(m, 0)), ('minor', p.out('minor'), elem(m, 1))])

    def chars_of(p, got, off, n, f):
        # characters are the bytes, up to signedness
        r = [('length', p.out('len'), n), ('characters', p.out('chars'), cat((m, off, n)))]
        if isinstance(p.out('std'), Seq):
            r.append(('std::string length', seqlen(p.out('std')), n))
        return r

    def klen(off):
        def k(p):
            if p.facts.decide(cle(off, L)) is False:
                return off
            return add(off, dec(m, 0, off, p.facts))
        return k
    decode('sstr', klen(1), lambda p, f: chars_of(p, None, 1, dec(m, 0, 1, f), f))
    decode('str', klen(2), lambda p, f: chars_of(p, None, 2, dec(m, 0, 2, f), f))

    def be16(off):
        return add(scale(elem(m, off), 256), elem(m, off + 1))
    decode('ep', 16, lambda p, f: [
        ('port', p.out('port'), be16(2)), ('address port', p.out('a_port'), dec(m, 2, 2, f)),
        ('address', p.out('a_addr'), dec(m, 4, 4, f)), ('family', p.out('a_family'), be16(0))])
    # mixed round trip
    for p in cx.run('seq_mixed'):
        site = f'{SITE} (mixed sequence)'
        if p.threw:
            cx.bad(p, 'roundtrip', site, f'throws {p.exc}')
        if not p.done:
            continue
        c = inp('c')
        f = p.facts
        body = cat(byt(u8('a'), 1, f), byt(twos('b', 16), 2, f), c, byt(u32('d'), 4, f), byt(u64('e'), 8, f),
                   byt(A(atom('fbits', (F('sym', 'f', 32), 32), 0, 2 ** 32 - 1)), 4, f))
        cx.expect(p, 'roundtrip', site, 'bytes', p.out('data'), body)
        for k, v in (('a', u8('a')), ('b', twos('b', 16)), ('c', cat(c)), ('d', u32('d')), ('e', u64('e')), ('f', F('sym', 'f', 32)), ('valid', True), ('empty', True), ('valid2', False), ('after', body)):
            cx.expect(p, 'roundtrip', site, f'decoded {k}', p.out(k), v)
    for p in cx.run('capacity'):
        if p.done:
            cx.expect(p, 'capacity', SITE + ' (Buffer(capacity))', 'a new buffer is empty', p.out('size0'), 0)
            cx.expect(p, 'capacity', SITE + ' (Buffer(capacity))', 'contents', p.out('data'), Seq(byt(u16('x'), 2, p.facts)))


def seq_prefix(q, n, facts):
    out, left = [], n
    for s in q.segs:
        if left == 0:
            break
        k = seglen(s)
        d = facts.decide(cle(k, left))
        if d is True:
            out.append(s)
            left = facts.simp(norm(sub(left, k), facts))
        elif s[0] == 's':
            out.append(('s', s[1], s[2], left))
            break
        else:
            break
    return out
