"""Abstract interpretation of EPath and Yaskawa_EPath: encoded bytes, declared size and equality for every depth, id and segment format; decoding of every mixture of segment formats, of truncated, unknown and incomplete segments, into fresh and used path objects."""
from eip.check import *

PROBES = ['p_paths']


def spec16(f, ids):
    return cat(*[bytes([t, 0]) + b'' if False else [('e', t), ('e', 0)] + byt(i, 2, f) for t, i in zip((0x21, 0x25, 0x31), ids)])


def spec8(f, ids):
    return cat(*[[('e', t), ('e', i)] for t, i in zip((0x20, 0x24, 0x30), ids)])


def run(cx):
    for y in (False, True):
        pre = 'y' if y else ''
        site = 'src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp' if y else 'src/cip/EPath.cpp'
        w = 8 if y else 16
        full = [U(n, w) for n in 'coa']

        def ids(d):
            return full[:d]

        def idcheck(p, s, d, vals, rule='fields'):
            for k, v in zip(('class', 'object', 'attribute'), list(vals) + [0] * (3 - d)):
                cx.expect(p, rule, s, f'{k} id of a path of depth {d}', p.out(k), v)

        for p in cx.run(pre + 'path_fields'):
            if not p.done:
                if p.decided:
                    cx.bad(p, 'fields', site, f'{p.kind} {p.exc or p.o.why}')
                continue
            d = p.out('depth')
            idcheck(p, site + ' (EPath)', d, ids(d))
            if not y:
                cx.expect(p, 'size', site + ' (getSizeInWords)', f'size of a path of depth {d}, 16-bit segments', p.out('size16'), 2 * d)
                cx.expect(p, 'size', site + ' (getSizeInWords)', f'size of a path of depth {d}, 16-bit segments', p.out('size16', 1), 2 * d)
            cx.expect(p, 'size', site + ' (getSizeInWords)', f'size of a path of depth {d}, 8-bit segments', p.out('size8'), d)
        for pr, wide in ((('ypath_pack', False),) if y else (('path_pack16', True), ('path_pack8', False))):
            for p in cx.run(pr):
                if not p.decided:
                    continue
                d = p.out('depth')
                s = site + ' (packPaddedPath)'
                fits = cand(*[cle(i, 255) for i in ids(d)]) if not wide else True
                if p.done:
                    cx.must(p, 'fit', s, 'an id that does not fit 8 bits is encoded', fits)
                    spec = (spec16 if wide else spec8)(p.facts, ids(d))
                    cx.expect(p, 'pack', s, f'encoded path of depth {d}', p.out('packed'), spec)
                    cx.expect(p, 'pack', site + ' (expandPaddedPath)', f'encoded path of depth {d}, decoded and encoded again', p.out('again'), spec)
                    cx.expect(p, 'roundtrip', site + ' (expandPaddedPath)', 'decoded path equals the encoded one', p.out('same'), True)
                    idcheck(p, site + ' (expandPaddedPath)', d, ids(d), 'roundtrip')
                else:
                    if not p.throws('std::runtime_error'):
                        cx.bad(p, 'pack', s, f'encoding ends with {p.kind} {p.exc or p.o.why}')
                    if fits is True:
                        cx.bad(p, 'pack', s, f'encoding and decoding a path of depth {d} throws {p.exc}')
                    else:
                        cx.must(p, 'fit', s, 'a path whose ids fit is refused', cnot(fits))
        for p in cx.run(pre + 'path_expand'):
            if not p.decided:
                continue
            d = p.out('depth')
            s = site + ' (expandPaddedPath)'
            ws = p.outs.get('wide', [])
            vals = [u16('COA'[i]) if ws[i] else u8('coa'[i]) for i in range(d)]
            fits = cand(*[cle(i, 255) for i in vals]) if y else True
            if p.done:
                cx.must(p, 'fit', s, 'an id that does not fit 8 bits is accepted', fits)
                idcheck(p, s, d, vals, 'expand')
                spec = (spec8 if y else spec16)(p.facts, vals)
                cx.expect(p, 'expand', s, f'decoded path of depth {d} encoded again', p.out('packed'), spec)
            else:
                cx.must(p, 'expand', s, f'a well-formed path ends with {p.kind} {p.exc or p.o.why}', cnot(fits) if fits is not True else False)
        for pr, what in (('truncated', 'a truncated path'), ('unknown', 'a path with an unknown segment type'), ('incomplete', 'a path that misses a segment'), ('incomplete_used', 'a path that misses a segment')):
            for p in cx.run(f'{pre}path_{pr}'):
                s = site + ' (expandPaddedPath)'
                if p.done:
                    cx.bad(p, 'malformed', s, what + ' is accepted')
                elif p.decided and not p.throws('std::runtime_error'):
                    cx.bad(p, 'malformed', s, f'{what} ends with {p.kind} {p.exc or p.o.why}')
                elif p.decided:
                    cx.ok()
        for p in cx.run(pre + 'path_any'):
            if p.threw and not p.throws('std::runtime_error') or p.kind in ('ub', 'terminate'):
                cx.bad(p, 'malformed', site + ' (expandPaddedPath)', f'a path ends with {p.kind} {p.exc or p.o.why}')
            elif p.decided:
                cx.ok()
        for p in cx.run(pre + 'path_equal'):
            if p.done:
                d, e = p.out('d'), p.out('e')
                eq = False if d != e else cand(*[ceq(U(n, w), U(n + '2', w)) for n in 'coa'[:d]])
                cx.expect(p, 'equal', site + ' (operator==)', f'equality of paths of depth {d} and {e}', p.out('same'), eq)
