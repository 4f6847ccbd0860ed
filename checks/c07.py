"""Abstract interpretation of both message routers over a stand-in session: for every overload, path depth, segment format and number of additional items the frame handed to the session is computed as a byte sequence over symbolic ids, services and data of unknown length, and compared with the layout of an unconnected explicit request; exactly one frame per request."""
from eip.check import *
from checks.c04 import frame
from checks.c05 import item
from checks.c06 import spec8, spec16

PROBES = ['p_explicit']
OK_REPLY = bytes([0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0xb2, 0, 4, 0, 0x8e, 0, 0, 0])


def answer(I, name, a, ref):
    if name == 'exchange':
        I.store(a[0], cat(OK_REPLY))


def mr(f, service, ids, wide, data):
    p = (spec16 if wide else spec8)(f, ids)
    return cat([('e', service), ('e', len(ids) * (2 if wide else 1))], p, data)


def request(f, service, ids, wide, data, extra=()):
    cp = cat(byt(2 + len(extra), 2, f), bytes(4), item(f, 0xb2, mr(f, service, ids, wide, data)), *[item(f, t, d) for t, d in extra])
    return frame(f, 0x6f, u32('session'), 0, cat(bytes(6), cp))


def run(cx):
    d = inp('data', 40000)
    extra = [(u16('t0'), inp('d0', 1000)), (u16('t1'), inp('d1', 1000))]
    for pr, wide, w, cls in (('req_default', True, 16, 'src/MessageRouter.cpp'), ('req_wide', True, 16, 'src/MessageRouter.cpp'), ('req_narrow', False, 16, 'src/MessageRouter.cpp'),
                             ('req_yaskawa', False, 8, 'src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp')):
        site = cls + ' (sendRequest)'
        for p in cx.run(pr, oscfg={'hook': answer}):
            if not p.decided:
                continue
            n, o = p.out('depth'), p.out('overload')
            ids = [U(x, w) for x in 'coa'][:n]
            fits = True if wide else cand(*[cle(i, 255) for i in ids])
            if not p.done:
                cx.must(p, 'request', site, f'a request over a path of depth {n} (overload {o}) ends with {p.kind} {p.exc or p.o.why}', cnot(fits) if fits is not True else False)
                cx.must(p, 'once', site, 'a refused request is sent all the same', not p.outs.get('frame'))
                continue
            fr = p.outs.get('frame', [])
            if len(fr) != 1:
                cx.bad(p, 'once', site, f'{len(fr)} frames are sent for one request')
                continue
            spec = request(p.facts, u8('service'), ids, wide, d if o > 0 else Seq(), extra[:max(0, o - 2)])
            cx.expect(p, 'request', site, f'frame of a request over a path of depth {n} with {max(0, o - 2)} additional items (overload {o})', fr[0], spec)
    big = inp('data', 200000)
    for pr, over, cls in (('req_huge', 24, 'src/MessageRouter.cpp'), ('req_huge_yaskawa', 20, 'src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp')):
        for p in cx.run(pr, oscfg={'hook': answer}):
            site = cls + ' (sendRequest)'
            if p.done or p.outs.get('frame'):
                cx.must(p, 'length', site, 'a request that does not fit into a frame is sent truncated', cle(length(big), 65535 - 16 - 6))
            elif p.decided and not p.throws('std::runtime_error'):
                cx.bad(p, 'length', site, f'too long data ends with {p.kind} {p.exc or p.o.why}')
    for p in cx.run('req_twice', oscfg={'hook': answer}):
        site = 'src/MessageRouter.cpp (sendRequest)'
        if p.done:
            fr = p.outs.get('frame', [])
            cx.must(p, 'once', site, 'two requests are not two frames', len(fr) == 2)
            for i, (s, n, dd) in enumerate((('service', 2, 'data'), ('service2', 1, 'data2'))):
                if i < len(fr):
                    cx.expect(p, 'request', site, f'frame {i + 1} of two requests', fr[i], request(p.facts, u8(s), [u16('c'), u16('o')][:n], True, inp(dd, 1000)))
    for pr, w, cls in (('mrr_pack', 16, 'src/cip/MessageRouterRequest.cpp'), ('mrr_pack_y', 8, 'src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.cpp')):
        for p in cx.run(pr):
            if p.done:
                n = p.out('depth')
                wide = w == 16 and not p.out('narrow')
                cx.expect(p, 'request', cls + ' (pack)', f'request over a path of depth {n}', p.out('packed'), mr(p.facts, u8('service'), [U(x, w) for x in 'coa'][:n], wide, inp('data')))
