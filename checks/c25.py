"""Abstract interpretation of ParameterObject over a scripted router: every request (service, class, instance, attribute), and the place in the replies from which each attribute, flag, text and typed value comes, for every data size, path size, text length and descriptor; typed access for ten types; updates; local construction and setters."""
from checks.util import *

PROBES = ['p_param']
FILE = 'src/ParameterObject.cpp'
ds, lps = u8('ds'), u8('lps')
DESC = u16('desc')


def param_reply(f, cut=None):
    """the reply to 'get all attributes'"""
    return cat(sub_seq('val', ds), [('e', lps)], sub_seq('path', lps), byt(DESC, 2, f), [('e', u8('type')), ('e', u8('dsz2')), ('e', u8('nl'))], sub_seq('name', u8('nl')),
               [('e', u8('ul'))], sub_seq('units', u8('ul')), [('e', u8('hl'))], sub_seq('help', u8('hl')), sub_seq('min', ds), sub_seq('max', ds), sub_seq('def', ds),
               sub_seq('ignored', 16), [('e', u8('prec'))], inp('rest', 1000))


def script(I, k, req):
    f = I.facts
    if k == 0:
        return 0, cat([('e', ds)], inp('rest0', 100))
    if k == 1:
        return 0, param_reply(f)
    if k < 6:
        return 0, cat(byt(u16(f'attr{k + 11}'), 2, f))
    return 0, cat(sub_seq('new', ds), inp('rest2', 100))


def typed_value(p, src, n, sg, fl, f):
    v = dec(src, 0, n, f, sg)
    if fl:
        return F('frombits', dec(src, 0, n, f), 8 * n)
    return v


def check_typed(cx, p, site, srcs, n, sg=False, fl=False):
    for f, (enough,) in cx.cases(p, cle(n, ds)):
        for k, a in srcs:
            s = f'{FILE.replace(".cpp", ".h")} ({site})'
            if not enough:
                if p.out(k) is not None:
                    cx.must(p, 'typed', s, f'{k}: a value is made up from too few bytes', False, f)
                else:
                    cx.ok()
            elif p.out(k) is None:
                cx.must(p, 'typed', s, f'{k}: refused although it has enough bytes', False, f)
            else:
                v = typed_value(p, a, n, sg, fl, f)
                if fl and cx_float_same(p.out(k), v, f):
                    cx.ok()
                else:
                    cx.expect(p, 'typed', s, k, p.out(k), v, f)


def cx_float_same(a, b, f):
    return isinstance(a, F) and a.op == b.op and a.a[1] == b.a[1] and val_same(a.a[0], b.a[0], f)


SRC = [('actual', fix('val')), ('min', fix('min')), ('max', fix('max')), ('default', fix('def'))]


def attributes(cx, p, full, site):
    f0 = p.facts
    for f, (sc,) in cx.cases(p, ceq(bits(DESC, 2, 1, f0, 16), 1)):
        exp = {'class': 0x0f, 'instance': u16('id'), 'parameter': u16('id'), 'full': full, 'scalable': sc, 'readOnly': ceq(bits(DESC, 4, 1, f, 16), 1), 'type': u8('type')}
        if full:
            exp.update(name=cat(sub_seq('name', u8('nl'))), units=cat(sub_seq('units', u8('ul'))), help=cat(sub_seq('help', u8('hl'))))
            if sc:
                exp.update(multiplier=u16('attr13'), divisor=u16('attr14'), base=u16('attr15'), offset=wrap(u16('attr16'), 16, True, f), precision=u8('prec'))
        for k, v in exp.items():
            if p.out(k) is not None or k not in ('parameter',):
                cx.expect(p, 'attributes', site, k, p.out(k), v, f)
        rs = reqs(p)
        if full and sc and len(rs) >= 6:
            for i in range(4):
                check_request(cx, p, site, f'scaling attribute {13 + i}', rs[2 + i], GET_ONE, [0x0f, u16('id'), 13 + i], Seq(), f)
        n = 6 if full and sc else 2
        yield f, n


def run(cx):
    ctor = f'{FILE} (ParameterObject)'
    for p in cx.run('par_read', oscfg={'hook': router(script)}):
        if not p.decided:
            continue
        if not p.done:
            cx.bad(p, 'accept', ctor, f'reading a complete parameter ends with {p.kind} {p.exc or p.o.why}')
            continue
        full = bool(p.out('asked'))
        rs = reqs(p)
        check_request(cx, p, ctor, 'data size', rs[0], GET_ONE, [0x0f, u16('id'), 6], Seq())
        check_request(cx, p, ctor, 'all attributes', rs[1], GET_ALL, [0x0f, u16('id')], Seq())
        for f, n in attributes(cx, p, full, ctor):
            if len(rs) != n:
                cx.must(p, 'request', ctor, f'{len(rs)} requests instead of {n}', False, f)
        check_typed(cx, p, 'get<udint>', SRC if full else SRC[:1], 4)
    for t, n, sg, fl in (('u8', 1, 0, 0), ('u16', 2, 0, 0), ('u64', 8, 0, 0), ('i8', 1, 1, 0), ('i16', 2, 1, 0), ('i32', 4, 1, 0), ('i64', 8, 1, 0), ('f32', 4, 0, 1), ('f64', 8, 0, 1)):
        for p in cx.run('par_' + t, oscfg={'hook': router(script)}):
            if p.done:
                check_typed(cx, p, f'get<{t}>', SRC, n, bool(sg), bool(fl))
    up = f'{FILE} (updateValue)'
    for ok in (True, False):
        def s2(I, k, req, ok=ok):
            if 'update' in [e[1] for e in I.events if e[0] == 'mark'] and k >= 2:
                if not ok:
                    I.assume(cle(1, ds))
                    return 0, cat([('s', fix('new'), 0, sub(ds, 1))])
                return 0, cat(sub_seq('new', ds), inp('rest2', 100))
            return script(I, k, req)
        for p in cx.run('par_update', oscfg={'hook': router(s2)}):
            if not p.done:
                continue
            full = bool(p.out('asked'))
            cx.expect(p, 'update', up, 'update of the value succeeds', p.out('updated'), ok)
            rs = reqs(p)
            check_request(cx, p, up, 'value', rs[-1], GET_ONE, [0x0f, u16('id'), 1], Seq())
            for f, n in attributes(cx, p, full, up):
                if len(rs) != n + 1:
                    cx.must(p, 'request', up, f'{len(rs)} requests instead of {n + 1}', False, f)
            src = [('actual', fix('new') if ok else fix('val'))] + SRC[1:]
            check_typed(cx, p, 'get<udint>', src if full else src[:1], 4)
    for p in cx.run('par_local'):
        for k, v in {'class': 0x0f, 'instance': u16('id'), 'scalable': False, 'readOnly': False, 'name': Seq(), 'units': Seq(), 'help': Seq(), 'multiplier': 1, 'divisor': 1, 'base': 1, 'offset': 0,
                     'precision': 0, 'actual': 0, 'min': 0, 'max': 0, 'default': 0}.items():
            cx.expect(p, 'local', ctor, k, p.out(k), v)
    for p in cx.run('par_set'):
        for k, v in {'scalable': pred('sym', 's'), 'readOnly': pred('sym', 'r'), 'type': u8('t'), 'name': cat(strg('n')), 'units': cat(strg('u')), 'help': cat(strg('h')), 'multiplier': u16('m'),
                     'divisor': u16('d'), 'base': u16('b'), 'offset': sym('o', -32768, 32767), 'precision': u8('p')}.items():
            cx.expect(p, 'setter', f'{FILE} (set {k})', k, p.out(k), v)
