"""Abstract interpretation of FileObject and its state classes over a scripted router: every state code (partitioned on the 256 values), first synchronisation and a second one from every state, and starting or stepping an upload in every state, with every reply."""
from checks.util import *

PROBES = ['p_file']
FILE = 'src/fileObject/FileObjectState.cpp'
KNOWN = {0: 0, 1: 1, 2: 2, 3: 2, 5: 2}
NAMES = {0: 'nonexistent', 1: 'empty', 2: 'loaded'}


def split_known(f, v, keys):
    """facts per known value of v, and the facts of all other values"""
    rest = f.copy()
    alive = True
    for k in keys:
        g = f.copy()
        if g.assume(ceq(v, k)):
            yield g, k
        if alive and not rest.assume(cne(v, k)):
            alive = False
    if alive:
        yield rest, None


def run(cx):
    code = u8('code')
    ID = u16('id')
    sync = f'{FILE} (SyncState)'
    for p in cx.run('file_sync', oscfg={'hook': router(lambda I, k, r: (0, cat([('e', code)], inp('rest', 100))))}):
        if not p.decided:
            continue
        rs = reqs(p)
        if len(rs) != 1:
            cx.bad(p, 'request', sync, f'{len(rs)} requests to read the state instead of one')
            continue
        check_request(cx, p, sync, 'state', rs[0], GET_ONE, [0x37, ID, 1], Seq())
        for f, k in split_known(p.facts, code, KNOWN):
            if k is None:
                cx.must(p, 'unknown', sync, 'an unknown or unsupported state code is accepted', not p.done, f)
                if not p.done and not p.throws('std::runtime_error'):
                    cx.must(p, 'unknown', sync, f'an unknown state code ends with {p.kind} {p.exc or p.o.why}', False, f)
            elif not p.done:
                cx.must(p, 'state', sync, f'state code {k} ends with {p.kind} {p.exc or p.o.why}', False, f)
            else:
                cx.expect(p, 'state', sync, f'state for code {k}', p.out('state'), KNOWN[k], f)
                cx.expect(p, 'state', sync, 'class', p.out('class'), 0x37, f)
                cx.expect(p, 'state', sync, 'instance', p.out('instance'), ID, f)
    c2 = u8('code2')
    for a in KNOWN:
        for p in cx.run('file_resync', oscfg={'hook': router(lambda I, k, r: (0, cat([('e', a if k == 0 else c2)])))}):
            if not p.decided:
                continue
            for f, k in split_known(p.facts, c2, KNOWN):
                if k is None:
                    cx.must(p, 'unknown', sync, 'an unknown or unsupported state code is accepted', not p.done, f)
                elif not p.done:
                    cx.must(p, 'state', sync, f'state code {k} after {a} ends with {p.kind} {p.exc or p.o.why}', False, f)
                else:
                    cx.expect(p, 'state', sync, f'state for code {k} after {a}', p.out('state', 1), KNOWN[k], f)
                    check_request(cx, p, sync, 'state, second read', reqs(p)[1], GET_ONE, [0x37, ID, 1], Seq(), f)
    for a in KNOWN:
        fs, ts, st = u32('fileSize'), u8('transferSize'), u8('st')

        def script(I, k, r, a=a):
            if k == 0:
                return 0, cat([('e', a)])
            if k == 1:
                return st, cat(byt(fs, 4, I.facts), [('e', ts)], inp('rest', 50))
            return 1, Seq()
        state = KNOWN[a]
        site = f'src/fileObject ({NAMES[state]} state)'
        for p in cx.run('file_idle', oscfg={'hook': router(script)}):
            if not p.done:
                if p.decided:
                    cx.bad(p, 'idle', site, f'starting or stepping an upload ends with {p.kind} {p.exc or p.o.why}')
                continue
            sec, cur = {}, None
            for e in p.events:
                if e[0] == 'mark' and e[1] != 'handler':
                    cur = e[1]
                elif e[0] == 'req' or e[0] == 'mark':
                    sec.setdefault(cur, []).append(e)
            if sec.get('step first'):
                cx.bad(p, 'idle', site, 'stepping without an upload contacts the device or calls the handler')
            cx.expect(p, 'idle', site, 'progress of a step without an upload', p.out('progress'), False)
            cx.expect(p, 'idle', site, 'state after a step without an upload', p.out('state', 1), state)
            beg = sec.get('begin', [])
            if state != 2:
                if beg or sec.get('step'):
                    cx.bad(p, 'idle', site, 'starting or stepping an upload contacts the device or calls the handler')
                cx.expect(p, 'idle', site, 'state after trying to start an upload', p.out('state', 2), state)
                cx.expect(p, 'idle', site, 'progress', p.out('progress', 1), False)
                cx.expect(p, 'idle', site, 'state after trying to step an upload', p.out('state', 3), state)
                continue
            rq = [e for e in beg if e[0] == 'req']
            if len(rq) != 1:
                cx.bad(p, 'begin', site, f'starting an upload sends {len(rq)} requests')
                continue
            check_request(cx, p, site, 'start of the upload', rq[0][2:], 0x4B, [0x37, ID], Seq([('e', 255)]))
            for f, (good,) in cx.cases(p, ceq(st, 0)):
                called = sum(1 for e in beg if e[0] == 'mark')
                if good:
                    if called:
                        cx.must(p, 'begin', site, 'the handler is called before the upload ended', False, f)
                    cx.expect(p, 'begin', site, 'state of a started upload', p.out('state', 2), 5, f)
                else:
                    if called != 1:
                        cx.must(p, 'begin', site, f'a refused start calls the handler {called} times', False, f)
                    cx.expect(p, 'begin', site, 'status given to the handler', p.out('status'), st, f)
                    cx.expect(p, 'begin', site, 'content given to the handler', p.out('content'), Seq(), f)
                    cx.expect(p, 'begin', site, 'state after a refused start', p.out('state', 2), 2, f)
                    cx.expect(p, 'begin', site, 'progress after a refused start', p.out('progress', 1), False, f)
                    if sec.get('step'):
                        cx.must(p, 'begin', site, 'stepping after a refused start contacts the device', False, f)

    def script(I, k, r):
        return (0, cat([('e', 2)])) if k == 0 else (0, cat(byt(u32('fileSize'), 4, I.facts), [('e', u8('transferSize'))]))
    for p in cx.run('file_again', oscfg={'hook': router(script)}):
        if not p.done:
            if p.decided:
                cx.bad(p, 'idle', 'src/fileObject (upload in progress state)', f'starting again ends with {p.kind} {p.exc or p.o.why}')
            continue
        i = p.events.index(('mark', 'begin'))
        j = p.events.index(('mark', 'begun'))
        if any(e[0] in ('req', 'mark') for e in p.events[i + 1:j]):
            cx.bad(p, 'idle', 'src/fileObject (upload in progress state)', 'starting an upload while one runs contacts the device or calls the handler')
        cx.expect(p, 'idle', 'src/fileObject (upload in progress state)', 'state', p.out('state', 1), 5)
