"""Operations that read replies, with their shortest complete replies; the reply of one request is cut, refused or replaced, and the rest of the path is judged."""
from checks.util import *
from checks.iomodel import scenario, judge, Conn, Data, Stray, Raw, arrive, wait, granted, flat, CM, IO, P2P, VARIABLE
from checks import c25
from checks.c25 import attributes, check_typed, DESC, ds, lps
from checks.c27 import path_ids, CODES, USED
from checks.c32 import encode, attrs

RA = 'src/vendor/ra/powerFlex525'
PROBES = ['p_replies', 'p_param', 'p_discovery', 'p_faults', 'p_file', 'p_connreq', 'p_io']


def asked(I):
    return next(e[2] for e in I.events if e[0] == 'out' and e[1] == 'asked')


def par(I, k, req):
    f = I.facts
    if k == 0:
        return 0, cat([('e', ds)])
    if k > 1 and 'update' in [e[1] for e in I.events if e[0] == 'mark'] and path_ids16(req[2], f)[-1] == 1:
        return 0, cat(sub_seq('new', ds))
    if k > 1:
        return 0, cat(byt(u16(f'attr{k + 11}'), 2, f))
    head = cat(sub_seq('val', ds), [('e', lps)], sub_seq('path', lps), byt(DESC, 2, f), [('e', u8('type'))])
    if not asked(I):
        return 0, head
    body = cat(head, [('e', u8('dsz2')), ('e', u8('nl'))], sub_seq('name', u8('nl')), [('e', u8('ul'))], sub_seq('units', u8('ul')), [('e', u8('hl'))], sub_seq('help', u8('hl')),
               sub_seq('min', ds), sub_seq('max', ds), sub_seq('def', ds))
    if I.branch(ceq(bits(DESC, 2, 1, f, 16), 1)):
        body = cat(body, sub_seq('ignored', 16), [('e', u8('prec'))])
    return 0, body


def path_ids16(q, f):
    """the ids of a 16-bit path whose class and attribute are known"""
    b = [s[1] for s in q.segs if s[0] == 'e']
    return [add(b[i + 2], scale(b[i + 3], 256)) for i in range(0, len(b) - 3, 4)] or [None]


def identity(I, k, req):
    return 0, encode(attrs(), I.facts)


def fault_obj(I, k, req):
    f = I.facts
    return 0, cat(byt(u16('fc'), 2, f), [('e', u8('port')), ('e', u8('obj'))], sub_seq('text', 16), byt(u64('timer'), 8, f), byt(u16('flags'), 2, f))


def faults(n):
    def s(I, k, req):
        f = I.facts
        ids = path_ids(req[2])
        if req[1] == GET_ONE and ids[0] == 0x0f:
            if ids[1] in CODES:
                i = CODES.index(ids[1])
                return 0, cat(byt(USED[i] if i < n else 0, 2, f))
            return 0, cat(byt(u16(f'p{ids[1]}'), 2, f))
        return 0, Seq()
    return s


def uploads(kinds=(0, 1, 2), size=4):
    """loaded; initiate; then transfers of the given packet types"""
    total = sum(size for k in kinds if k in (0, 1)) + (3 if kinds[-1] in (2, 4) else 0)

    def s(I, k, req):
        f = I.facts
        if req[1] == GET_ONE:
            return 0, Seq([('e', 2)])
        if req[1] == 0x4b:
            return 0, cat(byt(total, 4, f), [('e', size)])
        i = min(k - 2, len(kinds) - 1)
        t = kinds[i]
        return 0, cat([('e', i), ('e', t)], [('e', elem(fix(f'part{i}'), j)) for j in range(3 if t in (2, 4) else size)], [('e', u8('crc0')), ('e', u8('crc1'))] if t in (2, 4) else [])
    return s


def syncs(first=2):
    def s(I, k, req):
        return 0, Seq([('e', first if k == 0 else u8('second'))])
    return s


class Op:
    """name, probe, script, number of requests, site, judge(cx, p, mode, at) -> None; status/cut: requests that may be tampered with"""

    def __init__(self, name, probe, script, n, site, judge, cut=None, status=None, maxcut=60):
        self.name, self.probe, self.script, self.n, self.site, self.judge = name, probe, script, n, site, judge
        self.cut = range(n) if cut is None else cut
        self.status = range(n) if status is None else status


def after(p):
    i = next(i for i, e in enumerate(p.events) if e[0] == 'tamper')
    return p.events[i + 1:]


WHAT = {'cut': 'a reply that is too short', 'status': 'a reply with a failing status'}


def refused(op, cx, p, mode, at):
    """constructors and single-shot operations: std::runtime_error, and nothing else happens"""
    r = 'truncated' if mode == 'cut' else 'status'
    if p.done:
        cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} to request {at + 1} is accepted', key=f'{r}@{op.site}@{op.name}{at}')
    elif not p.throws('std::runtime_error'):
        cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} to request {at + 1} ends with {p.kind} {p.exc or p.o.why}')
    else:
        cx.ok()
    for e in after(p):
        if e[0] == 'req' and 'DPIFault' in op.site or e[0] == 'mark':
            cx.bad(p, r, op.site, f'{op.name}: after {WHAT[mode]} to request {at + 1} {"another request is sent" if e[0] == "req" else "its data is reported (" + e[1] + ")"}')


def unchanged_value(op, cx, p, mode, at):
    """updateValue"""
    r = 'truncated' if mode == 'cut' else 'status'
    if 'update' not in [e[1] for e in p.events[:p.events.index(next(e for e in p.events if e[0] == 'tamper'))] if e[0] == 'mark']:
        return refused(op, cx, p, mode, at)
    if not p.done:
        cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} ends with {p.kind} {p.exc or p.o.why}')
        return
    cx.expect(p, r, op.site, f'{WHAT[mode]}: the update succeeds', p.out('updated'), False)
    full = bool(p.out('asked'))
    for f, n in attributes(cx, p, full, op.site):
        pass
    check_typed(cx, p, 'get<udint>', c25.SRC if full else c25.SRC[:1], 4)


def unchanged_state(op, cx, p, mode, at):
    """second SyncState"""
    r = 'truncated' if mode == 'cut' else 'status'
    if at == 0:
        return refused(op, cx, p, mode, at)
    if not p.done:
        cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} ends with {p.kind} {p.exc or p.o.why}')
        return
    if 'accepted' in p.marks:
        cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} is accepted')
    cx.expect(p, r, op.site, f'{op.name}: state after {WHAT[mode]}', p.out('state', 1), p.out('state', 0))


def upload_over(op, cx, p, mode, at):
    """beginUpload and the transfers after it"""
    r = 'truncated' if mode == 'cut' else 'status'
    if at == 0:
        return refused(op, cx, p, mode, at)
    if not p.done and not (mode == 'cut' and at == 1 and p.throws('std::runtime_error')):
        cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} to request {at + 1} ends with {p.kind} {p.exc or p.o.why}')
        return
    ev = after(p)
    cut = next((i for i, e in enumerate(ev) if e[0] == 'mark' and e[1] in ('accepted', 'refused', 'begun')), len(ev))
    now, later = ev[:cut], ev[cut:]
    got = [(a, b) for a, b in zip(*[[e[2] for e in now if e[0] == 'out' and e[1] == t] for t in ('status', 'content')])]
    if mode == 'cut':
        if any(cx_const(p, s) == 0 for s, _ in got):
            cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} to request {at + 1} completes the upload')
        elif not got and not (later and later[0][1] == 'refused') and p.done:
            cx.bad(p, r, op.site, f'{op.name}: {WHAT[mode]} to request {at + 1} is accepted', key=f'{r}@{op.site}@{op.name}{at}')
        else:
            for s, c in got:
                cx.must(p, r, op.site, f'{op.name}: {WHAT[mode]} is reported as success', cne(s, 0))
        return
    if len(got) != 1:
        cx.bad(p, r, op.site, f'{op.name}: after {WHAT[mode]} to request {at + 1} the handler is called {len(got)} times')
        return
    cx.expect(p, r, op.site, f'{op.name}: status handed to the handler', got[0][0], u8('general'))
    cx.expect(p, r, op.site, f'{op.name}: content handed to the handler with {WHAT[mode]}', got[0][1], Seq())
    if any(e[0] == 'req' for e in later):
        cx.bad(p, r, op.site, f'{op.name}: the upload goes on after {WHAT[mode]} to request {at + 1}')
    if any(e[0] == 'mark' and e[1] == 'handler' for e in later):
        cx.bad(p, r, op.site, f'{op.name}: the handler is called again after {WHAT[mode]} to request {at + 1}')
    prog = [e[2] for e in now if e[0] == 'out' and e[1] == 'progress'] + [e[2] for e in later if e[0] == 'out' and e[1] == 'progress']
    for v in prog:
        cx.expect(p, r, op.site, f'{op.name}: progress after {WHAT[mode]}', v, False)


def cx_const(p, v):
    return p.facts.const(v)


PO = 'src/ParameterObject.cpp'
FO = 'src/fileObject'
OPS = [
    Op('reading a parameter', 'par_read', par, 6, PO + ' (ParameterObject)', refused),
    Op('updating a parameter', 'par_update', par, 7, PO + ' (updateValue)', unchanged_value),
    Op('reading the identity', 'id_read', identity, 1, 'src/IdentityObject.cpp (IdentityObject)', refused),
    Op('reading a fault object', 'fault_object', fault_obj, 1, RA + '/DPIFaultObject.cpp (DPIFaultObject)', refused),
    Op('reading the fault queue', 'faults_all', faults(2), 10, RA + '/DPIFaultParameter.cpp (DPIFaultParameter)', refused, cut=range(9)),
    Op('reading an empty fault queue', 'faults_all', faults(0), 1, RA + '/DPIFaultParameter.cpp (DPIFaultParameter)', refused),
    Op('reading a full fault queue', 'faults_clear', faults(10), 11, RA + '/DPIFaultManager.cpp (handleFaultParameters)', refused, cut=range(10)),
    Op('sending a fault command', 'fault_command', faults(0), 1, RA + '/DPIFaultManager.cpp (writeCommand)', refused, cut=()),
    Op('reading the file state', 'file_sync', syncs(), 1, FO + '/FileObjectState.cpp (SyncState)', refused),
    Op('reading the file state again', 'rp_resync', syncs(), 2, FO + '/FileObjectState.cpp (SyncState)', unchanged_state),
    Op('reading the state of an empty file again', 'rp_resync', syncs(1), 2, FO + '/FileObjectState.cpp (SyncState)', unchanged_state),
    Op('beginning an upload', 'rp_begin', uploads((4,)), 2, FO + '/FileObjectLoadedState.cpp (initiateUpload)', upload_over),
    Op('uploading a file in one packet', 'rp_upload', uploads((4,)), 3, FO + '/FileObjectUploadInProgressState.cpp (transfer)', upload_over),
    Op('uploading a file in three packets', 'rp_upload', uploads((0, 1, 2)), 5, FO + '/FileObjectUploadInProgressState.cpp (transfer)', upload_over),
]


def tampered(script, at, how):
    """script with the reply to request `at` replaced by how(I, status, data)"""
    def s(I, k, req):
        r = script(I, k, req)
        if k != at:
            return r
        st, d = how(I, r[0], r[1])
        I.events.append(('tamper', k))
        return (st, d) + tuple(r[2:])
    return s


def cut(I, st, d, name='cut'):
    n = sym(name, 0, 70000)
    I.assume(clt(n, seqlen(d)))
    return st, Seq(I.seq_split(list(d.segs), n)[0])


def failing(kind):
    def how(I, st, d):
        I.assume(cne(u8('general'), 0))
        return u8('general'), d if kind == 'valid' else Seq()
    return how


def arbitrary(I, st, d):
    return u8('general'), cat(inp('any', 600))


def quiet_log(I):
    """the routine that only logs a bad status"""
    I.override['eipScanner::logGeneralAndAdditionalStatus'] = lambda I, *a: None


def runs(cx, op, at, how, obls=(), tune=None, maxpaths=None):
    """paths on which the reply to request `at` was tampered with"""
    for p in cx.run(op.probe, oscfg={'hook': router(tampered(op.script, at, how))}, obls=obls, tune=tune, maxpaths=maxpaths):
        if any(e[0] == 'tamper' for e in p.events):
            yield p


def judged(cx, op, at, mode, how):
    n = 0
    for p in runs(cx, op, at, how):
        n += 1
        if p.decided:
            op.judge(op, cx, p, mode, at)
    if not n:
        cx.note(f'{op.name}: request {at + 1} never reached')


# ---- opening and closing connections
BOTH = dict(trig=1, t2oRT=0, t2oP=P2P | 6, o2tP=P2P | VARIABLE | 8, oapi=10000, tapi=10000, mult=0)


def opening(cx, mode, op, how=None, items=()):
    """a connection whose open reply is bad, with another one open and data for both"""
    r = 'truncated' if mode == 'cut' else 'status'
    site = CM + ' (forwardOpen)'
    a, b = Conn(0, t2o=5, o2t=6, items=list(items), **BOTH), Conn(1, t2o=8, o2t=9, **BOTH)

    def on_request(I, S, req):
        if req[1] not in (0x54, 0x5b) or S.opening is not a:
            return None
        st, d = 0, cat(granted(a, req[3], I.facts).segs[:-2], [('e', 3), ('e', 0)], sub_seq('app', 6))
        if how:
            st, d = how(I, st, d)
        I.events.append(('tamper', 0))
        return st, d, a.items
    ps = scenario(cx, [a, b], [('open', 1), (op, 0), arrive(Data(5, 'x', exact=8), Data(8, 'y', exact=8)), wait(1000), ('handle', 0), wait(12000), ('handle', 0)], on_request=on_request)
    for p in ps:
        if not any(e[0] == 'tamper' for e in p.events) or not p.decided:
            continue
        what = WHAT[mode]
        if p.kind != 'return':
            cx.bad(p, r, site, f'{op} with {what} ends with {p.kind} {p.exc or p.o.why}')
            continue
        ev = after(p)
        end = next(i for i, e in enumerate(ev) if e[0] == 'after')
        cx.expect(p, r, site, f'{op} with {what} (0 returns, 1 throws std::runtime_error)', ev[end][3], 1 if mode == 'cut' else 0)
        for e in ev[:end]:
            if e[0] == 'opened':
                cx.expect(p, r, site, f'{op} with {what} hands out a connection', e[2], False)
        cx.expect(p, r, site, f'the other connection is open after {op} with {what}', ev[end][4], True)
        got = [e[1] for e in ev if e[0] == 'received']
        if 0 in got:
            cx.bad(p, r, site, f'{op} with {what} registers a connection (data is delivered to it)')
        if 1 not in got:
            cx.bad(p, r, site, f'{op} with {what} stops the other connection')
        if any(e[1] == 0 for e in ev if e[0] in ('sending', 'closed')):
            cx.bad(p, r, site, f'{op} with {what} registers a connection (it is serviced)')


def closing(cx, how, op='close'):
    """a close request that the target answers with anything"""
    site = CM + ' (forwardClose)'
    a, b = Conn(0, t2o=5, o2t=6, **BOTH), Conn(1, t2o=8, o2t=9, **BOTH)

    def on_request(I, S, req):
        if req[1] != 0x4e:
            return None
        I.events.append(('tamper', 0))
        return how(I, 0, sub_seq('closed', 10))
    ps = scenario(cx, [a, b], [('open', 0), ('open', 1), (op, 0), arrive(Data(5, 'x', exact=8), Data(8, 'y', exact=8)), wait(1000), ('handle', 0), ('close', 1)], on_request=on_request)
    for p in ps:
        if not any(e[0] == 'tamper' for e in p.events) or not p.decided:
            continue
        if p.kind != 'return':
            cx.bad(p, 'status', site, f'closing with a failing status ends with {p.kind} {p.exc or p.o.why}')
            continue
        af = [e for e in p.events if e[0] == 'after']
        cx.expect(p, 'status', site, 'forwardClose with any status (0 returns)', af[2][3], 0)
        cx.expect(p, 'status', site, 'the closed connection is gone', af[2][6], True)
        cx.expect(p, 'status', site, 'open connections reported after closing one of two', af[2][4], True)
        cx.expect(p, 'status', site, 'open connections reported after closing both', af[-1][4], False)
        got = [e[1] for e in p.events if e[0] == 'received']
        if got != [1]:
            cx.bad(p, 'status', site, f'after closing the first of two connections data is delivered to {got}')
