"""Abstract interpretation of DPIFaultManager, DPIFaultParameter, DPIFaultCode and DPIFaultObject over a scripted drive: queues of 0 to 10 faults with unknown detail values under every combination of options; requests, listener calls, values, texts (256 codes against the documented table) and the clear command."""
import json
from checks.util import *
from checks.c26 import same_formula, conv

PROBES = ['p_faults']
DIR = 'src/vendor/ra/powerFlex525'
CODES = [7, 8, 9, 604, 605, 606, 607, 608, 609, 610]
TABLE = {int(k): v for k, v in json.load(open(os.path.join(VERIF, 'checks', 'fault_table.json'))).items()}
USED = [4, 3, 13, 64, 5, 7, 12, 2, 63, 9]


def lit(s):
    return Seq([('e', b if b < 128 else b - 256) for b in s.encode('utf-8')])


def path_ids(q):
    """(class, instance, attribute) of a concrete 16-bit path"""
    b = [s[1] for s in q.segs if s[0] == 'e']
    if not all(isinstance(x, int) for x in b) or len(b) % 4:
        return None
    return tuple(b[i + 2] + 256 * b[i + 3] for i in range(0, len(b), 4))


def drive(codes):
    def script(I, k, req):
        ids = path_ids(req[2])
        f = I.facts
        if req[1] == GET_ONE and ids and ids[0] == 0x0f:
            n = ids[1]
            if n in CODES:
                i = CODES.index(n)
                return 0, cat(byt(codes[i] if i < len(codes) else 0, 2, f))
            return 0, cat(byt(u16(f'p{n}'), 2, f))
        return 0, Seq()
    return script


def check_clear(cx, p, site, r, cmd):
    check_request(cx, p, site, 'command', r, SET_ONE, [0x97, 0, 3], Seq([('e', cmd)]), rule='command')


def run(cx):
    site = f'{DIR}/DPIFaultManager.cpp (handleFaultParameters)'
    psite = f'{DIR}/DPIFaultParameter.cpp (DPIFaultParameter)'

    def one_run(p, ev, codes, clear, details, first=0):
        """events of one handleFaultParameters call"""
        n = min(len(codes), 10)
        seq = [e for e in ev if e[0] == 'req' or (e[0] == 'mark' and e[1] == 'fault')]
        pos = 0

        def take():
            nonlocal pos
            pos += 1
            return seq[pos - 1] if pos <= len(seq) else None
        for i in range(min(n + 1, 10)):
            e = take()
            if e is None or e[0] != 'req':
                cx.bad(p, 'queue', site, f'entry {i + 1} of the fault queue is not read')
                return
            check_request(cx, p, psite, f'code of entry {i + 1}', e[2:], GET_ONE, [0x0f, CODES[i], 1], Seq())
            if i >= n:
                break
            if details:
                want = {651 + i: 'volts', 641 + i: 'current', 631 + i: 'frequency'}
                for _ in range(3):
                    e = take()
                    if e is None or e[0] != 'req':
                        cx.bad(p, 'details', psite, f'details of entry {i + 1} are not all read')
                        return
                    ids = path_ids(e[4])
                    if ids is None or ids[0] != 0x0f or ids[1] not in want or ids[2:] != (1,):
                        cx.bad(p, 'details', psite, f'details of entry {i + 1} are read from {ids}')
                        return
                    want.pop(ids[1])
                    cx.expect(p, 'details', psite, 'service', e[3], GET_ONE)
            e = take()
            if e is None or e[0] != 'mark':
                cx.bad(p, 'listener', site, f'the fault of entry {i + 1} is not reported')
                return
            k = first + i
            t = TABLE[codes[i]]
            for a, v in (('number', i + 1), ('number2', i + 1), ('code', codes[i]), ('code2', codes[i]), ('ftype', t[0]), ('text', lit(t[1])), ('description', lit(t[2]))):
                cx.expect(p, 'report', site, f'{a} of fault {i + 1}', p.out(a, k), v)
            for a, par, div in (('volts', 651 + i, 1.0), ('current', 641 + i, 100.0), ('frequency', 631 + i, 100.0)):
                want = F('/', conv(u16(f'p{par}')), div) if details else 0.0
                got = p.out(a, k)
                cx.n['comparisons'] += 1
                if got is not None and not isinstance(got, Seq) and same_formula(conv(got), want):
                    cx.n['equal'] += 1
                else:
                    cx.n['comparisons'] -= 1
                    cx.expect(p, 'report', psite, f'{a} of fault {i + 1}', got, want)
        rest = seq[pos:]
        if any(e[0] == 'mark' for e in rest):
            cx.bad(p, 'listener', site, 'a fault is reported more than once or without being read')
            return
        cmds = [e for e in rest if e[0] == 'req']
        want = 1 if clear and n else 0
        if len(cmds) != want:
            cx.bad(p, 'clear', site, f'{len(cmds)} requests after the last of {n} faults instead of {want}')
            return
        cx.ok()
        if want:
            check_clear(cx, p, site, cmds[0][2:], 2)

    for pr, clear, details in (('faults_plain', 0, 0), ('faults_clear', 1, 0), ('faults_reset', 0, 0), ('faults_details', 0, 1), ('faults_all', 1, 1), ('faults_default', 1, 0)):
        for n in range(11) if cx.deep or pr == 'faults_all' else (0, 1, 3, 10):
            for p in cx.run(pr, oscfg={'hook': router(drive(USED[:n]))}):
                if not p.done:
                    if p.decided:
                        cx.bad(p, 'queue', site, f'handling {n} faults ends with {p.kind} {p.exc or p.o.why}')
                    continue
                one_run(p, p.events, USED[:n], clear, details)
    for p in cx.run('faults_no_listener', oscfg={'hook': router(drive(USED[:2]))}):
        if not p.done and p.decided:
            cx.bad(p, 'queue', site, f'handling faults without a listener ends with {p.kind} {p.exc or p.o.why}')
    # details and codes for an arbitrary code of the first entry
    for p in cx.run('faults_all', oscfg={'hook': router(lambda I, k, r: (0, cat(byt(0 if path_ids(r[2])[1] != 7 or r[1] != GET_ONE else u16('code'), 2, I.facts))) if path_ids(r[2])[0] == 0x0f else (0, Seq()))}):
        if p.kind in ('ub', 'terminate') or p.threw and not p.throws('std::runtime_error'):
            cx.bad(p, 'queue', site, f'a fault code ends with {p.kind} {p.exc or p.o.why}')
        if p.done and p.out('code') is not None:
            c = p.facts.const(u16('code'))
            if c in TABLE:
                cx.expect(p, 'report', site, 'text of the code', p.out('text'), lit(TABLE[c][1]))
    # two rounds
    def twice(I, k, req):
        done = sum(1 for e in I.events if e[0] == 'mark' and e[1] == 'handled')
        return drive([USED[0]] if done else USED[1:3])(I, k, req)
    for p in cx.run('faults_twice', oscfg={'hook': router(twice)}):
        if p.done:
            i = p.events.index(('mark', 'handled'))
            one_run(p, p.events[:i], USED[1:3], 1, 0)
            one_run(p, p.events[i + 1:], USED[:1], 1, 0, first=2)
    for p in cx.run('fault_command', oscfg={'hook': router(lambda I, k, r: (0, Seq()))}):
        s = f'{DIR}/DPIFaultManager.cpp (writeCommand)'
        if not p.done:
            if p.decided:
                cx.bad(p, 'command', s, f'a command ends with {p.kind} {p.exc or p.o.why}')
            continue
        rs = reqs(p)
        if len(rs) != 1:
            cx.bad(p, 'command', s, f'a command sends {len(rs)} requests')
            continue
        check_clear(cx, p, s, rs[0], u8('cmd'))
    s = f'{DIR}/DPIFaultCode.h (fault table)'
    for p in cx.run('fault_text'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'table', s, f'{p.kind} {p.exc or p.o.why}')
            continue
        t = TABLE.get(p.out('code'))
        if t is not None:
            cx.expect(p, 'table', s, f'code {p.out("code")} is known', p.out('known'), True)
        if t is not None and p.out('known') is True:
            for k, v in (('ftype', t[0]), ('text', lit(t[1])), ('description', lit(t[2]))):
                cx.expect(p, 'table', s, f'{k} of code {p.out("code")}', p.out(k), v)
    s = f'{DIR}/DPIFaultObject.cpp (DPIFaultObject)'
    fl = u16('flags')

    def obj(I, k, req):
        return 0, cat(byt(u16('fc'), 2, I.facts), [('e', u8('port')), ('e', u8('obj'))], sub_seq('text', 16), byt(u64('timer'), 8, I.facts), byt(fl, 2, I.facts), inp('rest', 50))
    for p in cx.run('fault_object', oscfg={'hook': router(obj)}):
        if not p.done:
            if p.decided:
                cx.bad(p, 'object', s, f'reading a fault object ends with {p.kind} {p.exc or p.o.why}')
            continue
        check_request(cx, p, s, 'full information', reqs(p)[0], GET_ONE, [0x97, u16('id'), 0], Seq())
        for k, v in (('class', 0x97), ('instance', u16('id')), ('code', u16('fc')), ('port', u8('port')), ('object', u8('obj')), ('text', cat(sub_seq('text', 16))), ('timer', u64('timer')),
                     ('valid', ceq(bits(fl, 0, 1, p.facts, 16), 1)), ('real', ceq(bits(fl, 1, 1, p.facts, 16), 1))):
            cx.expect(p, 'object', s, k, p.out(k), v)
