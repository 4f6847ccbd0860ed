"""Abstract interpretation of the library with listeners that call back into it: every listener (receive, send, close, upload finished, new fault, begin-receive) runs every public operation and every pair of them (open, close, handle, replace listeners or data, start and continue uploads, replace itself), and every use of freed storage, invalidated iterator, null or destroyed function object on any path is an alarm; the observable events are replayed against the reference model of I/O connections."""
import itertools
from checks.iomodel import *
from checks.util import *
from checks.c27 import drive

PROBES = ['p_io', 'p_sockets', 'p_file', 'p_faults']
OBL = ('bounds', 'null', 'use-after-free', 'iterator', 'assert', 'pure-virtual', 'uninit')
RULES = {'outcome', 'ends', 'stale', 'registry', 'open', 'close', 'deliver', 'route', 'watchdog', 'produce', 'due'}
HOLD = ('handle', 0)


def run(cx):
    def conns():
        d = dict(trig=1, t2oRT=0, t2oP=P2P | 6, o2tP=P2P | VARIABLE | 4, oapi=10000, tapi=10000, mult=0)
        return [Conn(i, t2o=20 + i, o2t=5 + i, **d) for i in range(3)] + [Conn(3, t2o=21, o2t=9, **d)]

    # ---- begin-receive listeners that replace, remove or drop, or wait themselves
    def waits():
        def hook(I, name, a, ref):
            I.events.append(('ready', I.rd(a[0]), I.rd(a[1])))
        for pr in ('wait_replace', 'wait_remove', 'wait_drop', 'wait_nested'):
            cfg = {'hook': hook, 'now': lambda I, k: 0, 'ready': lambda I, k, allfds, tmo: list(allfds) if k < (4 if cx.deep else 3) and I.choose(2) else []}
            site = f'src/sockets/BaseSocket.cpp ({pr})'
            for p in cx.run(pr, oscfg=cfg, obls=OBL, tune=lambda I: setattr(I, 'UNROLL', 8)):
                if not p.decided:
                    continue
                if not p.done:
                    cx.bad(p, 'ends', site, f'a listener that changes its socket: {p.kind} {p.exc or p.o.why}')
                    continue
                cx.ok()
                ev = [e for e in p.events if e[0] == 'ready']
                if pr == 'wait_replace':
                    for e in ev:
                        cx.expect(p, 'listener', site, 'what the running listener owns', e[2], 7)
                    if [e[1] for e in ev] != [0] * bool(ev) + [1] * (len(ev) - 1):
                        cx.bad(p, 'listener', site, f'a replaced listener is still called: {[e[1] for e in ev]}')
                if pr == 'wait_remove' and len(ev) > 1:
                    cx.bad(p, 'listener', site, 'a removed listener is still called')

    # ---- end-of-upload handlers that synchronise, start and continue uploads
    def uploads():
        def script(I, k, r):
            f = I.facts
            if r[1] == GET_ONE:
                return 0, Seq([('e', 2)])
            if r[1] == 0x4B:
                if k < 8 and I.choose(2):
                    return 8, Seq()
                return 0, cat(byt(4, 4, f), [('e', 4)])
            num = flat(r[3], 1)[0]
            w = I.choose(5)
            if w == 0:
                return 0, cat([('e', num), ('e', 2)], [('s', fix('part'), 0, 4)], [('e', 0), ('e', 0)])
            if w == 1:
                return 0, cat([('e', num), ('e', 4)], [('s', fix('part'), 0, 3)], [('e', 0), ('e', 0)])
            if w == 2:
                return 0, cat([('e', bits_join(bits_take(bits_of(add(num, 1), 9, f), 0, 8), f)), ('e', 0)], [('s', fix('part'), 0, 4)])
            if w == 3:
                return 5, Seq()
            return 0, cat([('e', num), ('e', 0)], [('s', fix('part'), 0, 4)])
        for p in cx.run('file_inside', oscfg={'hook': router(script)}, obls=OBL, maxpaths=6000):
            site = 'src/fileObject (file_inside)'
            if not p.decided:
                continue
            if not p.done:
                cx.bad(p, 'ends', site, f'a handler that goes on with the file: {p.kind} {p.exc or p.o.why}')
                continue
            cx.ok()
            for v in p.outs.get('note', ()):
                cx.expect(p, 'listener', site, 'what the running handler owns', v, 7)

    # ---- fault listeners that replace themselves or handle the faults again
    def faults():
        for n in (1, 2, 3):
            codes = [u16(f'code{i}') for i in range(n)]

            def script(I, k, req):
                if k == 0:
                    for c in codes:
                        I.assume(cor(*[ceq(c, x) for x in (2, 13)]))
                return drive(codes)(I, k, req)
            for p in cx.run('faults_inside', oscfg={'hook': router(script)}, obls=OBL):
                site = 'src/vendor/ra/powerFlex525/DPIFaultManager.cpp (handleFaultParameters)'
                if not p.decided:
                    continue
                if not p.done:
                    cx.bad(p, 'ends', site, f'a listener that goes on with the faults: {p.kind} {p.exc or p.o.why}')
                    continue
                cx.ok()
                for v in p.outs.get('note', ()):
                    cx.expect(p, 'listener', site, 'what the running listener owns', v, 7)
    for part in (waits, uploads, faults):
        cx.par(part)

    tasks = []

    def go(script, nested):
        tasks.append((script, nested))

    def several(ts):
        for script, nested in ts:
            cs = conns()
            judge(cx, scenario(cx, cs, script, nested=nested, obls=OBL), cs, RULES)
    D = lambda: arrive(*[Data(20 + i, f'd{i}', exact=8) for i in range(3)], Data(20, 'e', exact=8))
    fixo = lambda i: output(i, cat((fix(f'o{i}'), 0, 4)))
    start = [('open', 0), ('open', 1), fixo(0), ('data', 0), fixo(1), ('data', 1)]
    ACT = {'open': [('open', 2)], 'open-same': [('open', 3)], 'close-self': [('close', 1)], 'close-other': [('close', 0)], 'close-last': [('close', 2)], 'close-held': [('close-held', 1)], 'handle': [HOLD],
           'reopen': [('close', 1), ('open', 3)], 'data': [output(1, cat((fix('n'), 0, 4))), ('data', 1)], 'listen': [('listen', 1)], 'mute': [('mute', 1)],
           'more': [arrive(Data(21, 'm', exact=8), Data(20, 'k', exact=8)), HOLD], 'late': [wait(30000), HOLD], 'later': [wait(41000), HOLD]}
    names = sorted(ACT)
    WHEN = {'received': [wait(9000), D(), HOLD], 'sending': [wait(10000), HOLD], 'closed': [wait(41000), HOLD]}
    tail = [wait(5000), D(), HOLD, wait(5000), HOLD]
    for ev, trig in WHEN.items():
        for three in (0, 1):
            s = start + ([('open', 2)] if three else []) + trig + tail
            for a in names:
                if three and a == 'open':
                    continue
                go(s, {(ev, 1): [ACT[a]]})
            pairs = list(itertools.product(names, repeat=2))
            if not cx.deep:
                pairs = [(a, b) for a, b in pairs if a in ('close-self', 'close-other', 'reopen', 'later', 'more') and b in ('open', 'open-same', 'handle', 'close-last', 'listen', 'mute', 'data')]
            for a, b in pairs:
                if three and 'open' in (a, b):
                    continue
                if not three and cx.deep is False and b == 'close-last':
                    continue
                go(s, {(ev, 1): [ACT[a] + ACT[b]]})
    # listeners of several connections, and listeners inside listeners
    for a, b in itertools.product(('close-other', 'close-self', 'handle', 'open', 'more', 'later'), repeat=2):
        for e1, e2 in itertools.product(WHEN, repeat=2):
            if not cx.deep and (e1 != e2 and 'closed' not in (e1, e2)):
                continue
            go(start + WHEN[e1] + WHEN[e2] + tail, {(e1, 0): [ACT[a]], (e2, 1): [ACT[b]]})
            go(start + WHEN[e1] + WHEN[e2] + tail, {(e1, 1): [ACT[a] + [HOLD]], (e2, 0): [ACT[b]]})
    for i in range(16):
        cx.par(several, tasks[i::16])
