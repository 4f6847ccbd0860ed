"""Abstract interpretation of Logger and ConsoleAppender for all 30 combinations of configured and message level with unknown text: how often, with which level and with which text the appender is called."""
from eip.check import *

PROBES = ['p_logger']


def run(cx):
    file = 'src/utils/Logger.cpp'
    quiet = lambda I: setattr(I, 'log_noop', False)
    a, b = cat(strg('a')), cat(strg('b'))

    def groups(p):
        out = [[]]
        for e in p.events:
            if e[0] == 'mark':
                out.append([])
            elif e[0] == 'out' and e[1] in ('level', 'text'):
                out[-1].append((e[1], e[2]))
        return out

    def one(p, g, on, level, text, what):
        n = sum(1 for k, _ in g if k == 'level')
        site = f'{file} (~Logger)'
        if n != (1 if on else 0):
            cx.bad(p, 'filter', site, f'{what}: a message of level {level} is handed over {n} times instead of {1 if on else 0}')
            return
        cx.ok()
        if on:
            d = dict(g)
            cx.expect(p, 'level', site, f'{what}: level handed to the appender', d.get('level'), level)
            cx.expect(p, 'text', site, f'{what}: text handed to the appender', d.get('text'), text)

    for p in cx.run('log_text', tune=quiet):
        if not p.done:
            if p.decided:
                cx.bad(p, 'filter', file, f'logging ends with {p.kind} {p.exc or p.o.why}')
            continue
        g, l = p.out('global'), p.out('message')
        on = g != 0 and l <= g
        gs = groups(p)
        for i, (t, w) in enumerate(((a, 'single text'), (cat(a, [('e', ord('-'))], b, [('e', ord('z'))]), 'several texts'), (Seq(), 'empty message'))):
            one(p, gs[i], on, l, t, w)
    for p in cx.run('log_replaced', tune=quiet):
        if not p.done:
            if p.decided:
                cx.bad(p, 'filter', file, f'logging ends with {p.kind} {p.exc or p.o.why}')
            continue
        gs = groups(p)
        if 'asked' in p.marks:
            cx.bad(p, 'filter', f'{file} (setAppender)', 'a replaced appender is still called')
            continue
        one(p, gs[0], True, 3, a, 'after replacing the appender')
        one(p, gs[1], False, 2, b, 'after lowering the level')
        one(p, gs[2], True, 2, b, 'after raising the level')
    for pr in ('log_console', 'log_off_level', 'log_default'):
        for p in cx.run(pr, tune=quiet):
            if p.done:
                cx.ok()
            elif p.decided:
                cx.bad(p, 'console', f'{file} (print)', f'printing a message ends with {p.kind} {p.exc or p.o.why}')
