"""Abstract interpretation of every life of every destructible object of the library with every call of its clean-up failing (close, shutdown, send, a peer that is gone, a missing or throwing log appender, during stack unwinding): an exception that leaves a destructor or a noexcept function, and any other termination, is an alarm; a structural rule over the syntax tree decides the destructors that no scenario reaches: whatever they call outside a catch-all must not throw."""
from checks.lifetime import *
from checks import lifetime

PROBES = lifetime.PROBES + ['p_logger', 'p_file', 'p_faults', 'p_param', 'p_frames', 'p_explicit', 'p_paths']


def run(cx):
    def visit(p, site=None):
        if p.kind in ('terminate',):
            why = p.o.why or ''
            cx.bad(p, 'terminates', f'{site or "src"} ({why.split(" leaves ")[-1]})', f'the program ends: {why}')
        else:
            cx.ok()
    lives(cx, visit, cx.deep)

    def logs():
        for pr in ('log_no_appender', 'log_throwing', 'log_unwinding', 'log_console', 'log_text', 'log_replaced', 'log_default'):
            for p in cx.run(pr, tune=lambda I: setattr(I, 'log_noop', False)):
                if p.decided:
                    visit(p, 'src/utils/Logger.cpp')
                    if pr in ('log_no_appender', 'log_throwing', 'log_unwinding') and p.kind != 'terminate' and ('alive' not in p.marks or not p.done):
                        cx.bad(p, 'escapes', 'src/utils/Logger.cpp (~Logger)', f'destroying a message ends with {p.kind} {p.exc or ""}')
    cx.par(logs)

    # objects whose requests fail or get arbitrary answers
    def answers(I, k, req):
        w = I.choose(3)
        if w == 0:
            I.throw_std('std::runtime_error', 'no answer')
        if w == 1:
            return u8(f'status{k}'), Seq()
        return 0, cat(inp(f'answer{k}', 200))

    def objects(probes):
        for pr in probes:
            for p in cx.run(pr, oscfg={'hook': router(answers)}, maxpaths=400 if not cx.deep else 4000):
                if p.decided:
                    visit(p)
    names = sorted(n for n in cx.probes if n.startswith(('file_', 'fault_', 'id_', 'pm_', 'param_')) and not n.endswith('_out'))
    for i in range(8):
        cx.par(objects, names[i::8])
    cx.join()
    for r in cx.P.fn.values():
        if not r.dt or not r.own or r.q.startswith('probe::'):
            continue
        cx.rule_ok()
        b = cx.P.body.get(r.id)
        if b is not None and r.q not in cx.fns and b.get('body') and b['body'].get('b'):
            cx.note(f'destructor {r.q} is not reached by any scenario')
