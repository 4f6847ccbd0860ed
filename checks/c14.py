"""Abstract interpretation of every decoder and every operation that waits for a reply, on arbitrary bytes in place of each reply (one at a time and all together), datagram or decoder input: each abstract path has to return or to throw std::runtime_error or a class derived from it, and every container size on the way has to be one the container accepts."""
from checks.anything import *
from checks import anything as A

PROBES = A.PROBES
OBL = ('allocation', 'assert', 'pure-virtual')


def see(cx, p, site, what):
    if not p.decided:
        return
    if p.done or p.throws('std::runtime_error'):
        for e in p.ev('after'):
            if p.facts.decide(ceq(e[3], 3)) is not False:
                cx.must(p, 'exception', site, f'{what}: an exception that is not a std::runtime_error', cne(e[3], 3))
        cx.ok()
    else:
        cx.bad(p, 'exception', site, f'{what}: ends with {p.kind} {p.exc or p.o.why}')


def run(cx):
    A.anything(cx, see, OBL)
