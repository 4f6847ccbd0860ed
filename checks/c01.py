"""Abstract interpretation of every decoder and every operation that decodes peer data, on arbitrary bytes of every length: at each memory access on each abstract path (element access, iterator range, copy, insert, reinterpreted pointer) the index is proved to lie within the container it addresses, and at each allocation, shift and division the operand within its range."""
from checks.anything import *
from checks import anything as A

PROBES = A.PROBES
OBL = ('bounds', 'null', 'use-after-free', 'iterator', 'shift', 'division', 'allocation', 'uninit')


def see(cx, p, site, what):
    if p.decided and p.kind in ('ub', 'terminate'):
        cx.bad(p, 'ends', site, f'{what}: ends with {p.kind} {p.exc or p.o.why}')
    elif p.decided:
        cx.ok()


def run(cx):
    A.anything(cx, see, OBL)
