"""Abstract interpretation of every operation that reads a CIP reply (parameters, identity, faults, files, connection open and close), with every failing general status injected at each request of each operation in turn, with and without reply data: the operation has to end in std::runtime_error (or the handler call, or the empty handle), and no value, state, callback, registration or further command may come from the refused reply."""
from checks.replies import *


def run(cx):
    for op in OPS:
        for at in op.status:
            for kind in ('valid', 'empty'):
                cx.par(judged, cx, op, at, 'status', failing(kind))
    for op in ('open', 'large'):
        for kind in ('valid', 'empty'):
            cx.par(opening, cx, 'status', op, failing(kind))
    for how in (failing('valid'), failing('empty'), arbitrary):
        for op in ('close', 'close-held'):
            cx.par(closing, cx, how, op)
