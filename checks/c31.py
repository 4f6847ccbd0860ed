"""Abstract interpretation with an explicit 'not yet assigned' value in every cell. Each library class is constructed with each of its constructors and every scalar the object owns (members, members of members, array elements, durations) is looked up in the abstract object: one that may still be unassigned is reported with its class and constructor. All reads of locals, members, buffers and out-parameters on the paths of the decoders, request builders, sockets, sessions, I/O, object and vendor probes are obligations that the cell read has been assigned."""
from checks.anything import *
from checks import anything as A
from checks.util import Peer
import importlib

# the scenarios of these checks are run again for what they read
QUICK = ['c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c11', 'c16', 'c17', 'c18', 'c23', 'c24', 'c25', 'c26', 'c27', 'c28', 'c29', 'c30', 'c32']
MORE = ['c09', 'c12', 'c13', 'c15', 'c19', 'c20', 'c21', 'c22']
PROBES = sorted(set(A.PROBES + ['p_ctors', 'p_values', 'p_connreq', 'p_sockets', 'p_session', 'p_logger', 'p_param', 'p_file', 'p_faults', 'p_discovery', 'p_io']))
OBL = ('uninit',)


def unset(I, loc, name, seen):
    """names of the scalars owned by an object that have no value"""
    out = []

    def walk(v, nm):
        if v is UNINIT:
            out.append(nm)
        elif isinstance(v, Dur):
            if v.n is UNINIT:
                out.append(nm)
        elif isinstance(v, Obj):
            if id(v) in seen:
                return
            seen.add(id(v))
            for k, c in v.f.items():
                walk(c.v if isinstance(c, Cell) else c, f'{nm}.{k.split(".")[-1]}' if nm else k.split('::')[-1])
        elif isinstance(v, Seq):
            for s in v.segs:
                if s[0] == 'e':
                    walk(s[1].v if isinstance(s[1], Cell) else s[1], nm + '[]')
                elif s[0] == 'f' and I.facts.decide(cle(s[2], 0)) is not True:
                    walk(s[1], nm + '[]')
        elif isinstance(v, TupV):
            for c in v.cells:
                walk(c.v, nm)
        elif isinstance(v, Opt) and v.c is not None:
            walk(v.c.v, nm)
        elif isinstance(v, MapV):
            for n in v.nodes:
                walk(n, nm + '[]')
        elif isinstance(v, UP) and v.loc is not None:
            walk(v.loc if isinstance(v.loc, Obj) else getattr(v.loc, 'v', None), nm)
    walk(loc if isinstance(loc, Obj) else loc.get(), name)
    return out


def constructors(cx, probe, answer=None, incoming=None, names=None, logged=False, **kw):
    count = [0]

    def hook(I, name, a, ref):
        if name == 'inspect':
            mark = [e[1] for e in I.events if e[0] == 'mark'][-1]
            I.events.append(('looked', mark, tuple(unset(I, a[0], '', set()))))
            return None
        if answer:
            return router(answer)(I, name, a, ref)
    osc = dict(incoming or {}, hook=hook)
    def tune(I):
        short(cx)(I)
        I.log_noop = not logged
    for p in cx.run(probe, oscfg=osc, obls=OBL, tune=tune, **kw):
        for e in p.ev('looked'):
            count[0] += 1
            names.add(e[1])
            if e[2]:
                for m in e[2]:
                    cx.bad(p, 'member', e[1], f'{m} has no value after construction')
            else:
                cx.ok()
    if not count[0]:
        cx.note(f'{probe}: no object inspected')


def see(cx, p, site, what):
    if p.decided:
        cx.ok()


def built(cx):
    names = set()

    def any_answer(I, k, req):
        if k == 0 and I.branch(ceq(u8('general'), 0)):
            return 0, cat(inp('any', 600))
        return u8('general') if k == 0 else u8(f'general{k}'), cat(inp(f'any{k}', 300))
    for pr in ('ctor_values', 'ctor_messages', 'ctor_services'):
        constructors(cx, pr, names=names)
    constructors(cx, 'ctor_logger', names=names, logged=True)
    for pr in ('ctor_identity', 'ctor_parameter', 'ctor_file', 'ctor_file_states', 'ctor_fault', 'ctor_fault_object'):
        constructors(cx, pr, any_answer, names=names, maxpaths=2000 if cx.deep else 300)
    for pr in ('ctor_udp', 'ctor_bound', 'ctor_tcp'):
        constructors(cx, pr, incoming={'ready': lambda I, k, a, t: list(a), 'so_error': lambda I, k: 0}, names=names)

    def registered(I, j, k):
        return cat(byt(0x65, 2, I.facts), byt(4, 2, I.facts), byt(77 + j, 4, I.facts), bytes(16), bytes([1, 0, 0, 0])) if k == 0 else None
    constructors(cx, 'ctor_session', incoming=Peer(registered).cfg(), names=names)
    cx.extra = {"constructors inspected": sorted(names)}


def run(cx):
    built(cx)
    for m in QUICK + (MORE if cx.deep else []):
        cx.part(importlib.import_module('checks.' + m).run, 'uninit', obls=OBL)
    A.anything(cx, see, OBL)
