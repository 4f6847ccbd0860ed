"""Runs one property check: abstract paths of probe drivers, comparison with the specification, evidence, verdict."""
import gc, importlib, json, os, pickle, sys, time, traceback, warnings
from . import program
from .program import Broken, VERIF
from .interp import Interp, Frame
from .values import *


def byt(v, n, facts=None):
    """the n little-endian bytes of an unsigned value (mod 2^8n)"""
    f = facts or Facts()
    u = wrap(v, 8 * n, False, f)
    ps = bits_of(u, 8 * n, f)
    return [('e', bits_join(bits_take(ps, 8 * i, 8), f)) for i in range(n)]


def cat(*parts):
    """byte sequence from parts: lists of segments, Seq, Arr (whole), or (Arr, off, len)"""
    out = []
    for p in parts:
        if isinstance(p, Seq):
            out += list(p.segs)
        elif isinstance(p, Arr):
            out.append(('s', p, 0, length(p)))
        elif isinstance(p, tuple) and p and isinstance(p[0], Arr):
            out.append(('s', p[0], p[1], p[2]))
        elif isinstance(p, (bytes, bytearray)):
            out += [('e', b) for b in p]
        else:
            out += list(p)
    return Seq(out)


def U(name, w):
    return sym(name, 0, (1 << w) - 1)


def u8(n): return U(n, 8)
def u16(n): return U(n, 16)
def u32(n): return U(n, 32)
def u64(n): return U(n, 64)


def inp(name, maxlen=70000):
    return arr('in:' + name, 0, 255, maxlen)


def fix(name):
    return arr('fix:' + name, 0, 255, 2 ** 20)


def strg(name, maxlen=70000):
    return arr('str:' + name, -128, 127, maxlen)


def dec(a, off, n, facts=None, sg=False):
    """little-endian integer at offset off of array a"""
    f = facts or Facts()
    r = 0
    for i in range(n):
        r = add(r, scale(elem(a, facts_idx(add(off, i), f)), 1 << (8 * i)))
    r = norm(r, f)
    return wrap(r, 8 * n, sg, f)


def seq_align(a, b, facts):
    """True when two sequences are provably equal"""
    x, y = list(seq_norm(a.segs, facts).segs), list(seq_norm(b.segs, facts).segs)
    n = 0
    while x and y:
        n += 1
        if n > 5000:
            return False
        s, t = x[0], y[0]
        if s[0] == 'e' and t[0] == 'e':
            if not byte_same(s[1], t[1], facts):
                return False
            x.pop(0); y.pop(0)
            continue
        ls, lt = seglen(s), seglen(t)
        if facts.decide(ceq(ls, 0)) is True:
            x.pop(0); continue
        if facts.decide(ceq(lt, 0)) is True:
            y.pop(0); continue
        def pair_same(s, t, k):
            if s[0] == 's' and t[0] == 's':
                return rebase.get(s[1], s[1]) is rebase.get(t[1], t[1]) and facts.decide(ceq(s[2], t[2])) is True
            if s[0] == 'f' and t[0] == 'f':
                return val_same(s[1], t[1], facts)
            if s[0] == 'e' or t[0] == 'e':
                e, o = (s, t) if s[0] == 'e' else (t, s)
                v = o[1] if o[0] == 'f' else elem(o[1], facts_idx(o[2], facts))
                return byte_same(e[1], v, facts)
            return False
        if s[0] == 'e' or t[0] == 'e':
            if not pair_same(s, t, 1):
                return False
            for l, z, ln in ((x, s, ls), (y, t, lt)):
                l.pop(0)
                if z[0] != 'e':
                    if facts.decide(cle(1, ln)) is not True:
                        return False
                    l.insert(0, ('s', z[1], add(z[2], 1), sub(ln, 1)) if z[0] == 's' else ('f', z[1], sub(ln, 1)))
            continue
        if not pair_same(s, t, None):
            return False
        if facts.decide(ceq(ls, lt)) is True:
            x.pop(0); y.pop(0)
        elif facts.decide(cle(ls, lt)) is True:
            x.pop(0)
            y[0] = ('s', t[1], add(t[2], ls), sub(lt, ls)) if t[0] == 's' else ('f', t[1], sub(lt, ls))
        elif facts.decide(cle(lt, ls)) is True:
            y.pop(0)
            x[0] = ('s', s[1], add(s[2], lt), sub(ls, lt)) if s[0] == 's' else ('f', s[1], sub(ls, lt))
        else:
            return False
    for s in x + y:
        if facts.decide(ceq(seglen(s), 0)) is not True:
            return False
    return True


def byte_same(a, b, facts):
    """sequence elements: equal values, or the same byte seen with different signedness"""
    if val_same(a, b, facts):
        return True
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        (l, h), (m, n) = facts.rng(a), facts.rng(b)
        if min(l, m) < 0 and min(l, m) >= -128 and max(h, n) <= 255:
            return val_same(wrap(a, 8, False, facts), wrap(b, 8, False, facts), facts)
    return False


def val_same(a, b, facts):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, Cond) or isinstance(b, Cond):
        a = b2i(a) if isinstance(a, (bool, Cond)) else a
        b = b2i(b) if isinstance(b, (bool, Cond)) else b
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        if a == b:
            return True
        ca, cb = as_cond(a), as_cond(b)
        if ca is not None and cb is not None:
            for x in (True, False):
                f = facts.copy()
                if f.assume(ca if x else cnot(ca)) and f.decide(cb) is not x:
                    return False
            return True
        d = facts.simp(norm(sub(a, b), facts))
        if d == 0:
            return True
        if facts.decide(ceq(d, 0)) is True:
            return True
        a, b = facts.simp(norm(facts.simp(a), facts)), facts.simp(norm(facts.simp(b), facts))
        return a == b or congr(a, facts) == congr(b, facts)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_align(a, b, facts)
    if isinstance(a, Dur) and isinstance(b, Dur):
        return val_same(a.n, b.n, facts)
    if isinstance(a, (F, float)) and isinstance(b, (F, float)):
        return a == b
    return a is b


def congr(v, facts):
    """low slices of sums in the normal form of modular arithmetic"""
    if isinstance(v, int):
        return v
    out = v.c
    for a, k in v.t:
        x = A(a)
        if a.kind == 'sl' and a.args[1] == 0 and isinstance(a.args[0], Lin):
            s = a.args[0]
            if not (len(s.t) == 1 and s.c == 0 and s.t[0][1] == 1):
                x = modw(s, a.args[2], facts)
        out = add(out, scale(x, k))
    return out


def as_cond(v):
    if v in (0, 1):
        return bool(v)
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and (v.t[0][0].kind == 'ite' or v.t[0][0].kind.startswith('p:')):
        return i2b(v)
    return None


def concrete(env, v):
    if isinstance(v, Seq):
        return env.segs(v.segs)
    if isinstance(v, Dur):
        return env.scalar(v.n)
    return env.scalar(v)


def differs(x, y):
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, list) or isinstance(y, list):
            return True
        if x != x or y != y:
            return False
        if abs(x) == INF or abs(y) == INF:
            return False
        return abs(x - y) > 1e-3 * max(1.0, abs(x), abs(y))
    if isinstance(x, list) and isinstance(y, list) and x != y and len(x) == len(y):
        return any(differs(a, b) and not (isinstance(a, int) and isinstance(b, int) and -128 <= a <= 255 and -128 <= b <= 255 and (a - b) % 256 == 0) for a, b in zip(x, y))
    return x != y


def show(v, n=40):
    if isinstance(v, list):
        if len(v) > n:
            return '[' + ' '.join(map(str, v[:n])) + f' ... {len(v)} elements]'
        return '[' + ' '.join(map(str, v)) + ']'
    return str(v)


def env_text(env, limit=24):
    out, arrs = [], {}
    for k, v in env.v.items():
        if k[0] == 'a' and k[1].kind == 'sym':
            out.append(f'{k[1].args[0]}={v}')
        elif k[0] == 'l':
            out.append(f'len({k[1]!r})={v}')
        elif k[0] == 'e':
            arrs.setdefault(repr(k[1]), {})[k[2]] = v
        elif k[0] == 'f':
            out.append(f'{k[1]}={v}')
    for n, d in arrs.items():
        out.append(f'{n}: ' + ' '.join(f'[{i}]={d[i]}' for i in sorted(d)[:16]))
    return out[:limit]


class Path:
    """one abstract path with its events split up"""

    def __init__(self, cx, o, probe):
        self.cx, self.o, self.probe = cx, o, probe
        self.kind, self.exc, self.facts, self.val = o.kind, o.exc, o.facts, o.val
        self.events = o.events
        self.outs = {}
        for e in o.events:
            if e[0] == 'out':
                self.outs.setdefault(e[1], []).append(e[2])
        self.marks = [e[1] for e in o.events if e[0] == 'mark']

    def out(self, tag, i=0):
        l = self.outs.get(tag)
        return l[i] if l is not None and len(l) > i else None

    def sys(self, *names):
        return [e[1:] for e in self.events if e[0] == 'sys' and (not names or e[1] in names)]

    def ev(self, *kinds):
        return [e for e in self.events if e[0] in kinds]

    @property
    def done(self):
        return self.kind == 'return'

    @property
    def threw(self):
        return self.kind == 'throw'

    def throws(self, base):
        return self.kind == 'throw' and self.cx.derives(self.exc, base)

    @property
    def decided(self):
        return self.kind in ('return', 'throw', 'terminate', 'ub')


warnings.simplefilter('ignore', DeprecationWarning)
JOBS = int(os.environ.get('EIP_JOBS', 0)) or min(8, os.cpu_count() or 1)
PARTS = ('viol', 'undec', 'n', 'fns', 'samples', 'stdfn', 'sites', 'lines')


class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = {}
        self.undec = {}
        self.n = {'paths': 0, 'obligations': 0, 'discharged': 0, 'comparisons': 0, 'equal': 0, 'undecided_paths': 0, 'cut_paths': 0, 'rules': 0}
        self.fns = set()
        self.samples = []
        self.stdfn = set()
        self.t0 = time.time()
        self.P = None
        self.sites = set()
        self.lines = []
        self.kids, self.order = [], []
        self.only = self.force = None

    def off(self, rule):
        """rules of another property's check that this run leaves to that check"""
        return self.only is not None and rule not in self.only

    def part(self, run, *rules, obls=None):
        """the rules named of another check, in a child process; obls: the obligations to judge on its paths instead of its own"""
        def go():
            self.only = set(rules)
            self.force = obls
            run(self)
            self.join()
        self.par(go)

    @property
    def deep(self):
        return self.tier == 'thorough'

    def load(self, probes=()):
        self.P = program.load(probes)
        self.probes = {}
        for r in self.P.fn.values():
            if r.q.startswith('probe::') and r.id in self.P.body:
                self.probes[r.q[7:]] = r.id

    def derives(self, a, b):
        return Interp.derives(self.I0, a, b)

    def interp(self):
        I = Interp(self.P, self.seed)
        I.oscfg = {}
        self.I0 = I
        return I

    # ---- running
    def run(self, name, setup=None, env=None, maxpaths=None, obls=(), oscfg=None, tune=None):
        """all abstract paths of probe `name`"""
        if name not in self.probes:
            raise Broken(f'probe {name} not found')
        I = self.interp()
        if oscfg:
            I.oscfg.update(oscfg)
        if tune:
            tune(I)

        def entry(I):
            if env:
                I.env.update(env() if callable(env) else env)
            if setup:
                setup(I)
            return I.call(self.probes[name], None, [])
        outs = I.explore(entry, maxpaths)
        return self.collect(I, outs, name, obls)

    def run_entry(self, name, entry, maxpaths=None, obls=(), oscfg=None, tune=None):
        I = self.interp()
        if oscfg:
            I.oscfg.update(oscfg)
        if tune:
            tune(I)
        return self.collect(I, I.explore(entry, maxpaths), name, obls)

    def collect(self, I, outs, name, obls):
        obls = obls if self.force is None else self.force
        self.fns |= {self.P.fn[f].q for f in I.fn_seen if f in self.P.fn and not self.P.fn[f].q.startswith('probe::')}
        self.stdfn |= I.std_seen
        self.n['paths'] += len(outs)
        ps = [Path(self, o, name) for o in outs]
        for p in ps:
            if p.kind == 'undecided':
                self.n['undecided_paths'] += 1
                self.note(f'{name}: {p.o.why} at {p.o.site}')
            if p.kind == 'cut':
                self.n['cut_paths'] += 1
        if len(self.samples) < 8 and ps:
            p = ps[min(len(ps) - 1, 1)]
            self.samples.append({'probe': name, 'outcome': p.kind + (' ' + (p.exc or '') if p.threw else ''),
                                 'facts': [repr(c)[:160] for c in p.facts.all[:6]],
                                 'path': [f'{program.relfile(f)}:{l} {"true" if r else "false"}' for f, l, r in p.o.trace[:8]]})
        for (k, site), c in I.obl_count.items():
            if k in obls or obls == 'all':
                self.n['obligations'] += c
                self.sites.add((k, site))
        if 'uninit' in obls:
            self.n['obligations'] += I.nread
            self.sites |= {('read in', self.P.fn[f].q) for f in I.fn_seen if f in self.P.fn}
        if obls:
            for p in ps:
                for ob in p.o.obls:
                    if obls != 'all' and ob.kind not in obls:
                        continue
                    self.judge_obl(p, ob)
        return ps

    def judge_obl(self, p, ob):
        if ob.site.startswith('probes/'):
            self.note(f'obligation in probe {ob.site}: {ob.msg}')
            return
        key = f'{ob.kind}@{fn_of(ob.site)}'
        if key in self.viol:
            return
        cond = ob.cond
        g = True if cond is False else cnot(cond)
        env = find_env(ob.facts, goal_cond=g, tries=60 if self.deep else 30)
        if env is None:
            self.note(f'{ob.kind} at {ob.site}: {ob.msg} (no distinguishing point found)')
            return
        self.violation(ob.kind, ob.site, ob.msg, p, env, key=key, extra=ob.trace)

    def note(self, s):
        self.undec[s] = self.undec.get(s, 0) + 1

    # ---- verdicts
    def violation(self, rule, site, msg, p=None, env=None, key=None, extra=None):
        if self.off(rule):
            return
        key = key or f'{rule}@{site}'
        if key in self.viol:
            self.viol[key]['count'] += 1
            return
        v = {'rule': rule, 'site': site, 'message': msg, 'key': key, 'count': 1}
        if p is not None:
            v['probe'] = p.probe
            v['outcome'] = p.kind + (' ' + p.exc if p.exc else '') + (' ' + p.o.why if p.o.why else '')
            v['path'] = [f'{program.relfile(f)}:{l} {"true" if r else "false"}' for f, l, r in p.o.trace]
        if extra:
            v['callstack'] = extra
        if env is not None:
            v['witness'] = env_text(env)
        self.viol[key] = v

    def feasible(self, p, extra=None):
        """a concretisation point of the path (None when none is found)"""
        return find_env(p.facts.all, goal_cond=extra, tries=40)

    def bad(self, p, rule, site, msg, key=None):
        """the path itself is a violation, provided it is feasible"""
        if self.off(rule):
            return
        k = key or f'{rule}@{site}'
        if k in self.viol:
            return
        self.n['comparisons'] += 1
        if p.kind == 'undecided':
            self.note(f'{rule} at {site}: the path was not followed to its end')
            return
        env = self.feasible(p)
        if env is None:
            self.note(f'{rule} at {site}: path not confirmed feasible')
            return
        self.violation(rule, site, msg, p, env, key=k)

    def ok(self, n=1):
        self.n['comparisons'] += n
        self.n['equal'] += n

    def expect(self, p, rule, site, what, actual, expected, facts=None, key=None):
        """actual must equal expected on every concretisation of the path"""
        if self.off(rule):
            return True
        f = facts or p.facts
        self.n['comparisons'] += 1
        if actual is UNINIT:
            env = find_env(f.all)
            if env is not None:
                self.violation(rule, site, f'{what}: never assigned', p, env, key=key)
            return False
        if actual is None:
            if not p.decided:
                self.note(f'{rule} at {site}: {what}: the path was not followed so far')
                return False
            env = find_env(f.all)
            if env is not None:
                self.violation(rule, site, f'{what}: missing', p, env, key=key)
            return False
        try:
            if val_same(actual, expected, f):
                self.n['equal'] += 1
                return True
        except Exception as e:
            self.note(f'{rule} at {site}: {what}: {type(e).__name__} {e}')
            return False
        if (key or f'{rule}@{site}') in self.viol:
            return False
        if 'str:fmt:' in repr(actual) and 'str:fmt:' not in repr(expected):
            self.note(f'{rule} at {site}: {what}: contains text whose formatting is not modelled')
            return False
        res = {}

        def goal(env):
            a, b = concrete(env, actual), concrete(env, expected)
            if differs(a, b):
                res['a'], res['b'] = a, b
                return True
            return False
        try:
            env = find_env(f.all, goal=goal, tries=60)
        except Exception as e:
            self.note(f'{rule} at {site}: {what}: {type(e).__name__} {e}')
            return False
        if env is None:
            self.note(f'{rule} at {site}: {what}: not proved equal, not refuted: {str(actual)[:120]} vs {str(expected)[:120]}')
            return False
        self.violation(rule, site, f'{what}: {show(res["a"])} instead of {show(res["b"])}', p, env, key=key)
        return False

    def must(self, p, rule, site, msg, cond, facts=None, key=None):
        """cond must hold on every concretisation of the path"""
        f = facts or p.facts
        if self.off(rule):
            return True
        self.n['comparisons'] += 1
        if isinstance(cond, (int, Lin)) and not isinstance(cond, bool):
            cond = i2b(cond)
        d = f.decide(cond)
        if d is True:
            self.n['equal'] += 1
            return True
        if (key or f'{rule}@{site}') in self.viol:
            return False
        if cond is False and p.kind == 'undecided':
            self.note(f'{rule} at {site}: the path was not followed to its end')
            return False
        env = find_env(f.all, goal_cond=cnot(cond), tries=60)
        if env is None:
            self.note(f'{rule} at {site}: {msg}: not decided')
            return False
        self.violation(rule, site, msg, p, env, key=key)
        return False

    def cases(self, p, *conds):
        """split the path's facts by the conditions; yields (facts, [bool...]) for the non-contradictory cases"""
        def go(f, i, acc):
            if i == len(conds):
                yield f, acc
                return
            d = f.decide(conds[i])
            if d is not None:
                yield from go(f, i + 1, acc + [d])
                return
            for v in (True, False):
                g = f.copy()
                if g.assume(conds[i] if v else cnot(conds[i])):
                    yield from go(g, i + 1, acc + [v])
        yield from go(p.facts, 0, [])

    # ---- independent parts in child processes
    def par(self, fn, *args, **kw):
        """run fn(...) in a forked child (its view of everything is the state at this call); results are merged by join()"""
        while len(self.kids) >= JOBS:
            self.reap(self.kids[0])
        fd = os.memfd_create('part')
        sys.stdout.flush()
        gc.freeze()
        pid = os.fork()
        if pid:
            k = [pid, fd]
            self.kids.append(k)
            self.order.append(k)
            return
        rc = 1
        try:
            self.kids, self.order = [], []
            self.viol, self.undec, self.samples, self.lines = {}, {}, [], []
            self.fns, self.stdfn, self.sites = set(), set(), set()
            self.n = dict.fromkeys(self.n, 0)
            out = None
            try:
                t = time.time()
                fn(*args, **kw)
                if os.environ.get('EIP_TIMES'):
                    print(f'part {time.time() - t:.1f}s {self.n["paths"]} paths', *[getattr(a, 'name', a) for a in args if not callable(a) and a is not self], file=sys.stderr)
            except Broken as e:
                out = ('broken', str(e))
            except BaseException:
                out = ('broken', traceback.format_exc())
            out = out or ('ok', {k: getattr(self, k) for k in PARTS})
            with os.fdopen(fd, 'wb') as f:
                pickle.dump(out, f)
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)

    def reap(self, k):
        pid, st = os.waitpid(k[0], 0)
        self.kids.remove(k)
        if st:
            raise Broken(f'a part of the analysis ended with status {st}')

    def join(self):
        while self.kids:
            self.reap(self.kids[0])
        for k in self.order:
            with os.fdopen(k[1], 'rb') as f:
                f.seek(0)
                what, r = pickle.load(f)
            if what == 'broken':
                raise Broken(r)
            for key, v in r['viol'].items():
                if key in self.viol:
                    self.viol[key]['count'] += v['count']
                else:
                    self.viol[key] = v
            for key, v in r['undec'].items():
                self.undec[key] = self.undec.get(key, 0) + v
            for key, v in r['n'].items():
                self.n[key] += v
            for key in ('fns', 'stdfn', 'sites'):
                getattr(self, key).update(r[key])
            self.samples = (self.samples + r['samples'])[:8]
            self.lines += r['lines']
        self.order = []

    def rule_ok(self, n=1):
        self.n['rules'] += n


def fn_of(site):
    """function part of 'file:line (function)'"""
    i = site.find('(')
    return site[i + 1:-1] if i >= 0 else site.split(':')[0]


def known(pid):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: '):
                d = l[9:].split(' ', 2)
                if d[0] == 'property=' + pid:
                    out.append((d[1][4:], d[2]))
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cx = Context(pid, tier, seed)
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        cx.load(getattr(mod, 'PROBES', ()))
        mod.run(cx)
        cx.join()
    except Broken as e:
        print(f'{pid}: analysis could not run: {e}')
        return 2
    finding = {k: w for k, w in known(pid)}
    real = [v for k, v in cx.viol.items() if k not in finding]
    for k, w in finding.items():
        if k in cx.viol:
            print(f'KNOWN-FINDING: property={pid} {w}')
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov = {'explanation': mod.__doc__.strip() if mod.__doc__ else '',
           'functions_analysed': len(cx.fns), 'functions': sorted(cx.fns),
           'abstract_paths': cx.n['paths'], 'undecided_paths': cx.n['undecided_paths'], 'cut_paths': cx.n['cut_paths'],
           'obligations_checked': cx.n['obligations'], 'obligation_sites': len(cx.sites),
           'spec_comparisons': cx.n['comparisons'], 'spec_comparisons_proved': cx.n['equal'],
           'structural_rule_instances': cx.n['rules'],
           'library_models_used': sorted(cx.stdfn),
           'translation_units': [program.relfile(u) for u in cx.P.units],
           'undecided': [f'{k} (x{n})' for k, n in sorted(cx.undec.items())][:200],
           'samples': cx.samples or [{'rule': l} for l in cx.lines[:8]] or [{'note': 'structural rules only'}]}
    cov.update(getattr(cx, 'extra', {}))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['models of the C++ library and operating-system calls in eip/stdmodel.py and eip/sysmodel.py',
                          'clang 18 front end (Linux configuration)'] + list(getattr(mod, 'ASSUMES', [])),
          'wall_s': round(time.time() - cx.t0, 2), 'violations': len(real)}
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {len(cx.fns)} functions, {cx.n["paths"]} abstract paths ({cx.n["undecided_paths"]} undecided, {cx.n["cut_paths"]} cut), '
          f'{cx.n["obligations"]} obligations at {len(cx.sites)} sites, {cx.n["equal"]}/{cx.n["comparisons"]} comparisons proved, '
          f'{cx.n["rules"]} rule instances, {len(cx.undec)} undecided notes, {time.time() - cx.t0:.1f}s')
    if '-v' in argv:
        for k, n in sorted(cx.undec.items()):
            print('   undecided:', k, f'x{n}')
    if real:
        r = os.path.join(d, pid + '.violation.json')
        with open(r, 'w') as f:
            json.dump(real, f, indent=1, default=str)
        for v in real[:40]:
            print(f'  {v["rule"]}: {v["site"]}: {v["message"]}')
            if v.get('probe'):
                print(f'      on {v["probe"]}; {v.get("outcome")}')
            if v.get('witness'):
                print('      e.g. ' + '; '.join(v['witness'])[:400])
        print(f'VIOLATION property={pid} replay={r}')
        return 1
    r = os.path.join(d, pid + '.violation.json')
    if os.path.exists(r):
        os.unlink(r)
    return 0


def guarded(rc):
    try:
        rc.append(main(sys.argv[1:]))
    except Broken as e:
        print('broken:', e)
        rc.append(2)
    except BaseException:
        traceback.print_exc()
        rc.append(2)


if __name__ == '__main__':
    import threading
    sys.path.insert(0, VERIF)
    rc = []
    t = threading.Thread(target=guarded, args=(rc,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
