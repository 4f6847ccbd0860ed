"""Parses /repo (and the probe drivers) with the extractor and merges the translation units into one program."""
import hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EIP_REPO', '/repo')
EXTRACT = os.path.join(VERIF, 'build', 'eip-extract')


class Broken(Exception):
    """the analysis itself cannot run (error exit, never a verdict)"""


class Type:
    __slots__ = ('s', 'k', 'w', 'sg', 'to', 'n', 'q', 'ta', 'own', 'c', 'sz', 'ps', 'bare')

    def __repr__(self):
        return self.s


class FnRef:
    __slots__ = ('id', 'q', 'n', 'r', 'ps', 'ne', 'rec', 'virt', 'pure', 'st', 'ct', 'dt', 'as_', 'lam', 'ov', 'ta', 'own', 'file', 'line', 'dfl', 'impl', 'del_', 'nr', 'cv', 'cm')


class Program:
    def __init__(self):
        self.types = {}
        self.fn = {}
        self.body = {}
        self.rec = {}
        self.enum = {}
        self.glob = {}
        self.units = []

    def t(self, s):
        return self.types.get(s)


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(d, f))
    return sorted(out)


FLAGS = ['-std=gnu++20', '-I' + os.path.join(REPO, 'src'), '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w', '-Wno-everything']


def probe_sources(names):
    return [os.path.join(VERIF, 'probes', n + '.cpp') for n in names]


def _extract(src, outdir):
    out = os.path.join(outdir, hashlib.sha1(src.encode()).hexdigest() + '.json')
    flags = FLAGS + ['-include', os.path.join(VERIF, 'tools/extract/shim.h'), '-I' + os.path.join(VERIF, 'probes')]
    p = subprocess.run([EXTRACT, src, REPO + '/src:' + VERIF + '/probes', out, '--'] + flags, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken(f'cannot parse {src}:\n{p.stderr[-3000:]}')
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return src, d


def load(probes=(), only=None):
    if not os.path.exists(EXTRACT):
        raise Broken('extractor not built: run setup.sh')
    srcs = sources() if only is None else only
    if not srcs:
        raise Broken('no sources')
    srcs = probe_sources(probes) + srcs
    P = Program()
    with tempfile.TemporaryDirectory(prefix='eipx') as td:
        with ThreadPoolExecutor(8) as ex:
            for src, d in ex.map(lambda s: _extract(s, td), srcs):
                merge(P, src, d)
    P.units = srcs
    link(P)
    return P


def merge(P, src, d):
    tl = []
    for t in d['types']:
        T = P.types.get(t['s'])
        new = T is None
        if new:
            T = Type()
            T.s = t['s']
            P.types[t['s']] = T
        tl.append(T)
    for t, T in zip(d['types'], tl):
        T.k = t.get('k')
        T.w = t.get('w')
        T.sg = bool(t.get('sg'))
        T.to = tl[t['to']] if 'to' in t and t['to'] >= 0 else None
        n = t.get('n')
        if n is None and hasattr(T, 'n'):
            n = T.n
        T.n = n
        T.q = t.get('q')
        T.ta = [tl[x['t']] if 't' in x else x.get('v') for x in t['ta']] if 'ta' in t else None
        T.own = bool(t.get('own'))
        T.c = bool(t.get('c'))
        if 'sz' in t or not hasattr(T, 'sz'):
            T.sz = t.get('sz')
        T.ps = [tl[x] for x in t['ps']] if 'ps' in t else None
    files = d['files']

    def fix(x):
        if isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    fix(y)
        else:
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    if k != 'l':
                        fix(v)
                elif k in ('t', 'at', 'ct', 'clt', 'rt') and isinstance(v, int):
                    x[k] = tl[v] if v >= 0 else None
    for i, r in d['fn'].items():
        o = P.fn.get(i)
        if o is not None:
            continue
        R = FnRef()
        R.id, R.q, R.n = i, r['q'], r['n']
        R.r = tl[r['r']]
        R.ps = [tl[x] for x in r['ps']]
        R.ne = bool(r.get('ne'))
        R.rec = tl[r['rec']] if 'rec' in r else None
        R.virt, R.pure, R.st = bool(r.get('virt')), bool(r.get('pure')), bool(r.get('st'))
        R.ct, R.dt, R.as_ = r.get('ct'), bool(r.get('dt')), r.get('as')
        R.lam, R.own, R.dfl, R.impl, R.del_ = bool(r.get('lam')), bool(r.get('own')), bool(r.get('dfl')), bool(r.get('impl')), bool(r.get('del'))
        R.nr, R.cv, R.cm = bool(r.get('nr')), bool(r.get('cv')), bool(r.get('cm'))
        R.ov = r.get('ov', [])
        R.ta = [tl[x['t']] if 't' in x else x.get('v') for x in r['ta']] if 'ta' in r else None
        l = r['l']
        R.file, R.line = (files[l[0]] if l[0] >= 0 else ''), l[1]
        P.fn[i] = R
    for i, b in d['body'].items():
        if i in P.body:
            continue
        l = b['l']
        b['file'], b['line'] = files[l[0]], l[1]
        b['id'] = i
        fix(b)
        P.body[i] = b
    for n, r in d['rec'].items():
        if n in P.rec:
            continue
        l = r['l']
        r['file'], r['line'] = (files[l[0]] if l[0] >= 0 else ''), l[1]
        r['bases'] = [tl[x] for x in r['bases']]
        fix(r['fields'])
        r['n'] = n
        P.rec[n] = r
    P.enum.update(d['enum'])
    for n, g in d['glob'].items():
        if n in P.glob and ('i' in P.glob[n] or 'i' not in g):
            continue
        l = g['l']
        g['file'], g['line'] = (files[l[0]] if l[0] >= 0 else ''), l[1]
        fix(g)
        P.glob[n] = g


def link(P):
    P.byq = {}
    for i, r in P.fn.items():
        P.byq.setdefault(r.q, []).append(r)
    # overridden methods, transitively
    P.over = {}

    def ovs(i):
        if i in P.over:
            return P.over[i]
        P.over[i] = set()
        s = set()
        for b in P.fn[i].ov:
            s.add(b)
            s |= ovs(b)
        P.over[i] = s
        return s
    for i in P.fn:
        ovs(i)


def relfile(f):
    for r in (REPO + '/', VERIF + '/'):
        if f.startswith(r):
            return f[len(r):]
    return f
