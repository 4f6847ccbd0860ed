"""Abstract interpretation of NetworkConnectionParametersBuilder in a bit-slice domain: from an arbitrary raw value, every setter with every argument changes exactly its own field and every getter reads exactly its own field, in both formats; every sequence of setters follows by induction."""
from eip.check import *

PROBES = ['p_values']
STD = {'owner': (15, 1), 'ctype': (13, 2), 'priority': (10, 2), 'stype': (9, 1), 'size': (0, 9)}
LRG = {'owner': (31, 1), 'ctype': (29, 2), 'priority': (26, 2), 'stype': (25, 1), 'size': (0, 16)}
ORDER = ['owner', 'ctype', 'priority', 'stype', 'size']


def bits(v, lo, w, f):
    return bits_join(bits_take(bits_of(v, 32, f), lo, w), f)


def run(cx):
    file = 'src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp'
    raw = u32('raw')

    def getters(p, lay, vals, i=0):
        for k in ORDER:
            cx.expect(p, 'getter', f'{file} (get {k})', f'{k} of the {"large" if lay is LRG else "standard"} format', p.out(k, i), vals[k])

    for p in cx.run('ncp_get'):
        lay = LRG if p.out('large') else STD
        cx.expect(p, 'raw', file, 'given raw value', p.out('value'), raw)
        getters(p, lay, {k: bits(raw, *lay[k], p.facts) for k in ORDER})
    for p in cx.run('ncp_default'):
        cx.expect(p, 'raw', file, 'default value', p.out('value', 0), 0)
        cx.expect(p, 'raw', file, 'given raw value', p.out('value', 1), raw)
        getters(p, STD, {k: bits(raw, *STD[k], p.facts) for k in ORDER}, 1)
    for p in cx.run('ncp_set'):
        if not p.done:
            if p.decided:
                cx.bad(p, 'setter', file, f'a setter ends with {p.kind} {p.exc or p.o.why}')
            continue
        lay = LRG if p.out('large') else STD
        k = ORDER[p.out('setter')]
        lo, w = lay[k]
        arg = p.out('arg')
        site = f'{file} (set {k})'
        cx.expect(p, 'chain', site, 'setter returns the builder itself', p.out('chained'), True)
        for f, (fits,) in cx.cases(p, cle(arg, (1 << w) - 1)):
            vals = {j: bits(raw, *lay[j], f) for j in ORDER}
            new = arg if fits else None
            for j in ORDER:
                if j != k:
                    cx.expect(p, 'disturb', site, f'{j} after setting {k}', p.out(j), vals[j], f)
                elif fits:
                    cx.expect(p, 'setter', site, f'{k} after setting it', p.out(k), arg, f)
            if fits:
                cx.expect(p, 'setter', site, f'value after setting {k}', p.out('value'), add(sub(raw, scale(vals[k], 1 << lo)), scale(arg, 1 << lo)), f)
    for p in cx.run('ncp_enums'):
        for i, v in enumerate((0, 1, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1)):
            cx.expect(p, 'codes', file.replace('.cpp', '.h'), f'enumerator {i}', p.out('enum', i), v)
        for i, v in enumerate((1 << 15, 0, 1 << 13, 2 << 13, 0, 1 << 10, 2 << 10, 3 << 10, 0, 1 << 9, 0, 1, 2, 3, 0, 1 << 4, 2 << 4, 0x80)):
            cx.expect(p, 'codes', 'src/cip/connectionManager/NetworkConnectionParams.h', f'constant {i}', p.out('const', i), v)
