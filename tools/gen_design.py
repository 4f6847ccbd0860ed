#!/usr/bin/env python3
"""Writes section 2 and 4 of DESIGN.md from the checks' docstrings, TABLE below and /verif/seeded (if present)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id -> (oracle, bounds, why tests cannot, boundary / what is left out)
T = {
'C01': ("the abstract memory model: every container knows its symbolic length, every pointer its container",
        "inputs: none (arbitrary bytes of every length). Loops whose trip count is not decided by the path are followed for 3 undecided rounds, then the trace is cut (counted as `cut` in the evidence); byte loops over sequences are summarised, not unrolled",
        "a test feeds a handful of messages; the obligation is on all lengths and all contents",
        "reads of the operating system's own structures (sockaddr) are modelled, not analysed"),
'C02': ("table of the fields each reply must contain, as `Op` entries in `checks/replies.py`; a cut reply must end in std::runtime_error and leave the observable state as before",
        "one reply cut per run, at every position (symbolic); replies following the cut one are well-formed",
        "every cut position of every reply of every operation, with unknown contents",
        "transfers of an upload that are shorter than the transfer size are legal (C23); one malformed item drops its whole discovery datagram"),
'C03': ("CIP encoding table (width, order, prefix) as byte provenance", "none", "all values, prefixes and suffixes at once", "numeric meaning of the IEEE bit pattern is opaque: floats are moved bit by bit"),
'C04': ("24-byte header layout", "none (payload of unknown length up to 70000 bytes)", "lengths around 2^15 and 2^16 are never tested", ""),
'C05': ("item layout", "0-3 items packed, 0-4 (thorough 6) decoded item by item, any number for acceptance", "all types, lengths and contents", ""),
'C06': ("segment layout of CIP paths (8-bit 20/24/30, 16-bit 21/25/31) and the Yaskawa variant", "depth 1-3, both formats, decoding of up to four segments in any mixture", "all ids including 0, 255, 256, 65535", ""),
'C07': ("layout of an unconnected explicit request", "0-3 additional items", "all overloads x formats x depths with unknown data", ""),
'C08': ("layout of an explicit reply", "0-2 items (thorough 3), additional-status counts 0-3 and 255 word by word, the others by acceptance", "arbitrary bytes in every place", ""),
'C09': ("life-cycle automaton register -> exchanges -> unregister", "two exchanges, three fragments per read", "every failing call, fragmentation and reply", "command and context of a reply are not part of the statement (the library does not compare them)"),
'C10': ("outcome table per operation", "one failing reply per run (each request in turn)", "each of the 255 failing codes at each request", "IdentityObject etc. construct partially before throwing: not observable"),
'C11': ("table of system calls: error of the first failing call that is not retried", "up to 3 fragments, up to the tier's number of interruptions", "every call failing with every code", "EINTR on send and on the first connect call surface as errors (allowed by the statement)"),
'C12': ("typestate open/closed per descriptor over the modelled system calls; copyability traits evaluated by the type checker", "one failing call per run, and all calls failing from any call on", "exceptional edges of constructors", ""),
'C13': ("no exception leaves a destructor or a noexcept function; no terminate", "as C12; the structural rule covers destructors that no scenario reaches", "unwinding and lost peers", "memory exhaustion is outside"),
'C14': ("exception class hierarchy", "one or all replies arbitrary", "exception class for arbitrary bytes", "memory exhaustion by honest sizes is outside; allocations are bounded by 16-bit lengths"),
'C15': ("reference registry in `checks/iomodel.py`", "two connections, two managers, histories up to the tier's length (quick 4 steps)", "histories and id collisions", ""),
'C16': ("CIP layout of Forward Open / Large Forward Open / Forward Close", "series of three opens for serial numbers, the induction step for the counter", "every parameter unknown at once", "ids over program restarts are C35"),
'C17': ("reference producer", "two ticks (thorough 3) with unknown elapsed times", "every option combination and interval", "jitter in real time is C33"),
'C18': ("reference consumer", "two datagrams (thorough 3)", "every option combination and payload length", ""),
'C19': ("reference watchdog in unbounded integers", "three ticks", "every multiplier 0-7 and every 32-bit interval", "tolerance of the internal microsecond truncation: 1 us per tick"),
'C20': ("ownership and iterator validity of the abstract heap, plus the reference model for the observable part", "every operation and every ordered pair of operations in each listener, nested twice", "re-entrancy", "listeners that throw are covered where the statement mentions them only"),
'C21': ("reference model in which a stray datagram has no effect", "two stray datagrams between healthy ones", "arbitrary bytes and every truncation", "a socket error other than a time-out on one connection's socket is C11"),
'C22': ("call automaton of select", "0-4 sockets, tier's number of rounds, endless floods followed until 17 late rounds", "interruptions, floods, unrepresentable descriptors", "an early return with time left after ready rounds is not judged"),
'C23': ("transfer protocol", "five transfers, plus a long upload crossing transfer number 255/256", "sequences of transfer replies with unknown sizes", ""),
'C24': ("state table", "synchronise twice, then begin and step", "all 256 codes in all states", ""),
'C25': ("attribute table of the parameter object", "none", "all sizes, texts and descriptors", ""),
'C26': ("quotient of polynomials of the scaling formula", "none; algebra over the reals", "overflow and wrong attribute for all values", "rounding is C34"),
'C27': ("DPI parameter table and `checks/fault_table.json` (texts of the pinned commit)", "0-10 faults", "queue lengths x options", "a code unknown to the table throws (recorded, not judged)"),
'C28': ("truth table over levels", "none", "all 30 level pairs", ""),
'C29': ("laws of strict weak ordering", "none: relations of hosts and ports are enumerated", "laws quantify over triples", "a host that cannot be parsed gets 0.0.0.0 (recorded, not judged)"),
'C30': ("bit positions", "none", "every field in every raw value", ""),
'C31': ("explicit `unassigned` abstract value", "reads: the paths of all other probes; members: 70 constructors", "uninitialised members are invisible to most tests", "plain parameter structures with public members that the caller fills in are exempt from the constructor part"),
'C32': ("list-identity item layout", "four datagrams", "arbitrary replies", "discovery under an endless stream of replies never ends (recorded)"),
}
NA = {'C33': 'quantifies over real time and machine load; no static argument over the source bounds scheduling latency',
      'C34': 'exactness of IEEE rounding for all values needs bit-precise floating-point reasoning, which no abstract domain here decides (C26 decides the algebra)',
      'C35': 'quantifies over pairs of processes and the randomness of the operating system'}
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
out = []
for i in sorted(T):
    f = f'{V}/checks/{i.lower()}.py'
    doc = ast.get_docstring(ast.parse(open(f).read())) if os.path.exists(f) else '(no check)'
    o, b, w, x = T[i]
    out.append(f"### {i} {props[i]['title']}\n{' '.join(doc.split())}\n"
               f"*Oracle:* {o}. *Bounds:* {b}. *Beyond tests:* {w}." + (f" *Left out:* {x}." if x else '') + '\n')
out.append('### Not applicable\n' + '\n'.join(f"* {i} {props[i]['title']}: {NA[i]}." for i in sorted(NA)) + '\n')
sec2 = '\n'.join(out)
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(<!-- properties -->\n).*?(<!-- end properties -->)', lambda m: m[1] + sec2 + m[2], t, flags=re.S)
if os.path.isdir(V + '/seeded'):
    rows = []
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(f'{V}/seeded/{d}/meta.json'))
        fl = ', '.join(sorted({os.path.basename(l[6:].strip()) for l in open(f'{V}/seeded/{d}/patch.diff') if l.startswith('+++ ')}))
        rows.append(f"| {d} | {fl} | {m['needs']} | {m['property']} |")
    sec = '| bug | file | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
    t = re.sub(r'(<!-- seeds -->\n).*?(<!-- end seeds -->)', lambda m: m[1] + sec + m[2], t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
