"""Everything the library decodes, handed arbitrary bytes; shared by the properties about memory, exceptions and initialisation."""
from checks.replies import *
from checks import replies

PROBES = replies.PROBES + ['p_buffer', 'p_frames', 'p_paths', 'p_explicit', 'p_session']
DECODERS = {
    'src/utils/Buffer.cpp (operator>>)': ['dec_u8', 'dec_i8', 'dec_u16', 'dec_i16', 'dec_u32', 'dec_i32', 'dec_u64', 'dec_i64', 'dec_f32', 'dec_f64', 'dec_bytes', 'dec_words', 'dec_ep', 'seq_mixed'] + [f'rp_reads{k}' for k in range(12)],
    'src/cip/CipRevision.cpp (operator>>)': ['dec_rev'],
    'src/cip/CipString.h (operator>>)': ['dec_sstr', 'dec_str'],
    'src/eip/EncapsPacket.cpp (expand)': ['frame_decode', 'frame_redecode'],
    'src/eip/EncapsPacket.cpp (getLengthFromHeader)': ['frame_length'],
    'src/eip/CommonPacket.cpp (expand)': ['cp_expand', 'cp_expand_any'],
    'src/cip/EPath.cpp (expandPaddedPath)': ['path_any'],
    'src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp (expandPaddedPath)': ['ypath_any'],
    'src/cip/MessageRouterResponse.cpp (expand)': ['rep_expand', 'rep_expand_used'],
    'src/cip/connectionManager/ForwardOpenResponse.cpp (expand)': ['open_response'],
}


def short(cx, unroll=2, secs=30):
    def f(I):
        I.UNROLL = unroll
        I.MAXTIME = 150 if cx.deep else secs
    return f


def plain(cx, see, site, probe, obls, **kw):
    for p in cx.run(probe, obls=obls, **kw):
        see(cx, p, site, probe)


def one_reply(cx, see, op, at, obls):
    for p in runs(cx, op, at, arbitrary, obls=obls, tune=short(cx)):
        see(cx, p, op.site, f'{op.name}, reply {at + 1}')


def all_replies(cx, see, op, obls):
    def s(I, k, req):
        return u8(f'general{k}'), cat(inp(f'any{k}', 300))
    for p in cx.run(op.probe, oscfg={'hook': router(s)}, obls=obls, tune=short(cx), maxpaths=3000 if cx.deep else 300):
        see(cx, p, op.site, f'{op.name}, all replies')


def explicit(cx, see, probe, site, obls):
    for n in (None, 0, 1, 2, 3):
        def answer(I, name, a, ref, n=n):
            m = inp('msg', 60000)
            I.store(a[0], cat(m) if n is None else cat([('e', elem(fix('head'), i)) for i in range(6)], byt(n, 2), m))
        for p in cx.run(probe, oscfg={'hook': answer}, obls=obls, tune=short(cx)):
            see(cx, p, site, 'any reply')


def io(cx, see, what, script, conns, obls, **kw):
    for p in scenario(cx, conns, script, obls=obls, **kw):
        see(cx, p, CM, what)


def opened_by(cx, see, op, items, obls):
    c = Conn(0, t2o=5, o2t=6, **BOTH)

    def on_request(I, S, req):
        if req[1] not in (0x54, 0x5b, 0x4e):
            return None
        return u8(f'general{req[1]}'), cat(inp(f'any{req[1]}', 300)), items
    for p in scenario(cx, [c], [(op, 0), ('handle', 0), ('close', 0)], on_request=on_request, obls=obls):
        see(cx, p, CM + ' (forwardOpen)', f'{op}, any reply')


def discovery(cx, see, obls, n, probe='disc'):
    def incoming(I, name, fd, m, k):
        if k == 1:
            if n is None:
                return cat(inp('dgram', 504)), None
            return cat([('e', elem(fix('head'), i)) for i in range(24)], byt(n, 2), inp('dgram', 478)), None
        return 11
    for p in cx.run(probe, oscfg={'incoming': incoming}, obls=obls, tune=short(cx)):
        see(cx, p, 'src/DiscoveryManager.cpp (discover)', 'any datagram')


def session(cx, see, probe, obls, which, framed=False):
    """the registration and up to two replies; the one at `which` is arbitrary (framed: in a frame of the right length)"""
    def replies_(I, j, k):
        f = I.facts
        if k == which and not framed:
            return cat(inp(f'reply{k}', 70000))
        d = inp(f'body{k}', 600)
        if k == 0:
            return cat(byt(0x65, 2, f), byt(4, 2, f), byt(77, 4, f), bytes(16), [('e', elem(fix('reg'), i)) for i in range(4)])
        return cat(byt(u16(f'cmd{k}'), 2, f), byt(length(d), 2, f), byt(77, 4, f), bytes(16), d)
    for p in cx.run(probe, oscfg=Peer(replies_, frags=0 if framed else 1, frag_from=which).cfg(), obls=obls, tune=short(cx, 2 if framed else 4), maxpaths=1500 if cx.deep else 300):
        see(cx, p, 'src/SessionInfo.cpp', f'reply {which}')


def anything(cx, see, obls):
    P = cx.par
    for n in (None, 0, 1, 2) if cx.deep else (None, 0, 1):
        P(discovery, cx, see, obls, n)
    for probe in ('sess_identity', 'sess_request'):
        P(session, cx, see, probe, obls, 1, True)
    for probe in ('sess_open', 'sess_exchange', 'sess_exchange2', 'sess_identity', 'sess_request', 'sess_unwind') if cx.deep else ('sess_open', 'sess_exchange', 'sess_exchange2'):
        for which in (0,) if probe in ('sess_open', 'sess_unwind') else (0, 1, 2) if probe == 'sess_exchange2' and cx.deep else (0, 1):
            P(session, cx, see, probe, obls, which)
    for op in OPS:
        if op.probe in ('rp_resync', 'rp_begin', 'rp_upload', 'fault_object', 'id_read', 'fault_command', 'par_read', 'par_update', 'faults_all') or cx.deep:
            P(all_replies, cx, see, op, obls)
    for site, probes in DECODERS.items():
        for pr in probes:
            P(plain, cx, see, site, pr, obls, tune=short(cx))
    for pr, site in (('rep_generic', 'src/MessageRouter.cpp (sendRequest)'), ('rep_yaskawa', 'src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp (sendRequest)')):
        P(explicit, cx, see, pr, site, obls)
    for op in OPS:
        for at in range(1 if op.script is par else 0, op.n) if op.n < 11 or cx.deep else (0, 9, 10):   # the size reply of a parameter only matters together with the next one: all_replies
            P(one_reply, cx, see, op, at, obls)
    for kw in (dict(), dict(t2oRT=1), dict(trig=0), dict(t2oP=P2P | VARIABLE), dict(t2oRT=1, t2oP=P2P | VARIABLE), dict(trig=3, t2oRT=1, t2oP=P2P)):
        cs = [Conn(0, t2o=0x31234, o2t=6, **dict(BOTH, **kw))]
        for n in (0, 1, 2, 3):
            P(io, cx, see, 'any datagram', [('open', 0), arrive(Raw(n)), ('handle', 0), wait(1000), ('handle', 0)], cs, obls)
        P(io, cx, see, 'any datagram', [('open', 0), arrive(Stray(lambda f: cat(inp('junk', 1500)))), ('handle', 0)], cs, obls)
    for op in ('open', 'large'):
        P(opened_by, cx, see, op, [], obls)
        P(opened_by, cx, see, op, [(0x8000, lambda f: cat(inp('sockaddr', 40)))], obls)
        P(opened_by, cx, see, op, [(u16('itype'), lambda f: cat(inp('sockaddr', 40))), (0x8000, lambda f: cat(inp('sockaddr2', 40)))], obls)
