"""Abstract interpretation of FileObject uploads over scripted devices: all sequences of up to five transfer replies drawn from first, middle, last, only, aborted, failing and wrongly numbered packets, with unknown file size, transfer size and part lengths, plus an upload of more than 256 parts; requests, step results and handler calls are compared with the protocol."""
from itertools import product
from checks.util import *

PROBES = ['p_file']
FILE = 'src/fileObject/FileObjectUploadInProgressState.cpp'
SITE = f'{FILE} (transfer)'
FIRST, MIDDLE, LAST, ABORT, ONLY = range(5)
fs, ts = u32('fileSize'), u8('transferSize')


def run(cx):
    ID = u16('id')

    def scenario(probe, steps, seq, tsize=ts, parts=None):
        part = parts or (lambda k: [('s', fix(f'part{k}'), 0, tsize)])
        last = lambda k: cat(inp(f'last{k}', 400))

        def script(I, k, r):
            f = I.facts
            if k == 0:
                return 0, cat([('e', 2)])
            if k == 1:
                return 0, cat(byt(fs, 4, f), [('e', tsize)])
            i = k - 2
            what = seq[i] if i < len(seq) else 'F'
            num = i & 255
            if what == 'F':
                return 0, cat([('e', num), ('e', FIRST)], part(i))
            if what == 'M':
                return 0, cat([('e', num), ('e', MIDDLE)], part(i))
            if what in 'LO':
                return 0, cat([('e', num), ('e', LAST if what == 'L' else ONLY)], last(i), [('e', u8(f'crc{i}a')), ('e', u8(f'crc{i}b'))])
            if what == 'S':
                st = u8(f'st{i}')
                I.assume(cne(st, 0))
                return st, cat([('e', num), ('e', FIRST)], part(i))
            if what == 'W':
                w = u8(f'wrong{i}')
                I.assume(cne(w, num))
                return 0, cat([('e', w), ('e', I.choose(3))], part(i), [('e', 0), ('e', 0)])
            if what == 'A':
                return 0, cat([('e', num), ('e', ABORT)])
            raise AssertionError(what)

        for p in cx.run(probe, oscfg={'hook': router(script)}):
            if not p.decided:
                continue
            if not p.done:
                cx.bad(p, 'upload', SITE, f'an upload ({seq}) ends with {p.kind} {p.exc or p.o.why}')
                continue
            rs = reqs(p)
            content, finished, i, calls = [], False, 0, 0
            status = body = None
            marks = []
            for e in p.events:
                if e[0] == 'mark' and e[1] == 'step':
                    marks.append(0)
                elif e[0] == 'mark' and e[1] == 'handler' and marks:
                    marks[-1] += 1
            mark0 = sum(1 for e in p.events if e[0] == 'mark' and e[1] == 'handler')
            if mark0 > sum(marks):
                cx.bad(p, 'once', SITE, 'the handler is called before the first transfer')
            n, expected_calls = 0, 0
            f = p.facts
            done_at = None
            for s in range(steps):
                if finished:
                    cx.expect(p, 'over', SITE, 'progress of a step after the end', p.out('progress', s), False)
                    if marks[s]:
                        cx.bad(p, 'once', SITE, 'the handler is called again after the end')
                    continue
                if 2 + n >= len(rs):
                    cx.bad(p, 'request', SITE, f'step {s} of {seq} sends no request')
                    break
                r = rs[2 + n]
                check_request(cx, p, SITE, f'transfer {n}', r, 0x4F, [0x37, ID], Seq([('e', n & 255)]))
                what = seq[n] if n < len(seq) else 'F'
                n += 1
                prog, m = p.out('progress', s), marks[s]
                if what in 'FM':
                    content += part(n - 1)
                    cx.expect(p, 'progress', SITE, f'progress of step {s} of {seq}', prog, True)
                    if m:
                        cx.bad(p, 'once', SITE, 'the handler is called although parts are missing')
                elif what == 'A':
                    if prog == 2:
                        break           # reported by an exception
                    finished, expected_calls = True, 1
                    if m != 1:
                        cx.bad(p, 'once', SITE, f'an aborted transfer calls the handler {m} times')
                    else:
                        cx.must(p, 'status', SITE, 'an aborted upload is reported as a success', cne(p.out('status'), 0))
                        cx.expect(p, 'content', SITE, 'content of a failed upload', p.out('content'), Seq())
                else:
                    finished = True
                    cx.expect(p, 'progress', SITE, f'progress of the final step of {seq}', prog, False)
                    if m != 1:
                        cx.bad(p, 'once', SITE, f'the end of the upload ({seq}) calls the handler {m} times')
                        continue
                    if what in 'LO':
                        content += list(last(n - 1).segs)
                        for g, (fits,) in cx.cases(p, ceq(seqlen(Seq(content)), fs)):
                            if fits:
                                cx.expect(p, 'status', SITE, 'status of a complete upload', p.out('status'), 0, g)
                                cx.expect(p, 'content', SITE, 'content of a complete upload', p.out('content'), Seq(content), g)
                            else:
                                cx.must(p, 'status', SITE, 'an upload of the wrong size is reported as a success', cne(p.out('status'), 0), g)
                                cx.expect(p, 'content', SITE, 'content of a failed upload', p.out('content'), Seq(), g)
                    elif what == 'S':
                        cx.expect(p, 'status', SITE, 'status of a failed transfer', p.out('status'), u8(f'st{n - 1}'))
                        cx.expect(p, 'content', SITE, 'content of a failed upload', p.out('content'), Seq())
                    else:
                        cx.must(p, 'status', SITE, 'a wrongly numbered transfer is reported as a success', cne(p.out('status'), 0))
                        cx.expect(p, 'content', SITE, 'content of a failed upload', p.out('content'), Seq())
            if finished and len(rs) > 2 + n:
                cx.bad(p, 'over', SITE, 'a transfer is requested after the end')

    seqs = ['O', 'L', 'FL', 'FML', 'FMML', 'S', 'W', 'A', 'FS', 'FW', 'FA', 'FMS', 'FMW', 'ML', 'FO', 'FFL']
    if cx.deep:
        for n in range(1, 4):
            seqs += [''.join(s) for s in product('FM', repeat=n - 1) for s in [s + (e,) for e in 'LOSWA'] if ''.join(s) not in seqs]
        seqs += ['FMMM' + e for e in 'LSW']
    for s in seqs:
        scenario('file_upload7' if len(s) > 3 else 'file_upload5', 7 if len(s) > 3 else 5, s)
    scenario('file_upload300', 300, 'F' + 'M' * 256 + 'L', tsize=1, parts=lambda k: [('e', elem(fix('stream'), k))])

    # a second upload of the same object starts from scratch
    def script(I, k, r):
        f = I.facts
        if k in (0, 3):
            return 0, cat([('e', 2)])
        if k in (1, 4):
            return 0, cat(byt(length(inp(f'all{k}', 400)), 4, f), [('e', ts)])
        return 0, cat([('e', 0), ('e', ONLY)], inp(f'all{k - 1}', 400), [('e', 1), ('e', 2)])
    for p in cx.run('file_twice', oscfg={'hook': router(script)}):
        if not p.done:
            if p.decided:
                cx.bad(p, 'again', SITE, f'two uploads end with {p.kind} {p.exc or p.o.why}')
            continue
        if sum(1 for m in p.marks if m == 'handler') != 2:
            cx.bad(p, 'again', SITE, 'two uploads do not call the handler twice')
            continue
        for i, k in enumerate((1, 4)):
            cx.expect(p, 'again', SITE, f'content of upload {i}', p.out('content', i), cat(inp(f'all{k}', 400)))
            cx.expect(p, 'again', SITE, f'status of upload {i}', p.out('status', i), 0)
