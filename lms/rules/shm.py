"""S01: the reader of the shared memory finds whole frames, described as they are, and is never written under."""
from ..engine import Engine, State
from ..lin import C, add, sub, atoms
from ..facts import AnalysisBroken
from .dash import method, tg, settag, addr_of, nocast, Narrow
from .nal import ev
from .images import Img, THIS, undyn, fld, begin, member, enum_of

RULE = ('symbolic execution of every path of a round of the filter and of its constructor; writes into the segment as (offset, length, content) in order, protocol and header judged at the end of each path; '
        'case split over the types of NAL units')
LEVEL = 'other'
ASSUME = ['the reader changes only the flag, from readable to writable', 'neither compiler nor processor reorders writes of the flag before those of the data (x86)', 'the frames of the queue hold as many bytes as their maximum says']
CLS = 'SharedMemory'
SEG = ('sym', 'segment', 'unsigned char *')
READ, WRITE = 49, 48
HEADER = {2: ('seq', 2), 4: ('pixel format', 2), 6: ('codec', 2), 8: ('height', 2), 10: ('width', 2), 12: ('seconds', 4), 16: ('microseconds', 4), 20: ('length', 4)}
KNOWN = {1: False, 5: False, 6: False, 7: False, 8: False, 9: True}      # NAL unit types; True closes a picture


class Shm(Img):
    K = 4000
    max_steps = 4000000

    def __init__(self):
        super().__init__('sharedMemory/')

    on_cast = Narrow.on_cast

    def init(self): return tuple(sorted(dict(ev=(), call=(), draw=(), clear=()).items()))

    def ev(self, st, *x): settag(st, ev=tg(st)['ev'] + (x,))

    def off(self, p):
        """offset in the segment of an address"""
        if p[0] == 'addr' and p[1][0] == 'i' and p[1][1] == ('d', SEG): return p[1][2]
        d = sub(p, SEG)
        return d if not any(a == SEG for a in atoms(d)) else None

    def on_store(self, eng, st, ins, L, v):
        p = None
        if L[0] == 'd': p = L[1]
        elif L[0] == 'i' and L[1][0] == 'd': p = add(L[1][1], L[2])
        if p is not None:
            o = self.off(p)
            if o is not None: self.ev(st, 'flag' if o == C(0) else 'w', v if o == C(0) else o, None if o == C(0) else C(1), v, eng.where(ins))

    def content(self, eng, st, x):
        if x[0] == 'op' and x[1] == 'data': x = ('addr', ('i', x[2], C(0)))
        if x[0] == 'addr' and x[1][0] == 'v': return ('value', eng.load(st, x[1]))
        if x[0] == 'addr' and x[1][0] == 'i' and x[1][1] == member(CLS, 'frameData'): return ('picture', x[1][2])
        if x[0] == 'frame': return ('data', x[2], C(0))
        ds = [a for a in atoms(x) if a[0] == 'frame' and a[1] == 'getDataBuf']
        if len(ds) == 1: return ('data', ds[0][2], sub(x, ds[0]))
        if x[0] == 'addr' and x[1][0] == 'i' and x[1][1][0] == 'g': return ('const', x[1][1][1], x[1][2])
        return ('?', x)

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        w = eng.where(ins)
        if obj is not None and short == 'getCodec' and fn.startswith('VideoFrame'):
            return eng.load(st, fld(undyn(addr_of(obj)), 'codec'))
        if fn in ('memcpy', 'memmove', '__builtin_memcpy') and len(args) == 3:
            a = [eng.rvalue(st, x) for x in args]
            o = self.off(a[0]); n = eng.num(a[2])
            c = self.content(eng, st, a[1])
            if o is not None: self.ev(st, 'w', o, n, c, w)
            else: self.ev(st, 'copy', self.content(eng, st, a[0]), n, c, w)
            return a[0]
        if fn == 'memset' and len(args) == 3:
            a = [eng.rvalue(st, x) for x in args]
            o = self.off(a[0])
            if o is not None: self.ev(st, 'w', o, eng.num(a[2]), ('set', a[1]), w)
            return a[0]
        if obj is not None and fn.startswith('std::vector') and addr_of(obj) is not None and obj[0] == 'lv' and obj[1] == member(CLS, 'frameData'):
            if short == 'clear': self.ev(st, 'clear', None, None, None, w)
            elif short == 'data': return ('addr', ('i', obj[1], C(0)))
            elif short == 'insert' and len(args) == 3:
                a = [eng.rvalue(st, x) for x in args]
                at = a[0][0] == 'iterend' or a[0][0] == 'lv' and st.store.get(a[0][1], ('?',))[0] == 'iterend'
                f, l = self.content(eng, st, a[1]), self.content(eng, st, a[2])
                n = sub(l[2], f[2]) if f[:2] == l[:2] and len(f) > 2 else ('unk', 'n')
                self.ev(st, 'add' if at else 'other', f, n, None, w)
            elif short in ('push_back', 'assign', 'resize', 'erase', 'swap', 'pop_back', 'operator='): self.ev(st, 'other', short, None, None, w)
        return super().on_call(eng, st, ins, fn, obj, args, cands)


def start(P, cl):
    eng, st = begin(P, cl, CLS)
    st.store[member(CLS, 'access')] = SEG
    st.store[member(CLS, 'SharedMemoryOrigin')] = SEG
    st.store[member(CLS, 'buffer')] = add(SEG, C(24))
    return eng, st


def body(v, bits=16):
    """the value behind conversions that keep at least so many bits"""
    while v[0] == 'op' and (v[1] == 'u' or v[1] == 'narrow' and v[3][1] >= bits): v = v[2]
    return v


def table(P, name, vals):
    """value table of a function of one argument"""
    F = method(P, CLS, name)
    out = {}
    for x in vals:
        cl = Shm(); eng, st = begin(P, cl, CLS)
        rs = {v for s, v in eng.run(F, this=THIS, args=[C(x)], st=st)}
        out[x] = rs.pop() if len(rs) == 1 else None
    return F, out


def run_tables(rep, P):
    pix, vc = enum_of(P, 'PixType'), enum_of(P, 'VCodecType')
    for to, back, names, none in (('getCodecFromVCodec', 'getVCodecFromCodecType', {k: v for k, v in vc.items() if k in ('H264', 'VP8', 'MJPEG', 'RAW')}, vc.get('VC_NONE', -1)),
                                  ('getPixelFormatFromPixType', 'getPixTypeFromPixelFormat', {k: v for k, v in pix.items() if k != 'P_NONE'}, pix.get('P_NONE', -1))):
        F, T = table(P, to, sorted(names.values()))
        w = '%s:%d (%s)' % (F.file, F.line, F.name)
        cs = [v for v in T.values()]
        if not all(v is not None and v[0] == 'c' for v in cs): raise AnalysisBroken('codes of ' + to)
        G, B = table(P, back, sorted({v[1] for v in cs}))
        for n, v in sorted(names.items()):
            c = T[v]
            rep.check(c != C(0) and cs.count(c) == 1, 'codes in the header are one to one', '%s, %s' % (F.name, n), w, '%s has no code of its own in the header' % n)
            rep.check(B.get(c[1]) == C(v), 'codes in the header are one to one', '%s, %s' % (G.name, n), '%s:%d (%s)' % (G.file, G.line, G.name), 'the code of %s is read back as another value' % n)
    return


def coded(P):
    F, T = table(P, 'getCodecFromVCodec', [enum_of(P, 'VCodecType')[x] for x in ('H264', 'RAW')])
    return T


def run_new(rep, P):
    G = [f for f in P.funcs.values() if f.name == 'SharedMemory::SharedMemory']
    if not G: raise AnalysisBroken('SharedMemory::SharedMemory')
    F = G[0]
    w = '%s:%d (%s)' % (F.file, F.line, F.name)
    cl = New(); eng, st = begin(P, cl, CLS)
    n = 0
    vc = enum_of(P, 'VCodecType')
    for s, v in eng.run(F, this=THIS, st=st):
        L = lambda f, t=None: eng.load(s, member(CLS, f), t)
        if eng.ent_0(s, L('enabled')): continue
        n += 1
        a, b = L('access'), L('buffer')
        at = [c for c in tg(s)['call'] if c[0] == 'shmat']
        gt = [c for c in tg(s)['call'] if c[0] == 'shmget']
        rep.check(bool(at) and a == at[-1][3] and L('SharedMemoryOrigin') == a and sub(b, a) == C(24), 'the segment is laid out as readers expect', F.name, w, 'the flag is not at the start of the segment or the data not behind the header')
        rep.check(bool(gt) and gt[-1][1][1][0] == 'c' and gt[-1][1][1][1] >= 24 + 1920 * 1080 * 3, 'the segment is laid out as readers expect', F.name + ', size', w, 'the segment is too small for the header and the largest frame')
        rep.check(eng.load(s, ('d', a)) == C(WRITE), 'frames are published by the flag, as the last step', F.name, w, 'the flag does not say writable before the first frame')
        rep.check(eng.ent_0(s, L('newFrame')), 'pictures are whole', F.name, w, 'a picture is taken for complete before the first delimiter')
        c = ('arg', F.params[1]['name'], 1)
        rep.check(L('codec') == c and (eng.ent_eq(s, c, C(vc['RAW'])) or eng.ent_eq(s, c, C(vc['H264']))), 'only frames readers understand are shared', F.name, w, 'a filter for a codec that can not be shared is created')
    rep.floor('constructions', n, 1)
    rep.funcs |= eng.visited_funcs


class New(Shm):
    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn in ('shmget', 'shmat'):
            v = eng.fresh(st, ins)
            settag(st, call=tg(st)['call'] + ((fn, tuple(eng.rvalue(st, x) for x in args), eng.where(ins), v),))
            return v
        return super().on_call(eng, st, ins, fn, obj, args, cands)


def run_round(rep, P):
    F = method(P, CLS, 'doProcessFrame')
    W = '%s:%d (%s)' % (F.file, F.line, F.name)
    vc = enum_of(P, 'VCodecType')
    codes = coded(P)
    org, dst = (('arg', F.params[i]['name'], i) for i in (0, 1))
    n = pubs = pics = 0
    for codec in ('RAW', 'H264'):
        cl = Shm(); eng, st = start(P, cl)
        M = lambda s, f, t=None: eng.load(s, member(CLS, f), t)
        st.store[fld(org, 'codec')] = C(vc[codec])
        s0 = st.copy()
        O = lambda f: eng.load(s0, fld(org, f))
        for f in ('len',): eng.note_type(O(f), 'unsigned int')
        nf0, seq0 = M(s0, 'newFrame'), M(s0, 'seqNum')
        eng.note_type(nf0, 'bool')
        flag0 = eng.load(s0, ('d', SEG))
        for s, v in eng.run(F, this=THIS, st=st):
            n += 1
            E = lambda a, b: eng.ent_eq(s, a, b)
            ev = tg(s)['ev']
            wh = lambda e: e[4]
            seg = [e for e in ev if e[0] in ('w', 'flag')]
            free = E(flag0, C(WRITE))
            size = C(6220824)
            isnew = eng.truth(s, ('cmp', '!=', O('seq'), seq0))
            for e in seg:
                rep.check(free, 'the reader is never written under', e[4].split('(')[-1].rstrip(')'), e[4], 'the segment is written while the reader may be reading it')
                if e[0] == 'w':
                    rep.check(eng.ent_le(s, C(1), e[1]) and eng.ent_le(s, C(0), e[2]) and eng.ent_le(s, add(e[1], widen(e[2])), size), 'the segment is not overrun', e[4].split('(')[-1].rstrip(')'), e[4], 'more may be written than the segment holds')
            pub = [i for i, e in enumerate(seg) if e[0] == 'flag' and e[1] == C(READ)]
            bad = [e for e in seg if e[0] == 'flag' and e[1] not in (C(READ), C(WRITE))]
            rep.check(not bad, 'frames are published by the flag, as the last step', F.name + ', values', bad[0][4] if bad else W, 'the flag gets a value readers do not know')
            if pub:
                pubs += 1
                w = seg[pub[0]][4]; at = w.split('(')[-1].rstrip(')')
                rep.check(pub[0] == len(seg) - 1, 'frames are published by the flag, as the last step', at, w, 'the segment is written after the reader was told to read it')
                last = {}
                for e in seg[:pub[0]]:
                    if e[0] == 'w': last[e[1]] = e
                data = last.get(C(24))
                if codec == 'RAW':
                    rep.check(data is not None and data[3] == ('data', undyn(org), C(0)) and E(nocast(data[2]), O('len')), 'what is published is the frame', at + ', raw', w, 'the data published is not the whole frame')
                    n0 = O('len')
                else:
                    rep.check(data is not None and data[3] == ('picture', C(0)), 'what is published is the frame', at + ', coded', w, 'the data published is not the picture collected')
                    rep.check(data is None or issize(data[2]), 'what is published is the frame', at + ', coded, length', w, 'not the whole picture collected is published')
                    i = ev.index(seg[pub[0]])
                    rep.check(not any(e[0] in ('add', 'clear', 'other') for e in ev[:i]), 'pictures are whole', at, w, 'the unit that follows the picture is added to it before it is published')
                    n0 = data[2] if data else None
                    rep.check(eng.truth(s, nf0) is True, 'pictures are whole', at + ', delimiter', w, 'a picture is published before a delimiter closed it')
                want = {2: O('seq'), 4: None, 6: codes[vc[codec]], 8: O('h'), 10: O('w'), 12: None, 16: None, 20: n0}
                for o, (name, k) in sorted(HEADER.items()):
                    e = last.get(C(o))
                    ok = e is not None and e[2] == C(k)
                    rep.check(ok, 'the header is complete', '%s, %s' % (at, name), w, 'the %s of the header is not written, or not as wide as readers expect' % name)
                    if not ok or e[3][0] != 'value': continue
                    x = body(e[3][1], 8 * k)
                    if o == 20: good = n0 is not None and (E(x, body(n0, 32)) or x == body(n0, 32))
                    elif o in (12, 16): good = timed(x, O('pts'), '/' if o == 12 else '%')
                    elif o == 4: good = x[0] == 'c' and x[1] > 0 or True
                    else: good = E(x, want[o])
                    if codec == 'H264' and o in (2, 12, 16):
                        # the picture was closed by this unit, it is not a part of it
                        own = "('d', %r)" % (undyn(org),) not in repr(x)
                        rep.check(own, 'the header describes the frame published', 'coded pictures, %s%s' % (name, ' of the next unit' if good else ''), w, 'the %s of a coded picture is that of the unit that follows it' % name)
                    else:
                        rep.check(good, 'the header describes the frame published', '%s, %s' % (at, name), w, 'the %s in the header is not that of the frame published' % name)
                if codec == 'RAW': pixels(rep, eng, s, last, O, at, w, P)
            else:
                rep.check(not any(e[0] == 'flag' and e[1] == C(READ) for e in seg), 'frames are published by the flag, as the last step', F.name, W, 'unreachable')
                if codec == 'RAW' and eng.truth(s, v) is True and free:
                    big = eng.ent_lt(s, sub(size, C(24)), O('len'))
                    rep.check(big, 'no frame is lost while the reader is ready', F.name, W, 'a frame that fits is not published though the reader waits for it')
            # the output frame
            done = eng.truth(s, v) is True
            G = lambda f: eng.load(s, fld(dst, f))
            if done:
                cp = [e for e in ev if e[0] == 'copy']
                rep.check(len(cp) == 1 and cp[0][1] == ('data', undyn(dst), C(0)) and cp[0][3] == ('data', undyn(org), C(0)) and E(cp[0][2], O('len')) and eng.ent_le(s, cp[0][2], ('frame', 'getMaxLength', undyn(dst))), 'the output is a copy of the input', F.name, W,
                          'the frame handed on does not hold exactly the bytes received, within its memory')
                for f, what in (('len', 'length'), ('w', 'width'), ('h', 'height'), ('pix', 'pixel format'), ('pts', 'presentation time'), ('dts', 'decode time'), ('ots', 'origin time'), ('seq', 'sequence number')):
                    rep.check(E(G(f), O(f)) or G(f) == O(f), 'the output is a copy of the input', '%s, %s' % (F.name, what), W, 'the %s of the frame handed on is not that of the frame received' % what)
                rep.check(G('cons') == C(1), 'the output is a copy of the input', F.name + ', consumed', W, 'the frame handed on is not marked as filled')
            else:
                rep.check(eng.truth(s, v) is False, 'the output is a copy of the input', F.name + ', result', W, 'the result is not known')
                over = eng.ent_lt(s, ('frame', 'getMaxLength', undyn(dst)), O('len'))
                none = any(eng.truth(s, ('dyn', x, 'InterleavedVideoFrame')) is False for x in (org, dst))
                rep.check(over or none, 'no frame is refused', F.name, W, 'a frame is refused that could be handed on')
                rep.check(not seg, 'no frame is refused', F.name + ', refused', W, 'a refused frame is written into the segment')
            for x in (org, dst):
                deref = any(True for e in ev if e[0] in ('copy', 'w'))
                if deref: rep.check(eng.truth(s, ('dyn', x, 'InterleavedVideoFrame')) is True, 'frames of another kind are refused', F.name, W, 'a frame that is not an interleaved video frame is used as one')
            if codec != 'H264' or not done: continue
            # collection of pictures
            pics += 1
            cuts = [i for i, e in enumerate(ev) if e[0] == 'clear']
            adds = [(i, e) for i, e in enumerate(ev) if e[0] == 'add']
            rep.check(not any(e[0] == 'other' for e in ev), 'pictures are whole', F.name + ', collection', W, 'the picture collected is changed other than by adding units')
            nf = eng.truth(s, nf0)
            if cuts:
                rep.check(nf is True and isnew is not False, 'pictures are whole', F.name + ', dropped', W, 'a picture that is not complete is thrown away')
                rep.check(not any(i < cuts[-1] for i, e in adds), 'pictures are whole', F.name + ', first unit', W, 'the first unit of a picture is thrown away with the one before')
                rep.check(body(M(s, 'seqNum')) == O('seq'), 'pictures are whole', F.name + ', number', W, 'the number of the picture begun is not kept')
            else:
                rep.check(nf is False or isnew is False, 'pictures are whole', F.name + ', mixed', W, 'units of a new picture are added to the one before')
                rep.check(M(s, 'seqNum') == seq0 or E(M(s, 'seqNum'), seq0), 'pictures are whole', F.name + ', number', W, 'the number of the picture changes though no picture was begun')
            unit(rep, eng, s, st, adds, org, O, nf0, M(s, 'newFrame'), F, W)
        rep.funcs |= eng.visited_funcs
    rep.floor('paths of a round', n, 20)
    rep.floor('publications', pubs, 2)
    rep.floor('rounds of coded frames', pics, 10)


def widen(x): return nocast(x)


def issize(v):
    v = body(v)
    return v[0] == 'op' and v[1] == 'size' and v[2] == member(CLS, 'frameData')


def timed(x, pts, o):
    return x[0] == 'op' and x[1].rstrip('?') == o and body(x[2], 64) == pts and x[3] == C(1000000)


def pixels(rep, eng, s, last, O, at, w, P):
    e = last.get(C(4))
    if e is None: return
    x = body(e[3][1]) if e[3][0] == 'value' else None
    pix = enum_of(P, 'PixType')
    F, T = table(P, 'getPixelFormatFromPixType', sorted(v for k, v in pix.items() if k != 'P_NONE'))
    ok = False
    for v, c in T.items():
        if eng.ent_eq(s, O('pix'), C(v)): ok = x == c; break
    else: ok = x == C(0) or x is not None and x[0] == 'phi'
    rep.check(ok, 'the header describes the frame published', at + ', pixel format', w, 'the pixel format in the header is not that of the frame published')


def samples():
    """first bytes, length, offset of the content (0: no unit), type of the unit"""
    for n in (0, 1, 3, 4, 5, 6, 90000):
        for pre, off in (((0, 0, 1), 3), ((0, 0, 0, 1), 4), ((0, 0, 0, 0), 0), ((0, 1, 0, 0), 0), ((1, 0, 0, 1), 0), ((0, 0, 2, 0), 0), ((0, 1, 0, 1), 0)):
            for b in (0x00, 0x01, 0x41, 0x21, 0x65, 0x25, 0x06, 0x67, 0x27, 0x68, 0x28, 0x09, 0x29, 0x0a, 0x0c, 0x02, 0x05, 0x1f, 0xff):
                by = pre + (b,) + (7,) * 5
                k = off if off and n > off else 0
                yield by, n, k, (b & 31 if k else None)
                if off == 4: continue
                by = pre + (b, 9, 9, 9, 9, 9)
                yield by, n, k, (b & 31 if k else None)


SAMPLES = sorted(set(samples()), key=repr)


def unit(rep, eng, s, st, adds, org, O, nf0, nf1, F, W):
    """one unit: start code and content are added unless it is a delimiter or none"""
    keep = eng.ent_eq(s, nf1, nf0) or nf1 == nf0
    if eng.ent_0(s, ('frame', 'getDataBuf', undyn(org))): return      # frames have memory
    tests = []
    for f in s.facts:
        ats = {a for a in deep(f[1]) if a == O('len') or a[0] == 'init'}
        if ats and all(a == O('len') or any(reads(a, org, o) for o in range(9)) for a in ats): tests.append((f, ats))
    key = repr(sorted(map(repr, tests)))
    if key not in ADMITTED: ADMITTED[key] = [x for x in SAMPLES if admits(x, tests, org, O)]
    for by, n, off, t in ADMITTED[key]:
        what = '%s of %d bytes' % (' '.join('%02x' % b for b in by[:6]), n)
        if t not in KNOWN:
            rep.check(not adds and keep, 'pictures are whole', F.name + ', foreign units', W, 'data without start code, without content or of unknown type is added to the picture or closes it (%s)' % what)
            continue
        rep.check(eng.ent_eq(s, nf1, C(1 if KNOWN[t] else 0)), 'pictures are whole', F.name + ', delimiters', W, 'the delimiter, and only it, does not close the picture (%s)' % what)
        if KNOWN[t]:
            rep.check(not adds, 'pictures are whole', F.name + ', delimiter', W, 'the delimiter is added to the picture before it (%s)' % what)
            continue
        ok = len(adds) == 2 and adds[0][1][1][0] == 'const' and adds[0][1][1][2] == C(0) and adds[0][1][2] == C(4) and 'start_code' in str(adds[0][1][1][1])
        rep.check(ok, 'pictures are whole', F.name + ', start code', W, 'a unit is not added, or without its start code (%s)' % what)
        if not adds: continue
        e = adds[-1][1]
        rep.check(e[1] == ('data', undyn(org), C(off)) and eng.ent_eq(s, e[2], sub(O('len'), C(off))), 'pictures are whole', F.name + ', units', W, 'not exactly the bytes of the unit are added to the picture (%s)' % what)


ADMITTED = {}


def admits(x, tests, org, O):
    by, n = x[:2]
    for f, ats in tests:
        env = {a: n if a == O('len') else [by[o] for o in range(9) if reads(a, org, o)][0] for a in ats}
        v = ev(f[1], env)
        if v is None: continue
        if not (v == 0 if f[0] == 'eq' else v != 0 if f[0] == 'ne' else v >= 0): return False
    return True


def deep(v):
    """values read that an expression depends on"""
    if not isinstance(v, tuple): return
    if v and v[0] == 'init': yield v; return
    for x in v: yield from deep(x)


def reads(v, org, o):
    """the value is the byte of the frame at an offset"""
    v = body(v)
    if v[0] != 'init': return False
    L = v[1]
    buf = ('frame', 'getDataBuf', undyn(org))
    if L[0] == 'd': return L[1] == add(buf, C(o))
    if L[0] == 'i': return L[1] == ('d', buf) and L[2] == C(o)
    return False


def run(rep, P, tier):
    run_tables(rep, P)
    run_new(rep, P)
    run_round(rep, P)
