"""A01: the audio ring hands on every accepted sample once, in order, per channel, with the time it belongs to."""
from ..engine import Engine, State
from itertools import permutations
from ..lin import C, add, sub, mulc, atoms, mentions
from ..scan import Scan
from ..rat import same, op
from ..facts import AnalysisBroken

RULE = ('path analysis of the producing and the consuming operation of the audio ring (helpers inlined): per transfer, the pieces copied for one channel tile exactly the bytes of the frame and exactly the ring positions '
        'that follow the write (read) position, wrapping once at the end of the ring, for all channels (scan certificate); the amount was checked against the free (stored) amount before; '
        'write position, read position and fill level change by exactly what was copied on every exit; gap, overlap and discontinuity handling is decided by the deviation the code computes, which must be the rational expression '
        '"frame time - time of the write position"; the time given to an extracted frame must be the rational expression "time of the read position" taken before the extraction; silence is only taken from within the silent frame')
LEVEL = 'other'
ASSUME = ['a frame never says it has more samples than it can hold', 'field access is serialised as decided by C01', 'rounding of time to whole microseconds is not judged']

A = 'AudioCircularBuffer::'
REAR, FRONT, EL, LEN = 'FrameQueue::rear', 'FrameQueue::front', A + 'elements', A + 'channelMaxLength'
FB = 'PlanarAudioFrame::frameBuff'


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def strip(v):
    while v[0] == 'op' and v[1] in ('u', 'cast', 's', 'trunc'): v = v[2]
    return v


class Cl(Scan):
    split_minmax = True
    K = 300
    max_depth = 10
    max_steps = 300000

    def __init__(self, rep, F0, silence):
        super().__init__()
        self.rep, self.F0, self.silence = rep, F0, silence
        self.kinds = set()

    T0 = dict(segs=(), idx=None, scan='no', total=None, frame=None, dir=None, moved=(), flushed=False, late=None, gap=None, stamp=False, fill=None, sync=False, xd=None, org=False, pend=())

    def init(self): return tuple(sorted(self.T0.items()))

    def ck(self, ok, kind, eng, ins, msg):
        self.kinds.add(kind)
        self.rep.check(ok, kind, self.F0.name, eng.where(ins) if ins is not None else '%s:%d' % (self.F0.file, self.F0.line), msg)

    def fld(self, eng, f): return ('m', ('d', eng.root_this), f)

    def val(self, eng, st, f): return eng.load(st, self.fld(eng, f), 'unsigned int')

    def start(self, eng, st):
        self.r0, self.f0, self.e0, self.L = (self.val(eng, st, x) for x in (REAR, FRONT, EL, LEN))
        self.bps, self.rate, self.sync0 = self.val(eng, st, A + 'bytesPerSample'), self.val(eng, st, A + 'sampleRate'), eng.load(st, self.fld(eng, A + 'syncTimestamp'))
        self.th = eng.load(st, self.fld(eng, A + 'tsDeviationThreshold'), 'int')
        for x in self.inv(): st.facts = st.facts | {x}

    def inv(self):
        return [('ge', add(self.L, C(-1))), ('ge', sub(self.L, self.e0)), ('ge', self.e0), ('eq', sub(sub(self.r0, self.f0), self.e0)), ('ge', add(self.bps, C(-1))), ('ge', add(self.rate, C(-1)))]

    def inline(self, eng, st, G, ins): return True

    # ---- pointers
    def ptr(self, eng, p):
        """(kind, frame or None, channel, offset)"""
        for a in atoms(p) if p[0] != 'init' else (p,):
            if a[0] != 'init': continue
            L = a[1]
            if L[0] == 'd':
                x = L[1]
                for b in atoms(x):
                    if b[0] == 'addr' and b[1][0] == 'i' and b[1][1][0] == 'm': L = ('i', b[1][1], add(sub(x, b), b[1][2])); break
            if L[0] == 'i' and L[1][0] == 'm':
                off = sub(p, a)
                if L[1][2] == A + 'data' and L[1][1] == ('d', eng.root_this): return ('ring', None, L[2], off)
                if L[1][2] == FB: return ('frame', L[1][1][1] if L[1][1][0] == 'd' else None, L[2], off)
        return None

    def sums(self, t):
        p = q = C(0)
        for d, fr, n in t['moved']:
            if d == 'in': p = add(p, n)
            else: q = add(q, n)
        return p, q

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        t = tg(st)
        if s in ('memcpy', 'memmove') and len(args) == 3:
            d, x, n = (eng.rvalue(st, a) for a in args)
            a, b = self.ptr(eng, d), self.ptr(eng, x)
            ok = a is not None and b is not None and {a[0], b[0]} == {'ring', 'frame'}
            self.ck(ok, 'copies run between ring and frame', eng, ins, 'data is copied from or to something that is neither the ring nor the frame being transferred')
            if not ok: return ('void',)
            r, f = (a, b) if a[0] == 'ring' else (b, a)
            dr = 'in' if a[0] == 'ring' else 'out'
            same_ch = t['idx'] is not None and eng.ent_eq(st, r[2], t['idx']) and eng.ent_eq(st, f[2], t['idx'])
            self.ck(same_ch, 'channels are kept apart', eng, ins, 'samples of one channel are copied to or from another one')
            if t['pend'] and (t['dir'], t['frame']) != (dr, f[1]): self.judge(eng, st, ins); t = tg(st)
            settag(st, segs=t['segs'] + ((r[3], f[3], eng.num(n)),) if len(t['segs']) < 3 else t['segs'], dir=dr, frame=f[1])
            return ('void',)
        if s == 'setPresentationTime':
            ts = eng.num(eng.rvalue(st, args[0]))
            want = add(self.sync0, op('/', op('*', self.f0, C(1000000)), op('*', self.bps, self.rate)))
            settag(st, stamp='ok' if same(strip(ts), want) else 'bad')
            return NotImplemented
        if s == 'setOriginTime': settag(st, org=True)
        return NotImplemented

    def tiling(self, eng, st, segs, pos):
        """None when the pieces, in this order, tile the frame and the ring from pos on; else what is wrong"""
        off = C(0)
        for k, (r, f, n) in enumerate(segs):
            if not eng.ent_eq(st, f, off): return 'the pieces do not follow one another in the frame'
            if k == 0:
                m = strip(r)
                if not (m[0] == 'op' and m[1].startswith('%') and eng.ent_eq(st, strip(m[2]), pos) and eng.ent_eq(st, m[3], self.L)): return 'the transfer does not start at the right position of the ring'
                end = add(r, n)
                if not eng.ent_le(st, end, self.L): return 'a piece runs past the end of the ring'
            else:
                if not (eng.ent_eq(st, end, self.L) and eng.ent_eq(st, r, C(0))): return 'the second piece does not continue at the start of the ring'
                end = n
                if not eng.ent_le(st, n, self.L): return 'a piece runs past the end of the ring'
            off = add(off, n)
        return None

    def judge(self, eng, st, ins=None):
        """the copies made so far are one transfer"""
        t = tg(st)
        if not t['pend']: return
        p, q = self.sums(t)
        pos = add(self.r0, p) if t['dir'] == 'in' else add(self.f0, q)
        segs = t['pend']
        why = [self.tiling(eng, st, x, pos) for x in permutations(segs)]
        self.ck(None in why, 'pieces tile the frame and the ring', eng, ins, why[0] or '')
        off = C(0)
        for x in segs: off = add(off, x[2])
        if t['dir'] == 'in': fit = eng.ent_le(st, off, sub(self.L, add(self.e0, sub(p, q))))
        else: fit = eng.ent_le(st, off, add(self.e0, sub(p, q)))
        self.ck(fit, 'amount checked before the transfer', eng, ins, 'samples are %s without a check that there is %s for them' % (('written', 'room') if t['dir'] == 'in' else ('read', 'data')))
        settag(st, moved=t['moved'] + ((t['dir'], t['frame'], off),), pend=())

    def on_branch(self, eng, st, ins, v, taken):
        if v[0] != 'cmp': return
        o, x, y = v[1:]
        t = tg(st)
        # deviation against the threshold
        if self.th in atoms(x) + atoms(y) and o in ('<', '>', '<=', '>='):
            e = sub(x, y)
            c = dict((a, k) for a, k in (e[2] if e[0] == 'lin' else ())).get(self.th, 0)
            rest = sub(e, mulc(self.th, c))
            dev = self.dev(eng, st)
            s = 1 if same(rest, dev) else -1 if same(mulc(rest, -1), dev) else 0
            if s and abs(c) == 1:
                if s < 0: o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[o]; c = -c
                if not taken: o = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[o]
                # dev + c*th  o  0
                if c == 1: settag(st, late=o in ('<', '<='))
                else: settag(st, gap=o in ('>', '>='))
            elif self.F0.short == 'addFrame': self.ck(False, 'deviation is frame time minus ring time', eng, ins, 'the amount compared with the tolerance is not the difference between the time of the frame and that of the write position')
        if o in ('>', '<='): o, x, y = {'>': '<', '<=': '>='}[o], y, x
        if self.idx_of(x) is None and o in ('!=', '=='): x, y = y, x
        if self.idx_of(x) is None or o not in ('<', '>=', '!=', '=='): return
        if not eng.ent_eq(st, y, self.val(eng, st, A + 'channels')): return
        end = (o in ('>=', '==')) == taken
        if end and not t['total'] and t['scan'] == 'no': return False      # there is at least one channel
        if end: settag(st, idx=None, segs=(), total=None, scan='no' if t['scan'] == 'ok' else 'bad', pend=(t['pend'] + (t['total'] or ()))[:4])
        else: settag(st, idx=x, segs=())

    def on_backedge(self, eng, st, G, head):
        t = tg(st)
        if t['idx'] is None: return
        if (eng.frame, G.id, head) != (self.idx_of(t['idx']) or ())[:3]: return
        free = not any(mentions(y, t['idx']) for x in t['segs'] for y in x)
        ok = self.scan_step_ok(eng, st, G, head) and t['scan'] in ('no', 'ok') and free and (not t['total'] or t['total'] == t['segs'])
        settag(st, scan='ok' if ok else 'bad', total=t['segs'], segs=(), idx=None)

    def on_store(self, eng, st, ins, L, v):
        if L == self.fld(eng, A + 'syncTimestamp'): settag(st, sync=True)
        if L[0] == 'm' and L[1] == ('d', eng.root_this) and L[2] in (REAR, FRONT, EL): self.judge(eng, st, ins)
        if L[0] == 'm' and L[1] == ('d', eng.root_this) and L[2] in (REAR, FRONT, EL) and any(f[0].short == 'doFlush' for f in eng.stack): settag(st, flushed=True)

    def dev(self, eng, st):
        ts = eng.load(st, ('m', ('d', eng.load(st, self.fld(eng, A + 'inputFrame'))), 'Frame::presentationTime'))
        sy = eng.load(st, self.fld(eng, A + 'syncTimestamp'))
        return sub(ts, add(sy, op('/', op('*', self.r0, C(1000000)), op('*', self.bps, self.rate))))

    def on_exit_root(self, eng, st, G, val):
        self.judge(eng, st)
        t = tg(st)
        r, f, e = (self.val(eng, st, x) for x in (REAR, FRONT, EL))
        p, q = self.sums(t)
        if t['flushed'] and G.short != 'doFlush': pass       # the lock is released in between: doFlush is judged on its own
        elif t['flushed']:
            ok = eng.ent_eq(st, e, C(0)) and eng.ent_eq(st, r, f)
            self.ck(ok, 'a flush empties the ring', eng, None, 'a flush leaves the ring with positions and fill level that do not say "empty"')
            sy = eng.load(st, self.fld(eng, A + 'synchronized'), 'bool')
            self.ck(eng.truth(st, sy) is False, 'a flush restarts the time line', eng, None, 'positions restart at zero after a flush but the time they are relative to is kept')
        else:
            self.ck(t['scan'] == 'no', 'every channel is transferred', eng, None, '%s does not transfer every channel' % G.name)
            ok = eng.ent_eq(st, r, add(self.r0, p)) and eng.ent_eq(st, f, add(self.f0, q))
            self.ck(ok, 'positions advance by what was copied', eng, None, '%s changes the write or read position by another amount than it copied' % G.name)
            self.ck(eng.ent_eq(st, e, add(self.e0, sub(p, q))), 'fill level follows the copies', eng, None, '%s changes the fill level by another amount than it copied' % G.name)
        if G.short == 'addFrame': self.exit_add(eng, st, t)
        if G.short == 'getFront': self.exit_get(eng, st, t, val)
        if G.short == 'removeFrame':
            self.ck(eng.truth(st, eng.load(st, self.fld(eng, A + 'fillNewFrame'), 'bool')) is True, 'a released frame is replaced', eng, None, 'the frame handed out stays the current one after it was released')

    def samples(self, n):
        """factor of bytes per sample in an amount"""
        n = strip(n)
        if n[0] == 'op' and n[1] == '*':
            a, b = strip(n[2]), strip(n[3])
            if a == self.bps: return b
            if b == self.bps: return a
        return None

    def exit_add(self, eng, st, t):
        inp = eng.load(st, self.fld(eng, A + 'inputFrame'))
        sil = eng.load(st, self.fld(eng, A + 'dummyFrame'))
        mv = t['moved']
        frames = [x[1] for x in mv]
        ok = all(x[0] == 'in' for x in mv) and frames.count(inp) <= 1 and frames.count(sil) <= 1 and len(frames) == frames.count(inp) + frames.count(sil) and (sil not in frames or inp not in frames or frames.index(sil) < frames.index(inp))
        self.ck(ok, 'silence first, then the frame, once', eng, None, 'the frame (or the silence before it) is queued twice, or in the wrong order')
        for d, fr, n in mv:
            s = self.samples(n)
            if fr == inp:
                w = eng.load(st, ('m', ('d', inp), 'AudioFrame::samples'), 'unsigned int')
                self.ck(s is not None and eng.ent_eq(st, s, w), 'all samples of the frame are queued', eng, None, 'the amount queued is not the number of samples of the frame')
                self.ck(t['late'] is False, 'overlapping frames are refused', eng, None, 'a frame is queued on a path that did not establish that it is not from the past')
            elif fr == sil:
                self.ck(t['gap'] is True, 'silence only fills a gap', eng, None, 'silence is inserted although the frame is not known to be late beyond the tolerance')
                dev = self.dev(eng, st)
                self.ck(s is not None and same(s, op('/', op('*', dev, self.rate), C(1000000))), 'silence is as long as the gap', eng, None, 'the amount of silence inserted is not the length of the gap')
                self.ck(s is not None and self.silence is not None and (eng.ent_le(st, s, self.silence) or eng.ent_le(st, n, self.silence)), 'silence stays within the silent frame', eng, None, 'silence is read past the end of the silent frame')
        if inp not in frames:
            room = False
            w = eng.load(st, ('m', ('d', inp), 'AudioFrame::samples'), 'unsigned int')
            for x in st.facts:
                if x[0] == 'ge' and (self.e0 in atoms(x[1]) or EL in repr(x[1])) and LEN in repr(x[1]): room = True
            self.ck(t['late'] is True or t['flushed'] or room, 'no frame is dropped without a reason', eng, None, 'a frame is dropped although it is neither from the past nor beyond a discontinuity and the ring was not found full')
        elif t['gap'] is True: self.ck(sil in frames, 'a gap is filled', eng, None, 'a frame after a gap is queued without the silence that keeps its place in time')
        if inp in frames: self.ck(t['gap'] is not None, 'a gap is filled', eng, None, 'a frame is queued on a path that did not look for a gap before it')
        if t['sync'] and not t['flushed']:
            was = eng.truth(st, ('init', self.fld(eng, A + 'synchronized'), 0))
            ts = eng.load(st, ('m', ('d', inp), 'Frame::presentationTime'))
            self.ck(was is False and eng.ent_eq(st, eng.load(st, self.fld(eng, A + 'syncTimestamp')), ts), 'the time line starts at the first frame', eng, None, 'the time the positions are relative to is moved while there is data, or not set to the time of the first frame')
        sy = eng.truth(st, eng.load(st, self.fld(eng, A + 'synchronized'), 'bool'))
        if inp in frames: self.ck(sy is True, 'the time line starts at the first frame', eng, None, 'a frame is queued without the time line having been started')

    def exit_get(self, eng, st, t, val):
        out = eng.load(st, self.fld(eng, A + 'outputFrame'))
        fill0 = eng.truth(st, ('init', self.fld(eng, A + 'fillNewFrame'), 0))
        fill1 = eng.truth(st, eng.load(st, self.fld(eng, A + 'fillNewFrame'), 'bool'))
        if t['moved']:
            ok = len(t['moved']) == 1 and t['moved'][0][0] == 'out' and t['moved'][0][1] == out
            self.ck(ok and fill0 is True, 'one frame is extracted per release', eng, None, 'data is extracted although the frame handed out before was not released, or more than once')
            s = self.samples(t['moved'][0][2])
            w = eng.load(st, ('m', ('d', out), 'AudioFrame::samples'), 'unsigned int')
            self.ck(s is not None and eng.ent_eq(st, s, w), 'a whole frame is extracted', eng, None, 'the amount extracted is not the number of samples the frame announces')
            self.ck(t['stamp'] == 'ok', 'extracted frames carry the time of the read position', eng, None, 'the time given to an extracted frame is not that of the first sample in it')
            self.ck(t['org'] is True, 'extracted frames carry the moment of origin', eng, None, 'an extracted frame keeps the moment of origin of an older one')
            self.ck(fill1 is False, 'one frame is extracted per release', eng, None, 'the next call would extract again although this frame was not released')
            self.ck(eng.ent_eq(st, val, out), 'the extracted frame is returned', eng, None, 'data is extracted and not handed out: it is lost')
        elif eng.truth(st, val) is not False:
            self.ck(fill0 is False and eng.ent_eq(st, val, out), 'no frame without data', eng, None, 'a frame is handed out as the next one although no data was extracted into it')


def capacity(P, rep):
    """samples the silent frame can hold, as a term over the fields of the ring"""
    F = P.fn(A + 'setup')
    if not F: return None
    got = []

    class S(Scan):
        def init(self): return ()
        def inline(self, eng, st, G, ins): return G.cls == 'AudioCircularBuffer'
        def on_call(self, eng, st, ins, fn, obj, args, cands):
            if fn.endswith('PlanarAudioFrame::createNew'): return ('made', eng.where(ins), eng.num(eng.rvalue(st, args[2])))
            return NotImplemented
        def on_store(self, eng, st, ins, L, v):
            if L[0] == 'm' and L[2] == A + 'dummyFrame': got.append(v)
    eng = Engine(P, S()); this = ('arg', 'this', -1); eng.root_this = this; eng.atype[this] = 'AudioCircularBuffer *'
    eng.run(F[0], this)
    vs = {strip(v[2]) for v in got if v[0] == 'made'}
    return vs.pop() if len(vs) == 1 else None


def run(rep, P, tier):
    sil = capacity(P, rep)
    kinds = set()
    for n in ('addFrame', 'getFront', 'removeFrame', 'doFlush'):
        F = P.fn(A + n)
        if not F: raise AnalysisBroken(A + n + ' is gone')
        G = F[0]
        cl = Cl(rep, G, sil)
        this = ('arg', 'this', -1); eng = Engine(P, cl, {this: 'AudioCircularBuffer'}); eng.root_this = this; eng.atype[this] = 'AudioCircularBuffer *'
        st = State(); st.client = cl.init()
        eng.stack.append((G, 'r', this)); cl.start(eng, st); eng.stack.pop()
        eng.run(G, this=this, st=st)
        rep.funcs |= {P.funcs[i].name for i in eng.visited_funcs}
        kinds |= cl.kinds
    for k in ('pieces tile the frame and the ring', 'amount checked before the transfer', 'silence stays within the silent frame', 'extracted frames carry the time of the read position', 'a flush empties the ring', 'a gap is filled'):
        rep.floor('decided: ' + k, 1 if k in kinds else 0, 1)
