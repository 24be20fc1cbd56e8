"""Q02: a published frame wakes every consumer of the queue, and a sliced picture is queued whole, slice by slice, in order."""
from ..engine import Engine
from ..lin import C, add, sub, atoms
from ..scan import Scan
from ..facts import AnalysisBroken

RULE = ('scan certificates over the consumer list of a queue in every implementation of frame publication (each consumer pushed once onto the list that is returned); path analysis of the slicing loop '
        '(every slice of the picture visited in order; per slice: free slot taken, slice length checked against the slot, exactly the bytes of that slice copied, length, size and the four stamps set, and only then the write index advanced once); '
        'per encoder: picture cleared before its first slice, every unit the codec returned appended with its own length, refusal reported')
LEVEL = 'other'
ASSUME = ['index arithmetic of the queue as decided by Q01', 'every slot of the queue is a frame of the size the queue was set up with']

CD = 'FrameQueue::connectionData'
R, M = 'FrameQueue::rear', 'AVFramedQueue::max'
NUM = 'SlicedVideoFrame::pointedSliceNum'
STAMPS = {'Frame::presentationTime': 'presentation time', 'Frame::decodeTime': 'decode time', 'Frame::originTime': 'origin time', 'Frame::sequenceNumber': 'sequence number',
          'VideoFrame::width': 'width', 'VideoFrame::height': 'height'}


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def contents(st, L):
    n = 0
    while n < 5:
        v = st.store.get(L)
        if v is not None and v[0] == 'copyof': L = v[1]; n += 1
        else: return L
    return L


class Wake(Scan):
    K = 120
    max_depth = 8

    def __init__(self, rep, F0, sliced):
        super().__init__()
        self.rep, self.F0, self.sliced = rep, F0, sliced
        self.copies = any(e['op'] == 'call' and (e.get('fn') or '').rsplit('::', 1)[-1] == 'pushBack' for e in F0.ins.values())

    def init(self): return tuple(sorted(dict(scan='no', el=None, vec=None, pushed=0, taken=False).items()))

    def inline(self, eng, st, G, ins): return not (self.sliced and G.short == self.sliced) and G.short not in ('clear', 'pushBackSliceGroup', 'pushBack', 'fillWithValue')

    def isreaders(self, eng, st, L):
        L = contents(st, L)
        return L[0] == 'm' and L[2] == 'ConnectionData::readers'

    def on_branch(self, eng, st, ins, v, taken):
        ev = self.scan_event(eng, st, v, taken)
        if ev is None or not self.isreaders(eng, st, ev[1]): return
        t = tg(st)
        if ev[0]: settag(st, scan='done' if t['scan'] in ('no', 'ok') else t['scan'], el=None)
        else: settag(st, el=ev[2], pushed=0)

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        t = tg(st)
        if s in ('pushBack', 'forcePushBack'):
            x = st.copy()
            settag(st, taken=True); settag(x, taken=False)
            return [(st, C(1)), (x, C(0))]
        if s in ('push_back', 'emplace_back') and t['el'] is not None and obj and obj[0] == 'lv':
            v = eng.rvalue(st, args[0])
            want = eng.load(st, ('m', t['el'], 'ReaderData::rFilterId'))
            ok = v == want or eng.ent_eq(st, v, want)
            vec = contents(st, obj[1])
            if ok and t['vec'] in (None, vec): settag(st, pushed=min(3, t['pushed'] + 1), vec=vec)
            else: settag(st, pushed=-9)
        return NotImplemented

    def on_backedge(self, eng, st, G, head):
        t = tg(st)
        if t['el'] is None: return
        settag(st, scan='ok' if t['scan'] in ('no', 'ok') and t['pushed'] == 1 and self.scan_step_ok(eng, st, G, head) else 'bad', el=None)

    def on_exit_root(self, eng, st, G, val):
        t = tg(st)
        w = '%s:%d' % (G.file, G.line)
        if self.copies and not t['taken'] and t['scan'] == 'no': return      # the frame was not taken
        self.rep.check(t['scan'] == 'done', 'every consumer is woken', G.name, w, '%s does not report every consumer of the queue exactly once: a filter is never told that a frame is there' % G.name)
        if t['vec'] is not None and val is not None:
            v, L, n = val, None, 0
            while v is not None and n < 6:
                n += 1
                if v[0] == 'copyof': L = contents(st, v[1]); break
                if v[0] in ('contv', 'snap') and len(v) > 1: L = v[1]; break
                if v[0] == 'lv': L = contents(st, v[1]); break
                if v[0] == 'hv': L = v[2]; break
                if v[0] == 'obj': L = ('fresh',); break
                break
            self.rep.check(L is None or L == t['vec'], 'every consumer is woken', G.name, w, '%s returns another list than the one the consumers were put in' % G.name)


class Slices(Scan):
    split_mod = True
    K = 200
    max_depth = 8
    max_steps = 300000

    def __init__(self, rep, F0):
        super().__init__()
        self.rep, self.F0 = rep, F0
        self.kinds = set()

    T0 = dict(idx=None, slot=None, got=(), copied=None, length=None, adv=0, scan='no', taken=0)

    def init(self): return tuple(sorted(self.T0.items()))

    def ck(self, ok, kind, eng, ins, msg):
        self.kinds.add(kind)
        self.rep.check(ok, kind, self.F0.name, eng.where(ins) if ins is not None else '%s:%d' % (self.F0.file, self.F0.line), msg)

    def fld(self, eng, f): return ('m', ('d', eng.root_this), f)

    def g(self, eng, st, f): return eng.note_type(eng.load(st, self.fld(eng, f), 'unsigned long'), 'unsigned long')

    def invs(self, eng, st):
        r, f, m = (self.g(eng, st, x) for x in (R, 'FrameQueue::front', M))
        return [add(sub(m, r), C(-1)), add(sub(m, f), C(-1)), add(m, C(-2))]

    def after_havoc(self, eng, st, F, head, fields):
        super().after_havoc(eng, st, F, head, fields)
        for x in self.invs(eng, st): st.facts = st.facts | {('ge', x)}

    def on_load(self, eng, st, ins, loc, val):
        if loc[0] == 'i' and loc[1][0] == 'm' and loc[1][2] == 'AVFramedQueue::frames': st.facts = st.facts | {('ne', val)}

    def drop(self, eng): return any(f[0].short in ('flush', 'doFlush') for f in eng.stack)

    def input(self, eng, st): return eng.load(st, self.fld(eng, 'SlicedVideoFrameQueue::inputFrame'))

    def num(self, eng, st): return eng.num(eng.load(st, ('m', ('d', self.input(eng, st)), NUM), 'int'))

    def slotof(self, v):
        while v[0] == 'dyn': v = v[1]
        if v[0] == 'init' and v[1][0] == 'i' and v[1][1][0] == 'm' and v[1][1][2] == 'AVFramedQueue::frames': return v
        return None

    def use(self, eng, st, f, ins):
        """the slot being filled"""
        t = tg(st)
        if t['slot'] is None:
            r = self.g(eng, st, R)
            self.ck(eng.ent_eq(st, f[1][2], r), 'the slice goes into the write slot', eng, ins, 'a slice is written into another slot than the one that is published next')
            settag(st, slot=f)
        return tg(st)['slot'] == f

    def slicefield(self, eng, st, v, f):
        """index i when v is field f of slice i of the picture"""
        if v[0] != 'init' or v[1][0] != 'm' or v[1][2] != f: return None
        B = v[1][1]
        if B[0] == 'i': return B[2]
        return None

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        t = tg(st)
        f = None
        if obj is not None:
            p = obj
            if p[0] == 'lv' and p[1][0] == 'd': p = p[1][1]
            f = self.slotof(p)
        if s in ('getDataBuf',) and f is not None: return ('buf', f)
        if s in ('getMaxLength', 'getMaxSize') and f is not None: return eng.note_type(('maxlen', f), 'unsigned int')
        if s == 'setLength' and f is not None:
            if self.use(eng, st, f, ins): settag(st, length=eng.num(eng.rvalue(st, args[0])))
            return ('void',)
        if s in ('memcpy', 'memmove') and len(args) >= 3:
            d, src, n = (eng.rvalue(st, a) for a in args[:3])
            n = eng.num(n)
            if d[0] == 'buf' and self.use(eng, st, d[1], ins):
                i, j = self.slicefield(eng, st, src, 'Slice::data'), self.slicefield(eng, st, n, 'Slice::dataSize')
                ok = t['idx'] is not None and i is not None and j is not None and eng.ent_eq(st, i, t['idx']) and eng.ent_eq(st, j, t['idx'])
                self.ck(ok, 'exactly the bytes of the slice are queued', eng, ins, 'the bytes copied into the frame are not those of the slice being queued')
                cap = self.g(eng, st, 'SlicedVideoFrameQueue::maxSliceSize') if False else None
                fit = self.fits(eng, st, n, d[1])
                self.ck(fit, 'a slice never exceeds its frame', eng, ins, 'a slice is copied into a frame without its length having been checked against what the frame holds')
                self.ck(t['copied'] is None and t['adv'] == 0, 'a slice is queued once', eng, ins, 'a slice is copied twice, or after it was published')
                settag(st, copied=n)
            elif d[0] != 'buf': self.ck(False, 'the slice goes into the write slot', eng, ins, 'slice data is copied outside the slots of the queue')
            return ('void',)
        return NotImplemented

    def fits(self, eng, st, n, f):
        if eng.ent_le(st, n, ('maxlen', f)): return True
        for k in ('SlicedVideoFrameQueue::maxSliceSize',):
            if eng.ent_le(st, n, eng.num(eng.load(st, self.fld(eng, k), 'unsigned int'))): return True
        return False

    def on_store(self, eng, st, ins, L, v):
        t = tg(st)
        if L == self.fld(eng, R) and not self.drop(eng):
            r, m = self.g(eng, st, R), self.g(eng, st, M)
            step = (eng.ent_eq(st, v, add(r, C(1))) and eng.ent_le(st, add(r, C(2)), m)) or (eng.ent_eq(st, v, C(0)) and eng.ent_eq(st, add(r, C(1)), m))
            self.ck(step, 'a slice is queued once', eng, ins, 'the write index does not advance by exactly one slot per slice')
            ok = t['copied'] is not None and t['length'] is not None and eng.ent_eq(st, t['copied'], t['length'])
            self.ck(ok, 'a slice is complete before it is published', eng, ins, 'a slot is published before the bytes and the length of its slice are in place')
            miss = [STAMPS[x] for x in STAMPS if x not in t['got']]
            self.ck(not miss, 'slices carry the stamps of their picture', eng, ins, 'a slice is published without the %s of its picture' % ', '.join(miss))
            settag(st, adv=min(3, t['adv'] + 1))
        if L[0] == 'm' and L[2] in STAMPS:
            f = self.slotof(L[1][1]) if L[1][0] == 'd' else None
            if f is not None and self.use(eng, st, f, ins):
                w = eng.load(st, ('m', ('d', self.input(eng, st)), L[2]))
                self.ck(v == w or eng.ent_eq(st, v, w), 'slices carry the stamps of their picture', eng, ins, 'the %s of a slice is not that of its picture' % STAMPS[L[2]])
                settag(st, got=tuple(sorted(set(tg(st)['got']) | {L[2]})))

    def on_branch(self, eng, st, ins, v, taken):
        if v[0] != 'cmp': return
        o, x, y = v[1:]
        if o in ('>', '<='): o, x, y = {'>': '<', '<=': '>='}[o], y, x
        if o not in ('<', '>=', '!=', '=='): return
        if o in ('!=', '==') and self.idx_of(x) is None: x, y = y, x
        if self.idx_of(x) is None: return
        if not eng.ent_eq(st, y, self.num(eng, st)): return
        end = (o in ('>=', '==')) == taken
        t = tg(st)
        if end: settag(st, **dict(self.T0, scan='done' if t['scan'] in ('no', 'ok') else 'bad'))
        else: settag(st, **dict(self.T0, scan=t['scan'], idx=x))

    def on_backedge(self, eng, st, G, head):
        t = tg(st)
        if t['idx'] is None or self.drop(eng): return
        k = (eng.frame, G.id, head)
        if k != (self.idx_of(t['idx']) or (None,))[:3]: return
        if t['adv'] == 0:
            # only a slice that does not fit may be left out
            n = eng.load(st, ('m', ('i', ('m', ('d', self.input(eng, st)), 'SlicedVideoFrame::pointedSlices'), t['idx']), 'Slice::dataSize'), 'unsigned int')
            big = any(f[0] in ('ge', 'gt') and ('Slice::dataSize' in repr(f[1])) and self.over(eng, st, f[1], t['idx']) for f in st.facts)
            self.ck(big, 'every slice is queued', eng, None, 'a slice of the picture that fits is left out')
            ok = big
        else:
            self.ck(t['adv'] == 1, 'a slice is queued once', eng, None, 'a slice advances the write index %d times' % t['adv'])
            ok = t['adv'] == 1
        ok = ok and self.scan_step_ok(eng, st, G, head)
        settag(st, **dict(self.T0, scan='ok' if ok and t['scan'] in ('no', 'ok') else 'bad'))

    def over(self, eng, st, lin_, idx):
        cap = self.g(eng, st, 'SlicedVideoFrameQueue::maxSliceSize')
        for a in atoms(lin_):
            if a[0] == 'init' and a[1][0] == 'm' and a[1][2] == 'Slice::dataSize':
                for b in atoms(lin_):
                    if (b == cap or b[0] == 'maxlen') and eng.ent_le(st, add(b, C(1)), a): return True
        return False

    def on_exit_root(self, eng, st, G, val):
        t = tg(st)
        empty = False
        self.ck(t['scan'] == 'done' or empty, 'every slice is queued', eng, None, '%s does not go through all slices of the picture in order' % G.name)
        self.ck(eng.ent_eq(st, self.num(eng, st), C(0)), 'a queued picture is forgotten', eng, None, '%s leaves the slices of the picture behind: they are queued again with the next one' % G.name)


def unit(eng, v):
    """(element, field) of a value read from an array of coded units"""
    while v[0] == 'op' and len(v) > 2 and v[1] in ('u', 'cast'): v = v[2]
    if v[0] != 'init' or v[1][0] != 'm': return None
    return v[1][1], v[1][2]


class Enc(Scan):
    """encoders handing slices over"""
    K = 100
    max_depth = 4

    def __init__(self, rep, F0):
        super().__init__()
        self.rep, self.F0 = rep, F0
        self.kinds = set()
        self.n = 0

    def init(self): return tuple(sorted(dict(clr=(), idx=None, app=0, scan='no', bound=None, cnt=None, refused=False).items()))

    def inline(self, eng, st, G, ins): return G.cls == self.F0.cls and len(G.blocks) <= 20 or G.cls in ('SlicedVideoFrame',) and G.short == 'clear'

    def ck(self, ok, kind, eng, ins, msg):
        self.kinds.add(kind)
        self.rep.check(ok, kind, self.F0.name, eng.where(ins) if ins is not None else '%s:%d' % (self.F0.file, self.F0.line), msg)

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        t = tg(st)
        p = None
        if obj is not None: p = obj[1][1] if obj[0] == 'lv' and obj[1][0] == 'd' else obj
        while p is not None and p[0] == 'dyn': p = p[1]
        if s == 'clear' and fn.startswith('SlicedVideoFrame'):
            settag(st, clr=t['clr'] + (p,))
            return ('void',)
        if s in ('x264_encoder_encode', 'x265_encoder_encode'):
            r = eng.fresh(st, ins)
            eng.note_type(r, 'int')
            for a in args[1:3]: eng.havoc_arg(st, a, 'void *', ins)
            ad = eng.rvalue(st, args[2])
            if ad[0] == 'addr': settag(st, cnt=ad[1])
            return r
        if s == 'setSlice':
            self.n += 1
            self.ck(p in t['clr'], 'a picture starts without old slices', eng, ins, 'slices are appended to a frame that may still hold those of a picture that was not handed on')
            a, b = (eng.rvalue(st, x) for x in args[:2])
            x, y = unit(eng, a), unit(eng, b)
            ok = x is not None and y is not None and x[0] == y[0] and x[1].endswith('payload') and y[1].rsplit('::', 1)[-1] in ('i_payload', 'sizeBytes') and not x[1].endswith('i_payload')
            if ok:
                i = x[0][2] if x[0][0] == 'i' else x[0][1] if x[0][0] == 'd' else None
                k = t['idx']
                base = sub(i, k) if i is not None and k is not None else None
                ok = base is not None and (x[0][0] == 'd' and eng.num(k) not in atoms(base) and len(atoms(base)) == 1 or x[0][0] == 'i' and base == C(0))
            self.ck(ok, 'each coded unit is appended with its own length', eng, ins, 'a unit is appended with the bytes or the length of another one')
            settag(st, app=min(3, t['app'] + 1))
            x, y = st.copy(), st
            settag(x, refused=True)
            return [(y, C(1)), (x, C(0))]
        return NotImplemented

    def on_branch(self, eng, st, ins, v, taken):
        if v[0] != 'cmp': return
        t = tg(st)
        if t['cnt'] is None: return
        o, x, y = v[1:]
        if o in ('>', '<='): o, x, y = {'>': '<', '<=': '>='}[o], y, x
        if self.idx_of(x) is None and o in ('!=', '=='): x, y = y, x
        if self.idx_of(x) is None or o not in ('<', '>=', '!=', '=='): return
        c = eng.load(st, t['cnt'])
        if not (y == c or eng.ent_eq(st, y, c)): return
        end = (o in ('>=', '==')) == taken
        if end: settag(st, scan='done' if t['scan'] in ('no', 'ok') else t['scan'], idx=None)
        else: settag(st, idx=x, app=0)

    def on_backedge(self, eng, st, G, head):
        t = tg(st)
        if t['idx'] is None: return
        ok = t['app'] == 1 and not t['refused'] and self.scan_step_ok(eng, st, G, head) and t['scan'] in ('no', 'ok')
        settag(st, scan='ok' if ok else 'bad', idx=None)

    def on_exit_root(self, eng, st, G, val):
        r = eng.truth(st, val)
        t = tg(st)
        if r is not False:
            self.ck(t['scan'] == 'done', 'a coded picture is handed over whole', eng, None, '%s reports success on a path that did not append every unit of the picture' % G.name)
            self.ck(not t['refused'], 'a refused unit is reported', eng, None, '%s reports success although a unit did not fit' % G.name)


def run(rep, P, tier):
    n = 0
    for G in sorted(P.funcs.values(), key=lambda g: g.name):
        if G.short == 'addFrame' and P.isa(G.cls or '', 'FrameQueue'):
            n += 1
            rep.funcs.add(G.name)
            cl = Wake(rep, G, None)
            eng = Engine(P, cl); this = ('arg', 'this', -1); eng.root_this = this; eng.atype[this] = G.cls + ' *'
            eng.run(G, this)
    rep.floor('publication operations', n, 3)
    F = P.fn('SlicedVideoFrameQueue::addFrame')
    if not F: raise AnalysisBroken('SlicedVideoFrameQueue::addFrame is gone')
    G = F[0]
    cl = Slices(rep, G)
    eng = Engine(P, cl, {('arg', 'this', -1): 'SlicedVideoFrameQueue'}); this = ('arg', 'this', -1); eng.root_this = this; eng.atype[this] = G.cls + ' *'
    from ..engine import State
    st = State(); st.client = cl.init()
    eng.stack.append((G, 'r', this))
    for x in cl.invs(eng, st): st.facts = st.facts | {('ge', x)}
    eng.stack.pop()
    eng.run(G, this=this, st=st)
    rep.funcs |= {P.funcs[i].name for i in eng.visited_funcs}
    for k in ('exactly the bytes of the slice are queued', 'a slice is complete before it is published', 'every slice is queued', 'a queued picture is forgotten'):
        rep.floor('decided: ' + k, 1 if k in cl.kinds else 0, 1)
    m = 0
    callers = sorted({G.id for G in P.funcs.values() for e in G.ins.values() if e['op'] == 'call' and e.get('fn') == 'SlicedVideoFrame::setSlice' and P.isa(G.cls or '', 'BaseFilter')})
    for x in callers:
        G = P.funcs[x]
        rep.funcs.add(G.name)
        cl = Enc(rep, G)
        eng = Engine(P, cl); this = ('arg', 'this', -1); eng.root_this = this; eng.atype[this] = G.cls + ' *'
        eng.run(G, this)
        if cl.n: m += 1
    rep.floor('encoders handing over slices', m, 2)
