"""V01: channels, crops and conversions write the pixels their settings say, inside both images."""
from ..engine import Engine, State
from ..lin import C, add, sub, atoms, mentions
from ..facts import AnalysisBroken
from ..scan import Scan
from .dash import Narrow, method, tg, settag, addr_of, nocast

RULE = ('symbolic execution of mixer, splitter and resampler over every path and every round of their loops, with a model of images (size, memory, what they show) and their rectangles; '
        'bounds by linear entailment, geometry as expressions')
LEVEL = 'other'
ASSUME = ['frames hold as many bytes as their size and pixel format say', 'products of coordinates stay below 2^31', 'libav accepts the same image sizes in sws_getContext and av_image_fill_arrays',
          'OpenCV and libswscale do what they document']

THIS = ('arg', 'this', -1)
FCLS = ('Frame', 'VideoFrame', 'InterleavedVideoFrame', 'SlicedVideoFrame')
GET = {'getLength': ('len', 'unsigned int'), 'getWidth': ('w', 'int'), 'getHeight': ('h', 'int'), 'getPresentationTime': ('pts', None), 'getDecodeTime': ('dts', None), 'getOriginTime': ('ots', None),
       'getSequenceNumber': ('seq', 'unsigned int'), 'getPixelFormat': ('pix', None), 'getConsumed': ('cons', 'bool'), 'isConsumed': ('cons', 'bool')}
SET = {'setLength': ('len',), 'setSize': ('w', 'h'), 'setPresentationTime': ('pts',), 'setDecodeTime': ('dts',), 'setOriginTime': ('ots',), 'setSequenceNumber': ('seq',), 'setPixelFormat': ('pix',), 'setConsumed': ('cons',)}
CV_8UC3 = 16


def undyn(p):
    while p[0] == 'dyn': p = p[1]
    return p


def fld(p, f): return ('m', ('d', undyn(p)), 'NF::' + f)


def product(v):
    """sorted factors of a product of floating point quantities, conversions removed"""
    if v[0] == 'op' and v[1] in ('*', 'mul', 'fmul'): return product(v[2]) + product(v[3])
    if v[0] == 'op' and v[1] in ('i2f', 'f2d', 'narrow'): return product(v[2])
    return [v]


class Img(Narrow, Scan):
    max_depth = 8
    K = 60

    def __init__(self, mod):
        Narrow.__init__(self); Scan.__init__(self)
        self.mod = mod
        self.exits = []
        self.rounds = []

    def init(self): return tuple(sorted(dict(draw=(), clear=(), call=(), done=()).items()))

    def inline(self, eng, st, G, ins): return self.mod in G.file or G.name.startswith(('ChannelConfig::', 'CropConfig::'))

    # ---------------------------------------------------------------- images
    def mat(self, eng, st, x):
        """location of the image a value stands for"""
        if x[0] in ('lv', 'copyof'): return x[1]
        if x[0] == 'addr': return x[1]
        return None

    def mf(self, eng, st, L, f):
        return eng.load(st, ('m', L, 'cv::Mat::' + f))

    def newobj(self, eng, st, ins, cls, **kw):
        nv = ('new', eng.frame, ins['i'])
        for k in [k for k in st.store if eng.under(k, ('d', nv)) or k == ('d', nv)]: del st.store[k]
        for f, v in kw.items(): st.store[('m', ('d', nv), cls + '::' + f)] = v
        return ('copyof', ('d', nv))

    def assign(self, eng, st, L, kw):
        for f, v in kw.items(): st.store[('m', L, 'cv::Mat::' + f)] = v

    def desc(self, eng, st, x):
        """(image, rows, cols, memory, what it shows, rectangle) of an image or part of one"""
        x0 = x
        if x[0] in ('copyof', 'lv') and st.store.get(x[1], ('?',))[0] == 'view': x = st.store[x[1]]
        if x[0] == 'view': return x[1:]
        L = self.mat(eng, st, x)
        if L is None: return None
        L = self.canon(eng, st, L)
        r, c = self.mf(eng, st, L, 'rows'), self.mf(eng, st, L, 'cols')
        return (L, r, c, self.mf(eng, st, L, 'data'), self.mf(eng, st, L, 'shows'), (C(0), C(0), c, r))

    def canon(self, eng, st, L):
        n = 0
        while n < 8:
            v = st.store.get(L)
            if v is not None and v[0] in ('copyof', 'lv') and not any(k[0] == 'm' and k[1] == L for k in st.store): L = v[1]
            else: return L
            n += 1
        return L

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        w = eng.where(ins)
        t = tg(st)
        A = lambda i: eng.num(eng.rvalue(st, args[i]))
        if obj is not None and fn.split('::')[0] in FCLS:
            p = undyn(addr_of(obj))
            if short in GET:
                f, ty = GET[short]
                v = eng.load(st, fld(p, f), ty)
                if ty: eng.note_type(v, ty)
                return v
            if short in ('getMaxLength', 'getDataBuf'):
                v = ('frame', short, p)
                if short == 'getMaxLength': eng.note_type(v, 'unsigned int')
                return v
            if short in SET:
                for f, i in zip(SET[short], range(len(args))): st.store[fld(p, f)] = A(i)
                return C(0)
        if fn in ('BaseFilter::getFrameTime', 'BaseFilter::getSyncTs'): return ('fld', short)
        if fn == 'BaseFilter::setSyncTs': settag(st, call=t['call'] + (('setSyncTs', (A(0),), w),)); return C(0)
        if short == 'bind': return eng.fresh(st, ins)     # what is bound is not called here
        if fn.startswith('cv::'):
            r = self.cvcall(eng, st, ins, fn, short, obj, args, w, t)
            if r is not NotImplemented: return r
        if fn.startswith(('sws_', 'av_')):
            a = tuple(eng.rvalue(st, x) if x[0] != 'lv' else self.arr(eng, st, x) for x in args)
            v = eng.fresh(st, ins)
            if fn == 'av_image_get_buffer_size': v = ('pcall', fn, None, tuple(eng.num(x) for x in a))
            settag(st, call=t['call'] + ((fn, a, w, v),))
            return v
        return NotImplemented

    def distinct(self, a, b):
        # the two descriptions of images are allocated by the constructor and never changed (checked below)
        f = lambda x: x[1][2].split('::')[-1] if x[0] == 'init' and x[1][0] == 'm' else None
        return {f(a), f(b)} == {'inFrame', 'outFrame'}

    def arr(self, eng, st, x): return eng.rvalue(st, x)

    def cvcall(self, eng, st, ins, fn, short, obj, args, w, t):
        A = lambda i: eng.num(eng.rvalue(st, args[i]))
        n = len(args)
        cls = fn.split('::')[1]
        if cls == 'Size_' and short == 'Size_':
            if n == 2: return self.newobj(eng, st, ins, 'cv::Size_', width=A(0), height=A(1))
            if n == 0: return self.newobj(eng, st, ins, 'cv::Size_', width=C(0), height=C(0))
            if n == 1: return eng.rvalue_copy(st, args[0])
        if cls in ('Rect_',) and short == 'Rect_':
            if n == 4: return self.newobj(eng, st, ins, 'cv::Rect_', x=A(0), y=A(1), width=A(2), height=A(3))
            if n == 1: return eng.rvalue_copy(st, args[0])
        if cls in ('_InputArray', '_OutputArray', '_InputOutputArray') and short == cls and n >= 1:
            d = self.desc(eng, st, args[0])
            if d is not None: return ('view',) + d
            return ('unk', ins['i'])
        if cls == 'Mat' and short == 'Mat':
            if n == 0: return self.newobj(eng, st, ins, 'cv::Mat', rows=C(0), cols=C(0), type=('unk', 'type'), data=C(0), shows=('none',))
            if n == 1: return eng.rvalue_copy(st, args[0])
            nv = ('new', eng.frame, ins['i'])
            tn = (ins.get('pt') or [''])[0]
            if 'Size' in tn:
                h, wd = self.of(eng, st, args[0], 'cv::Size_', ('height', 'width')); k = 1
            elif tn.replace('const ', '') == 'int': h, wd = A(0), A(1); k = 2
            else: return NotImplemented
            ty = A(k) if n > k else ('unk', 'type')
            data = undata(eng.rvalue(st, args[k + 1])) if n > k + 1 else ('own', nv)
            return self.newobj(eng, st, ins, 'cv::Mat', rows=h, cols=wd, type=ty, data=data, shows=('mem', data, h, wd) if n > k + 1 else ('none',))
        if cls == 'Mat' and short == 'operator=' and n == 1 and obj is not None:
            L = self.canon(eng, st, self.mat(eng, st, obj)) if self.mat(eng, st, obj) else None
            pt = (ins.get('pt') or [''])[0]
            if L is None: return NotImplemented
            if 'Scalar' in pt:
                settag(st, clear=t['clear'] + ((L, self.mf(eng, st, L, 'data'), self.mf(eng, st, L, 'rows'), self.mf(eng, st, L, 'cols'), w),))
                return ('lv', L)
            d = self.desc(eng, st, args[0])
            if d is None: return NotImplemented
            T = eng.load(st, ('m', d[0], 'cv::Mat::type'))
            self.assign(eng, st, L, dict(rows=d[1], cols=d[2], data=d[3], shows=d[4], type=T))
            return ('lv', L)
        if cls == 'Mat' and obj is not None and short in ('release', 'create', 'setTo', 'copyTo', 'type', 'operator()', 'step1', 'total', 'size', 'empty'):
            d = self.desc(eng, st, obj)
            if d is None: return NotImplemented
            L = d[0]
            if short == 'release':
                self.assign(eng, st, L, dict(rows=C(0), cols=C(0), data=C(0), shows=('none',))); return C(0)
            if short == 'create' and n >= 3:
                self.assign(eng, st, L, dict(rows=A(0), cols=A(1), type=A(2), data=('own', ins['i']), shows=('none',))); return C(0)
            if short == 'setTo':
                settag(st, clear=t['clear'] + ((L, d[3], d[1], d[2], w),)); return ('lv', L)
            if short == 'type': return eng.load(st, ('m', L, 'cv::Mat::type'))
            if short == 'empty': return NotImplemented
            if short == 'operator()' and n == 1:
                x, y, ww, hh = self.of(eng, st, args[0], 'cv::Rect_', ('x', 'y', 'width', 'height'))
                bx, by, bw, bh = d[5]
                self.note(st, ('rect', (x, y, ww, hh), (bw, bh), w))
                ok = all((eng.ent_le(st, C(0), x), eng.ent_le(st, C(0), y), eng.ent_le(st, C(0), ww), eng.ent_le(st, C(0), hh), eng.ent_le(st, add(x, ww), bw), eng.ent_le(st, add(y, hh), bh)))
                self.rects(eng, st, ins, ok, w)
                return ('view',) + d[:5] + ((add(bx, x), add(by, y), ww, hh),)
            if short == 'copyTo' and n >= 1:
                to = self.desc(eng, st, args[0])
                if to is None: return NotImplemented
                # a whole image takes the size of what is copied to it; a part keeps its own
                whole = to[5] == (C(0), C(0), to[2], to[1])
                if not whole or eng.ent_eq(st, to[1], d[5][3]) and eng.ent_eq(st, to[2], d[5][2]):
                    settag(st, draw=t['draw'] + (('copy', d, to, None, w),))
                else:
                    T = eng.load(st, ('m', L, 'cv::Mat::type'))
                    self.assign(eng, st, to[0], dict(rows=d[5][3], cols=d[5][2], data=('own', ins['i']), shows=('none',), type=T))
                return C(0)
        if fn == 'cv::MatStep::operator unsigned long' or fn.startswith('cv::MatStep::operator'):
            if obj is not None and obj[0] == 'lv' and obj[1][0] == 'm':
                L = self.canon(eng, st, obj[1][1])
                v = ('pcall', 'step', None, (self.mf(eng, st, L, 'cols'),)); 
                c = self.mf(eng, st, L, 'cols')
                return ('lin', 0, ((c, 3),)) if c[0] not in ('c', 'lin') else add(add(c, c), c)
        if fn == 'cv::resize' and n >= 3:
            a, b = self.desc(eng, st, args[0]), self.desc(eng, st, args[1])
            h, wd = self.of(eng, st, args[2], 'cv::Size_', ('height', 'width'))
            if a is None or b is None: return NotImplemented
            pos = eng.ent_le(st, C(1), h) and eng.ent_le(st, C(1), wd)
            self.sized(eng, st, ins, pos, w)
            same = eng.ent_eq(st, b[1], h) and eng.ent_eq(st, b[2], wd)
            T = eng.load(st, ('m', a[0], 'cv::Mat::type'))
            kw = dict(rows=h, cols=wd, shows=('scaled', a[4], a[5], a[1], a[2]), type=T)
            if not same: kw['data'] = ('own', ins['i'])
            self.assign(eng, st, b[0], kw)
            return C(0)
        if fn == 'cv::swap' and n == 2:
            x, y = (self.canon(eng, st, self.mat(eng, st, v)) for v in args)
            F = ('rows', 'cols', 'data', 'shows', 'type')
            p, q = {f: self.mf(eng, st, x, f) for f in F}, {f: self.mf(eng, st, y, f) for f in F}
            self.assign(eng, st, x, q); self.assign(eng, st, y, p)
            return C(0)
        if fn == 'cv::addWeighted' and n >= 6:
            a, b, d = (self.desc(eng, st, args[i]) for i in (0, 2, 5))
            if None in (a, b, d): return NotImplemented
            settag(st, draw=t['draw'] + (('blend', a, d, (b, A(1), A(3), A(4)), w),))
            return C(0)
        if cls in ('Scalar_',): return ('pcall', fn, None, tuple(A(i) for i in range(n)))
        return NotImplemented

    def of(self, eng, st, x, cls, fs):
        if x[0] in ('copyof', 'lv'): return [eng.num(eng.load(st, ('m', x[1], cls + '::' + f), 'int')) for f in fs]
        v = eng.rvalue(st, x)
        return [('fieldof', v, f) for f in fs]

    def note(self, st, x): pass

    def rects(self, eng, st, ins, ok, w): pass

    def sized(self, eng, st, ins, ok, w): pass


def undata(v):
    while v[0] in ('dyn',): v = v[1]
    return v


FLT = [('eq', ('flt', 0.0)), ('eq', add(('flt', 1.0), C(-1)))]
CH = {'width': 1, 'height': 2, 'x': 3, 'y': 4, 'layer': 5, 'enabled': 6, 'opacity': 7}


def member(cls, f): return ('m', ('d', THIS), cls + '::' + f)


def begin(P, cl, cls, facts=()):
    eng = Engine(P, cl, {THIS: cls}); eng.root_this = THIS; eng.atype[THIS] = cls + ' *'
    st = State(); st.client = cl.init(); st.facts = frozenset(facts)
    return eng, st


def run_config(rep, P):
    """what configures channels and layout stores the values given, inside their documented ranges"""
    cls = 'VideoMixer'
    F = method(P, cls, 'configChannel0')
    cl = Img('videoMixer/'); eng, st = begin(P, cl, cls, FLT)
    cc = member(cls, 'channelsConfig')
    got = 0
    for s, v in eng.run(F, this=THIS, st=st):
        p = eng.load(s, ('i', cc, ('arg', F.params[0]['name'], 0)))
        if eng.ent_0(s, v):
            continue
        got += 1
        w = '%s:%d' % (F.file, F.line)
        A = {f: ('arg', F.params[i]['name'], i) for f, i in CH.items()}
        mx = eng.load(s, member(cls, 'maxChannels'))
        for f in CH:
            x = eng.load(s, ('m', ('d', p), 'ChannelConfig::' + f))
            rep.check(x == A[f] or eng.ent_eq(s, x, A[f]), 'settings are taken as given', '%s, %s' % (F.name, f), w, 'an accepted channel configuration does not store the %s given' % f)
        for f, lo, hi in (('width', C(1), C(1)), ('height', C(1), C(1)), ('x', C(0), C(1)), ('y', C(0), C(1)), ('opacity', C(0), C(1)), ('layer', C(0), mx)):
            # comparisons with 0 and 1 are decided on the conditions: > 0 is "at least 1" to the linear domain
            rep.check(eng.ent_le(s, lo, A[f]) and (hi is None or eng.ent_le(s, A[f], hi)), 'settings are within what drawing can use', '%s, range of %s' % (F.name, f), w, 'a channel whose %s is out of range is accepted' % f)
    rep.floor('accepting paths of configChannel0', got, 1)
    rep.funcs |= eng.visited_funcs
    # layout
    F = method(P, cls, 'configure0')
    cl = Img('videoMixer/'); eng, st = begin(P, cl, cls, FLT)
    li = member(cls, 'layoutImg')
    n = 0
    W0, H0 = (eng.load(st, member(cls, x), 'int') for x in ('outputWidth', 'outputHeight'))
    cl.assign(eng, st, li, dict(rows=H0, cols=W0))
    for s, v in eng.run(F, this=THIS, st=st):
        n += 1
        W, H = (eng.load(s, member(cls, x), 'int') for x in ('outputWidth', 'outputHeight'))
        L = cl.canon(eng, s, li)
        w = '%s:%d' % (F.file, F.line)
        rep.check(eng.ent_eq(s, cl.mf(eng, s, L, 'rows'), H) and eng.ent_eq(s, cl.mf(eng, s, L, 'cols'), W), 'the layout image has the size of the layout', F.name, w, 'the image drawn on is not as large as the layout configured')
        if eng.ent_0(s, v): continue
        rep.check(eng.load(s, ('m', L, 'cv::Mat::type')) == C(CV_8UC3), 'the layout image has the size of the layout', F.name + ', type', w, 'the image drawn on has no three bytes per pixel')
        a, b = ('arg', F.params[0]['name'], 0), ('arg', F.params[1]['name'], 1)
        rep.check(W == a and H == b, 'settings are taken as given', F.name, w, 'an accepted layout size is not the one given')
        rep.check(eng.ent_le(s, C(1), W) and eng.ent_le(s, W, C(1920)) and eng.ent_le(s, C(1), H) and eng.ent_le(s, H, C(1080)), 'settings are within what drawing can use', F.name, w, 'a layout larger than the frames of the queue (or empty) is accepted')
    rep.floor('paths of configure0', n, 2)
    rep.funcs |= eng.visited_funcs


class Mixer(Img):
    def __init__(self, P, rep):
        super().__init__('videoMixer/')
        self.P, self.rep = P, rep
        self.cls = 'VideoMixer'
        self.drawn = 0
        self.counters = {}

    def init(self): return tuple(sorted(dict(draw=(), clear=(), call=(), done=(), it=None, outs=()).items()))

    def inline(self, eng, st, G, ins): return super().inline(eng, st, G, ins)

    def nonneg(self, eng, st, v):
        for x in product(v):
            if x[0] == 'flt' and x[1] >= 0: continue
            if x[0] == 'init' and x[1][0] == 'm' and x[1][2] in ('ChannelConfig::x', 'ChannelConfig::y', 'ChannelConfig::width', 'ChannelConfig::height'): continue
            if x[0] in ('init', 'lin', 'c') and eng.ent_le(st, C(0), x): continue
            return False
        return True

    def rects(self, eng, st, ins, ok, w):
        self.rep.check(ok, 'drawing stays inside the images', w.split('(')[-1].rstrip(')'), w, 'a rectangle may reach outside of the image')

    def sized(self, eng, st, ins, ok, w):
        self.rep.check(ok, 'drawing stays inside the images', 'scaling in ' + w.split('(')[-1].rstrip(')'), w, 'an image may be scaled to nothing')

    def on_branch(self, eng, st, ins, v, taken):
        r = self.scan_loop(eng, st, v, taken)
        if r is None: return
        end, loop, L, ver, cur = r
        if L != ('d', ('argp', self.pname, 0)): return
        settag(st, it=None if end else cur, draw=())

    def elem(self, eng, st, it):
        if it[0] == 'iter':
            k = eng.iterkey(it)
            return k, eng.load(st, ('i', it[1], k))
        return None, None

    def counters_now(self, st, eng):
        return [x for k, x in self.hval.items() if k[3] in self.zero.get(k[:3], ()) and self.entry.get(k) == 0]

    def on_backedge(self, eng, st, F, h):
        t = tg(st)
        rep = self.rep
        w = '%s:%d (%s)' % (F.file, F.line, F.name)
        it = t['it']
        mine = it is not None and (it[0] == 'iter' and it[4] == ('lp', eng.frame, h))
        if not mine:
            rep.check(self.scan_step_ok(eng, st, F, h), 'every layer is drawn, from back to front', F.name, w, 'layers are skipped')
            self.outer(eng, st, F, h)
            return
        k, p = self.elem(eng, st, it)
        cc = member(self.cls, 'channelsConfig')
        cfg = eng.load(st, ('i', cc, k))
        has = ('op', 'has', cc, (eng.ver(st, cc), None), k)
        hast = eng.truth(st, has)
        G = lambda f: eng.load(st, ('m', ('d', cfg), 'ChannelConfig::' + f))
        lays = self.counters_now(st, eng)
        on = [c for c in lays if eng.ent_eq(st, G('layer'), c)]
        off = lays and all(eng.truth(st, ('cmp', '==', G('layer'), c)) is False for c in lays)
        en = eng.truth(st, G('enabled'))
        fr = eng.truth(st, p)
        W, H = (eng.load(st, member(self.cls, x), 'int') for x in ('outputWidth', 'outputHeight'))
        d = t['draw']
        first = len(d) > 0
        if d:
            self.drawn += 1
            rep.check(len(d) == 1, 'every channel is drawn once', F.name, d[-1][4], 'a channel is drawn more than once on the same layer')
            rep.check(hast is True and on != [] and en is True and fr is True, 'only what is to be seen is drawn', F.name, d[0][4], 'a channel is drawn that is not configured, not enabled, without frame or of another layer')
            self.geometry(eng, st, d[0], p, G, W, H)
        else:
            hidden = self.hidden(eng, st, G, W, H)
            rep.check(hast is False or off or en is False or fr is False or hidden, 'every channel is drawn once', F.name, w, 'a channel that is configured, enabled, of this layer and has a frame is not drawn')
        # frames accounted for
        acc = hast is True and bool(on)
        self.count(eng, st, F, h, acc)
        self.times(eng, st, F, h, bool(d) or (hast is True and bool(on) and en is True and fr is True), p, w)
        settag(st, draw=(), it=None)

    def hidden(self, eng, st, G, W, H):
        for f, o in (('width', W), ('height', H)):
            for x in self.scaledvals(st, f, o):
                if eng.ent_le(st, x, C(0)): return True
        for f, o in (('x', W), ('y', H)):
            for x in self.scaledvals(st, f, o):
                if eng.ent_le(st, o, x): return True
        return eng.ent_eq(st, G('opacity'), C(0)) or eng.ent_eq(st, G('opacity'), ('flt', 0.0))

    def scaledvals(self, st, f, o):
        """values on this path that are the setting f in pixels of a side of o"""
        out = []
        for fact in st.facts:
            for a in atoms(fact[1]):
                if self.isscaled(a, f, o) and a not in out: out.append(a)
        return out

    def isscaled(self, a, f, o):
        if a[0] != 'op' or a[1] != 'f2i': return False
        ps = product(a[2])
        return len(ps) == 2 and any(x == o for x in ps) and any(x[0] == 'init' and x[1][0] == 'm' and x[1][2] == 'ChannelConfig::' + f for x in ps)

    def geometry(self, eng, st, d, p, G, W, H):
        rep = self.rep
        kind, src, dst, mix, w = d
        wh = w.split('(')[-1].rstrip(')')
        li = self.canon(eng, st, member(self.cls, 'layoutImg'))
        rep.check(dst[0] == li and dst[3] == ('frame', 'getDataBuf', undyn(self.dst)), 'channels are drawn into the frame to be sent', wh, w, 'a channel is not drawn into the output frame')
        cl = tg(st)['clear']
        rep.check(any(c[0] == li and c[1] == dst[3] and c[2] == dst[1] and c[3] == dst[2] for c in cl), 'the layout is empty before channels are drawn', wh, w, 'what the frame held before is not cleared, wholly and after the layout is the output frame')
        x, y, ww, hh = dst[5]
        rep.check(self.isscaled(x, 'x', W) and self.isscaled(y, 'y', H), 'channels are placed where they are configured', wh, w, 'the corner of the channel is not its position in the layout')
        # what is shown
        show = src[4]
        sw, sh = src[2], src[1]
        base = show
        if show[0] == 'scaled':
            base = show[1]
            full = show[2] == (C(0), C(0), show[4], show[3])
            rep.check(full, 'channels are shown whole', wh, w, 'only a part of the frame is scaled')
        gw, gh = eng.load(st, fld(p, 'w'), 'int'), eng.load(st, fld(p, 'h'), 'int')
        rep.check(base[0] == 'mem' and base[1] == ('frame', 'getDataBuf', undyn(p)) and base[2] == gh and base[3] == gw, 'channels show their own frame', wh, w, 'what is drawn is not the frame of the channel, in its size')
        def equals(v, f, o):
            if self.isscaled(v, f, o): return True
            return any(eng.ent_eq(st, v, a) for a in self.scaledvals(st, f, o))
        rep.check(equals(sw, 'width', W) and equals(sh, 'height', H), 'channels have the size they are configured', wh, w, 'the channel is not scaled to its size in the layout')
        def fits(r, s, pos, o):
            if eng.ent_eq(st, r, s) or eng.ent_eq(st, r, sub(o, pos)): return True
            if r[0] != 'op' or r[1] != 'min': return False
            p, q = r[2], r[3]; e = lambda m, n: eng.ent_eq(st, m, n)
            return e(p, s) and e(q, sub(o, pos)) or e(q, s) and e(p, sub(o, pos))
        rep.check(fits(ww, sw, x, W) and fits(hh, sh, y, H), 'channels are cut only where the layout ends', wh, w, 'more of the channel is cut off than what exceeds the layout')
        sx, sy, s2, h2 = src[5]
        rep.check(sx == C(0) and sy == C(0) and eng.ent_eq(st, s2, ww) and eng.ent_eq(st, h2, hh), 'channels are shown from their upper left corner', wh, w, 'the part of the channel shown is not the one that fits, from its upper left corner')
        op = G('opacity')
        if kind == 'copy':
            rep.check(eng.ent_eq(st, op, C(1)) or eng.ent_eq(st, op, ('flt', 1.0)), 'channels have their opacity', wh, w, 'a channel that is not opaque is drawn over what is below')
        else:
            b, al, be, ga = mix
            sm = lambda a, c: eng.ent_eq(st, a, c) or a == c
            rep.check(b[0] == dst[0] and b[5] == dst[5] and sm(al, op) and (sm(be, sub(C(1), op)) or sm(be, sub(('flt', 1.0), op))) and ga in (C(0), ('flt', 0.0)), 'channels have their opacity', wh, w,
                      'the weights of the channel and of what is below are not its opacity and the rest')

    # ---- early ends
    def count(self, eng, st, F, h, acc):
        k = (eng.frame, F.id, h)
        for v in eng.loop_mods(F, h)[0]:
            hv = ('hv', ('lp', eng.frame, h), ('v', eng.frame, v))
            x = st.store.get(('v', eng.frame, v))
            if x is None or not isnum(x): continue
            same = eng.ent_eq(st, x, hv)
            less = eng.ent_eq(st, x, add(hv, C(-1)))
            if not (same or less and acc): self.counters[(eng.frame, v)] = False
            else: self.counters.setdefault((eng.frame, v), True)

    def outer(self, eng, st, F, h): pass

    def times(self, eng, st, F, h, seen, p, w):
        """the latest time of what is drawn is kept"""
        pts = eng.load(st, fld(p, 'pts'))
        k = eng.frame
        for v in sorted(eng.loop_mods(F, h)[0]):
            L = ('v', k, v)
            x = st.store.get(L)
            hv = ('hv', ('lp', k, h), L)
            if x is None: continue
            if x == hv: ok = not seen or eng.ent_le(st, pts, hv); kind = 'keep'
            elif x == pts: ok = seen and eng.ent_le(st, hv, pts); kind = 'take'
            elif maxof(x, hv, pts): ok = seen; kind = 'max'
            else: continue
            self.latest.setdefault((k, v), []).append((ok, kind))

    latest = None


def isnum(v): return v[0] in ('c', 'lin', 'hv', 'init', 'op', 'arg', 'phi')


def maxof(x, a, b):
    if x[0] in ('pcall', 'op') and 'max' in str(x[1]):
        ops = x[3] if x[0] == 'pcall' else x[2:]
        return set(ops) >= {a, b} or {nocast(o) for o in ops} >= {a, b}
    return False


def run_mixer(rep, P):
    cls = 'VideoMixer'
    F = method(P, cls, 'doProcessFrame')
    cl = Mixer(P, rep); cl.latest = {}
    cl.pname = F.params[0]['name']; cl.dst = ('arg', F.params[1]['name'], 1)
    eng, st = begin(P, cl, cls, FLT)
    W, H = (eng.load(st, member(cls, x), 'int') for x in ('outputWidth', 'outputHeight'))
    mx = eng.load(st, member(cls, 'maxChannels'), 'int')
    st.facts = st.facts | {('ge', add(W, C(-1))), ('ge', sub(C(1920), W)), ('ge', add(H, C(-1))), ('ge', sub(C(1080), H)), ('ge', mx)}
    li = member(cls, 'layoutImg')
    cl.assign(eng, st, li, dict(rows=H, cols=W, type=C(CV_8UC3)))
    outs = eng.run(F, this=THIS, st=st)
    rep.funcs |= eng.visited_funcs
    rep.floor('rounds in which the mixer draws', cl.drawn, 2)
    w = '%s:%d (%s)' % (F.file, F.line, F.name)
    D = cl.dst
    sent = 0
    for s, v in outs:
        t = tg(s)
        if eng.ent_0(s, v):
            continue
        sent += 1
        G = lambda f: eng.load(s, fld(D, f))
        rep.check(G('cons') == C(1), 'the mixed frame is described as it is', 'consumed', w, 'a mixed frame is not marked as filled')
        rep.check(eng.ent_eq(s, G('w'), W) and eng.ent_eq(s, G('h'), H), 'the mixed frame is described as it is', 'size', w, 'the size of the mixed frame is not that of the layout')
        rep.check(area(eng, s, G('len'), W, H), 'the mixed frame is described as it is', 'length', w, 'the length of the mixed frame is not three bytes per pixel')
        ft = ('fld', 'getFrameTime')
        pts, dts = G('pts'), G('dts')
        lat = [k for k, r in cl.latest.items() if all(o for o, _ in r) and any(kd != 'keep' for _, kd in r)]
        timed = pts == ('fld', 'getSyncTs')
        rep.check(dts == pts, 'the mixed frame has the time of what it shows', 'decode time', w, 'the decode time of a mixed frame is not its presentation time')
        if timed:
            rep.check(eng.ent_le(s, C(1), ft), 'the mixed frame has the time of what it shows', 'own pace', w, 'the clock of the mixer is used though it follows its inputs')
        else:
            ok = any(pts == ('hv', lp, ('v', k[0], k[1])) for k in lat for lp in [x[1] for x in hvs(pts)]) or pts == C(0)
            rep.check(ok and eng.ent_le(s, ft, C(0)), 'the mixed frame has the time of what it shows', 'following the inputs', w, 'the time of a mixed frame is not the latest of the frames it shows')
        # all layers
        lays = [x for k, x in cl.hval.items() if k[3] in cl.zero.get(k[:3], ()) and cl.entry.get(k) == 0]
        done = any(eng.ent_lt(s, mx, x) for x in lays)
        if not done:
            for (fr, vid), ok in cl.counters.items():
                for a in {a for f in s.facts for a in atoms(f[1]) if a[0] == 'hv' and a[2] == ('v', fr, vid)}:
                    if ok and eng.ent_le(s, a, C(0)): done = True
        rep.check(done, 'every layer is drawn, from back to front', F.name + ', end', w, 'the mixer may stop before all layers that channels can have were drawn')
    rep.floor('frames sent by the mixer', sent, 1)


def hvs(v): return [v] if v[0] == 'hv' else []


def area(eng, s, v, W, H):
    v = nocast(v)
    fs = sorted(map(repr, flat(v)))
    return fs == sorted(map(repr, [C(3), W, H]))


def products(st, k, a, b):
    """values compared on this path that are k * a * b"""
    want = sorted(map(repr, [a, b]))
    out = []
    for f in st.facts:
        for x in atoms(f[1]):
            fs = flat(x); c = 1
            for y in [y for y in fs if y[0] == 'c']: c *= y[1]
            if sorted(repr(y) for y in fs if y[0] != 'c') == want and c and k % c == 0: out.append(('lin', 0, ((x, k // c),)) if k != c else x)
    return out


def bounded(eng, s, a, b, most=1 << 26):
    """the product of two positive numbers is bounded"""
    if eng.ent_le(s, a, C(1 << 13)) and eng.ent_le(s, b, C(1 << 13)): return True
    if any(eng.ent_le(s, x, C(most)) for x in products(s, 1, a, b)): return True
    for x, y in ((a, b), (b, a)):
        for f in s.facts:
            for q in atoms(f[1]):
                if q[0] == 'op' and q[1] in ('/', 'div') and q[2][0] == 'c' and q[2][1] <= most and q[3] == y and eng.ent_le(s, x, q): return True
    return False


def flat(v):
    v = nocast(v)
    if v[0] == 'op' and v[1] == '*': return flat(v[2]) + flat(v[3])
    if v[0] == 'op' and v[1] in ('u', 'narrow', 'i2f'): return flat(v[2])
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1:
        a, k = v[2][0]
        return flat(a) + ([C(k)] if k != 1 else [])
    return [v]


# ------------------------------------------------------------------ splitter
CROP = ('x', 'y', 'width', 'height')


class Splitter(Img):
    def __init__(self, P, rep, configured):
        super().__init__('videoSplitter/')
        self.P, self.rep, self.configured = P, rep, configured
        self.drawn = self.left = 0

    def init(self): return tuple(sorted(dict(draw=(), clear=(), call=(), it=None, any=False).items()))

    def rects(self, eng, st, ins, ok, w):
        self.rep.check(ok, 'cropping stays inside the images', w.split('(')[-1].rstrip(')'), w, 'a rectangle may reach outside of the image')

    def cfg(self, eng, st, k): return eng.load(st, ('i', member('VideoSplitter', 'cropsConfig'), k))

    def on_branch(self, eng, st, ins, v, taken):
        r = self.scan_loop(eng, st, v, taken)
        if r is None: return
        end, loop, L, ver, cur = r
        if L != ('d', ('argp', self.pname, 1)): return
        settag(st, it=None if end else cur, draw=())
        if end or cur[0] != 'iter': return
        # what every crop configuration is like (run_crop_config): as made, or set by configCrop0
        c = self.cfg(eng, st, eng.iterkey(cur))
        X, Y, W, H = (eng.load(st, ('m', ('d', c), 'CropConfig::' + f), 'int') for f in CROP)
        if self.configured: st.facts = st.facts | {('ge', X), ('ge', Y), ('ge', add(W, C(-1))), ('ge', add(H, C(-1)))}
        else: st.facts = st.facts | {('eq', add(X, C(1))), ('eq', add(Y, C(1))), ('eq', W), ('eq', H)}
        self.assign(eng, st, ('m', ('d', c), 'CropConfig::crop'), dict(rows=H, cols=W, type=C(CV_8UC3)))

    def on_backedge(self, eng, st, F, h):
        t = tg(st); rep = self.rep
        w = '%s:%d (%s)' % (F.file, F.line, F.name)
        it = t['it']
        if it is None or not (it[0] == 'iter' and it[4] == ('lp', eng.frame, h)): return
        k = eng.iterkey(it)
        p = undyn(eng.load(st, ('i', it[1], k)))
        org = undyn(self.org)
        c = self.cfg(eng, st, k)
        X, Y, W, H = (eng.load(st, ('m', ('d', c), 'CropConfig::' + f), 'int') for f in CROP)
        G = lambda f, q=None: eng.load(st, fld(q or p, f))
        fw, fh = eng.load(State(), fld(org, 'w'), 'int'), eng.load(State(), fld(org, 'h'), 'int')
        d = t['draw']
        if d:
            self.drawn += 1
            kind, src, dst, mix, wd = d[0]
            rep.check(len(d) == 1 and kind == 'copy', 'every crop is cut once', F.name, wd, 'a crop is drawn more than once or mixed')
            rep.check(self.configured, 'only configured crops are cut', F.name, wd, 'a crop that was never configured is cut')
            E = lambda a, b: eng.ent_eq(st, a, b)
            rep.check(src[4] == ('mem', ('frame', 'getDataBuf', org), fh, fw), 'crops are cut from the frame received', F.name, wd, 'what is cut is not the frame received, in its size')
            rep.check(all(E(a, b) for a, b in zip(src[5], (X, Y, W, H))), 'crops are the region configured', F.name, wd, 'what is cut is not the region configured for this output')
            z = dst[5]
            rep.check(dst[3] == ('frame', 'getDataBuf', p), 'crops are written into their own frame', F.name, wd, 'a crop is not written into the frame of its own output')
            rep.check(E(z[0], C(0)) and E(z[1], C(0)) and E(z[2], W) and E(z[3], H) and E(dst[1], H) and E(dst[2], W), 'crops are written into their own frame', F.name + ', place', wd, 'a crop does not fill its frame')
            rep.check(any(eng.ent_le(st, x, ('frame', 'getMaxLength', p)) for x in products(st, 3, W, H)), 'crops fit in their frames', F.name, wd, 'a crop may be larger than the memory of its frame')
            rep.check(E(G('w'), W) and E(G('h'), H), 'crops are described as they are', F.name + ', size', w, 'the size of the frame sent is not that of the crop')
            plain = sorted(map(repr, flat(G('len')))) == sorted(map(repr, [W, H]))
            rep.check(area(eng, st, G('len'), W, H), 'crops are described as they are', F.name + (', length in pixels' if plain else ', length'), w, 'the length of a crop is not three bytes per pixel')
            for f, what in (('pts', 'presentation time'), ('dts', 'decode time'), ('ots', 'origin time'), ('seq', 'sequence number')):
                rep.check(G(f) == eng.load(State(), fld(org, f)), 'crops keep the times of their frame', F.name + ', ' + what, w, 'the %s of a crop is not that of the frame it was cut from' % what)
            rep.check(G('cons') == C(1), 'crops are described as they are', F.name + ', consumed', w, 'a crop that was cut is not marked as filled')
            settag(st, any=True)
        else:
            self.left += 1
            rep.check(G('cons') == C(0), 'crops are described as they are', F.name + ', not consumed', w, 'a frame in which nothing was written is not marked as empty')
            out = not self.configured or eng.ent_lt(st, fw, add(X, W)) or eng.ent_lt(st, fh, add(Y, H)) or any(a == ('frame', 'getMaxLength', p) for f in st.facts for a in atoms(f[1]))
            rep.check(out, 'every crop is cut once', F.name, w, 'a configured crop that lies inside the frame is not cut')
        settag(st, draw=(), it=None)


def run_splitter(rep, P):
    cls = 'VideoSplitter'
    F = method(P, cls, 'doProcessFrame')
    n = 0
    for conf in (True, False):
        cl = Splitter(P, rep, conf)
        cl.org = ('arg', F.params[0]['name'], 0); cl.pname = F.params[1]['name']
        eng, st = begin(P, cl, cls)
        for s, v in eng.run(F, this=THIS, st=st):
            t = tg(s)
            if eng.truth(s, ('dyn', cl.org, 'VideoFrame')) is False: continue
            n += 1
            rep.check(eng.truth(s, v) is (True if t['any'] else False), 'success is reported exactly if something was cut', F.name, '%s:%d (%s)' % (F.file, F.line, F.name), 'the result does not say whether any crop was cut')
        rep.funcs |= eng.visited_funcs
        if conf: rep.floor('rounds in which a crop is cut', cl.drawn, 1)
        rep.floor('rounds in which no crop is cut', cl.left, 1)
    rep.floor('paths of the splitter', n, 2)
    # configuration
    F = method(P, cls, 'configCrop0')
    cl = Img('videoSplitter/'); eng, st = begin(P, cl, cls)
    cc = member(cls, 'cropsConfig'); got = 0
    w = '%s:%d (%s)' % (F.file, F.line, F.name)
    for s, v in eng.run(F, this=THIS, st=st):
        p = eng.load(s, ('i', cc, ('arg', F.params[0]['name'], 0)))
        if eng.ent_0(s, v): continue
        got += 1
        V = {}
        for f, i in (('width', 1), ('height', 2), ('x', 3), ('y', 4), ('degree', 5)):
            a = ('arg', F.params[i]['name'], i); V[f] = a
            rep.check(eng.load(s, ('m', ('d', p), 'CropConfig::' + f)) == a, 'settings are taken as given', '%s, %s' % (F.name, f), w, 'an accepted crop does not store the %s given' % f)
        rep.check(all(eng.ent_le(s, lo, V[f]) for f, lo in (('x', C(0)), ('y', C(0)), ('width', C(1)), ('height', C(1)))), 'settings are within what drawing can use', F.name, w, 'a crop outside of every frame is accepted')
        rep.check(eng.ent_le(s, C(-360), V['degree']) and eng.ent_le(s, V['degree'], C(360)), 'settings are within what drawing can use', F.name + ', degree', w, 'a rotation out of range is accepted')
        rep.check(bounded(eng, s, V['width'], V['height']),
                  'settings are within what drawing can use', F.name + ', area', w, 'a crop of any area is accepted: memory for it is allocated at once')
        L = cl.canon(eng, s, ('m', ('d', p), 'CropConfig::crop'))
        rep.check(eng.ent_eq(s, cl.mf(eng, s, L, 'rows'), V['height']) and eng.ent_eq(s, cl.mf(eng, s, L, 'cols'), V['width']) and eng.load(s, ('m', L, 'cv::Mat::type')) == C(CV_8UC3), 'the image of a crop has its size', F.name, w, 'the image a crop is copied to is not as large as the crop')
    rep.floor('accepting paths of configCrop0', got, 1)
    rep.funcs |= eng.visited_funcs
    G = method(P, 'CropConfig', 'CropConfig')
    eng, st = begin(P, Img('videoSplitter/'), 'CropConfig')
    for s, v in eng.run(G, this=THIS, st=st):
        X, Y, W, H = (eng.load(s, member('CropConfig', f)) for f in CROP)
        rep.check((X, Y, W, H) == (C(-1), C(-1), C(0), C(0)), 'new crops are known as not configured', G.name, '%s:%d' % (G.file, G.line), 'a new crop can not be told from a configured one')


# ------------------------------------------------------------------ resampler
class Conv(Img):
    K = 600

    def __init__(self):
        super().__init__('videoResampler/')
        self.scale = []

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn == 'sws_scale':
            a = tuple(eng.rvalue(st, x) for x in args)
            self.scale.append((st.copy(), a, eng.where(ins)))
            v = eng.fresh(st, ins); eng.note_type(v, 'int')
            settag(st, call=tg(st)['call'] + ((fn, a, eng.where(ins), v),))
            return v
        return super().on_call(eng, st, ins, fn, obj, args, cands)


def owner(v):
    """the AVFrame whose planes are passed"""
    while v[0] in ('addr', 'lv', 'i') : v = v[1]
    while v[0] == 'm': v = v[1]
    return v[1] if v[0] == 'd' else v


PIX = {'RGB24': 'AV_PIX_FMT_RGB24', 'RGB32': 'AV_PIX_FMT_RGB32', 'YUYV422': 'AV_PIX_FMT_YUYV422', 'YUV420P': 'AV_PIX_FMT_YUV420P', 'YUV422P': 'AV_PIX_FMT_YUV422P', 'YUV444P': 'AV_PIX_FMT_YUV444P', 'YUVJ420P': 'AV_PIX_FMT_YUVJ420P'}


# numbers of the formats of libavutil, as its header declares them
AVPIX = {'AV_PIX_FMT_YUV420P': 0, 'AV_PIX_FMT_YUYV422': 1, 'AV_PIX_FMT_RGB24': 2, 'AV_PIX_FMT_YUV422P': 4, 'AV_PIX_FMT_YUV444P': 5, 'AV_PIX_FMT_YUVJ420P': 12, 'AV_PIX_FMT_RGB32': 28}


def enum_of(P, name):
    e = P.enums.get(name)
    if e is None: raise AnalysisBroken('enumeration ' + name)
    return dict(e['values'])


def run_resampler(rep, P):
    cls = 'VideoResampler'
    F = method(P, cls, 'doProcessFrame')
    cl = Conv(); eng, st = begin(P, cl, cls)
    org, dst = (('arg', F.params[i]['name'], i) for i in (0, 1))
    M = lambda s, f, ty=None: eng.load(s, member(cls, f), ty)
    s0 = st.copy()
    inF, outF = M(s0, 'inFrame'), M(s0, 'outFrame')
    av = lambda s, fr, f: eng.load(s, ('m', ('d', fr), 'AVFrame::' + f), 'int')
    w = '%s:%d (%s)' % (F.file, F.line, F.name)
    ow, oh, opix = (eng.load(s0, fld(org, f)) for f in ('w', 'h', 'pix'))
    outs = eng.run(F, this=THIS, st=st)
    rep.funcs |= eng.visited_funcs
    rep.floor('conversions', len(cl.scale), 2)
    for s, a, wh in cl.scale:
        E = lambda x, y: eng.ent_eq(s, x, y)
        t = tg(s)
        fills = {}
        for c in t['call']:
            if c[0] == 'av_image_fill_arrays': fills[owner(c[1][0])] = c[1]
        fi, fo = fills.get(inF), fills.get(outF)
        rep.check(fi is not None and fi[2] == ('frame', 'getDataBuf', org) and E(fi[4], ow) and E(fi[5], oh), 'the frame received is what is converted', F.name, wh, 'the image converted is not the frame received, in its size')
        W, H = M(s0, 'outputWidth', 'int'), M(s0, 'outputHeight', 'int')
        if fo is None or fi is None: continue
        side = lambda x, o, i: E(x, o) and eng.truth(s, o) is True or E(x, i) and eng.ent_0(s, o)
        rep.check(fo[2] == ('frame', 'getDataBuf', dst), 'the output frame is what is written', F.name, wh, 'the image written is not the output frame')
        rep.check(side(fo[4], W, ow) and side(fo[5], H, oh), 'conversions have the size configured', F.name, wh, 'the size of the output is not the one configured (or that of the input)')
        rep.check(E(fo[3], M(s0, 'libavOutPixFmt')), 'conversions have the format configured', F.name, wh, 'the format of the output is not the one configured')
        rep.check(owner(a[1]) == inF and owner(a[5]) == outF and E(a[3], C(0)) and E(a[4], oh), 'the frame received is what is converted', F.name + ', rows', wh, 'not all rows of the frame received are converted')
        ctx = [c for c in t['call'] if c[0] == 'sws_getContext']
        if ctx:
            g = ctx[-1][1]
            rep.check(a[0] == ctx[-1][3] and all(E(x, y) for x, y in ((g[0], ow), (g[1], oh), (g[2], fi[3]), (g[3], fo[4]), (g[4], fo[5]), (g[5], fo[3]))), 'the converter fits the images', F.name + ', new converter', wh, 'the converter was made for other sizes or formats')
        else:
            rep.check(a[0] == M(s0, 'imgConvertCtx') and eng.truth(s, a[0]) is True and eng.ent_0(s, M(s0, 'needsConfig')) and E(ow, av(s0, inF, 'width')) and E(oh, av(s0, inF, 'height')) and E(opix, M(s0, 'inPixFmt')) and E(fi[3], M(s0, 'libavInPixFmt')),
                      'the converter fits the images', F.name + ', kept converter', wh, 'a converter is used that was made for other sizes, formats or settings')
        ln = nocast(eng.load(s, fld(dst, 'len')))
        rep.check(eng.ent_le(s, ln, ('frame', 'getMaxLength', dst)) and ln[0] == 'pcall' and ln[1] == 'av_image_get_buffer_size' and E(ln[3][0], fo[3]) and E(ln[3][1], fo[4]) and E(ln[3][2], fo[5]) and ln[3][3] == C(1), 'conversions fit in their frames', F.name, wh,
                  'the converted image may be larger than the memory of its frame (or its length is another one)')
    sent = 0
    for s, v in outs:
        t = tg(s)
        E = lambda x, y: eng.ent_eq(s, x, y)
        new = [c for c in t['call'] if c[0] == 'sws_getContext']
        fail = any(c[0] == 'av_image_fill_arrays' and owner(c[1][0]) == inF and eng.ent_le(s, c[3], C(0)) for c in t['call'])
        if not fail:
            cur = M(s, 'imgConvertCtx')
            if new:
                keep = eng.truth(s, cur) is False or eng.truth(s, M(s, 'needsConfig')) is True or E(av(s, inF, 'width'), new[-1][1][0]) and E(av(s, inF, 'height'), new[-1][1][1]) and M(s, 'inPixFmt') == opix and E(M(s, 'libavInPixFmt'), new[-1][1][2])
                rep.check(keep, 'the converter fits the images', F.name + ', what is remembered', w, 'the sizes and formats remembered for the converter are not those it was made for')
            else:
                moved = not (E(av(s, inF, 'width'), av(s0, inF, 'width')) and E(av(s, inF, 'height'), av(s0, inF, 'height')) and (M(s, 'inPixFmt') == M(s0, 'inPixFmt') or E(M(s, 'inPixFmt'), M(s0, 'inPixFmt'))))
                none = E(M(s, 'libavInPixFmt'), C(-1))
                rep.check(not moved or eng.truth(s, cur) is False or none, 'the converter fits the images', F.name + ', what is remembered', w, 'sizes or formats are remembered without a converter made for them')
        if eng.ent_0(s, v): continue
        sent += 1
        G = lambda f, q=dst: eng.load(s, fld(q, f))
        W, H = M(s0, 'outputWidth', 'int'), M(s0, 'outputHeight', 'int')
        side = lambda x, o, i: E(x, o) and eng.truth(s, o) is True or E(x, i) and eng.ent_0(s, o)
        rep.check(side(G('w'), W, ow) and side(G('h'), H, oh) and G('pix') == M(s0, 'outPixFmt'), 'conversions are described as they are', F.name, w, 'size or format of the converted frame are not those it has')
        sc = [c for c in t['call'] if c[0] == 'sws_scale']
        rep.check(len(sc) == 1 and eng.ent_le(s, C(1), sc[0][3]) and G('cons') == C(1), 'conversions are described as they are', F.name + ', consumed', w, 'a frame is handed over that was not converted, or not marked as filled')
        for f, what in (('pts', 'presentation time'), ('dts', 'decode time'), ('ots', 'origin time'), ('seq', 'sequence number')):
            rep.check(G(f) == eng.load(s0, fld(org, f)), 'conversions keep the times of their frame', F.name + ', ' + what, w, 'the %s of a converted frame is not that of the frame received' % what)
    rep.floor('converted frames', sent, 2)
    # settings
    F = method(P, cls, 'configure0')
    cl = Img('videoResampler/'); eng, st = begin(P, cl, cls)
    got = 0
    w = '%s:%d (%s)' % (F.file, F.line, F.name)
    for s, v in eng.run(F, this=THIS, st=st):
        if eng.ent_0(s, v): continue
        got += 1
        A = [('arg', p['name'], i) for i, p in enumerate(F.params)]
        L = lambda f: eng.load(s, member(cls, f))
        rep.check(L('outputWidth') == A[0] and L('outputHeight') == A[1] and L('outPixFmt') == A[3], 'settings are taken as given', F.name, w, 'an accepted configuration does not store the size and format given')
        rep.check(eng.truth(s, L('needsConfig')) is True, 'the converter fits the images', F.name, w, 'the converter is not made again for a new configuration')
        f = L('libavOutPixFmt')
        rep.check(f[0] == 'c' and f[1] >= 0, 'settings are within what drawing can use', F.name, w, 'a format the converter does not know is accepted')
    rep.floor('accepting paths of the resampler configuration', got, 1)
    # formats
    T = [G for G in P.funcs.values() if G.name.split('::')[-1] == 'getLibavPixFmt']
    if not T: raise AnalysisBroken('getLibavPixFmt')
    T = T[0]
    src, dstn = enum_of(P, 'PixType'), None
    seen = 0
    for name, av_ in sorted(PIX.items()):
        val = src.get(name)
        if val is None: continue
        cl = Img('videoResampler/'); eng = Engine(P, cl); st = State(); st.client = cl.init()
        for s, v in eng.run(T, args=[C(val)], st=st):
            seen += 1
            rep.check(v == C(AVPIX[av_]), 'formats are those of the same name', 'getLibavPixFmt, ' + name, '%s:%d (%s)' % (T.file, T.line, T.name), 'frames of format %s are converted as another one' % name)
    rep.floor('pixel formats', seen, 5)


def run_new(rep, P):
    """what the filters are like before anything is configured, and the format of the frames they get to fill"""
    rgb = C(enum_of(P, 'PixType')['RGB24'])
    for cls, mod in (('VideoMixer', 'videoMixer/'), ('VideoSplitter', 'videoSplitter/'), ('VideoResampler', 'videoResampler/')):
        F = method(P, cls, cls if cls == 'VideoResampler' else 'createNew')
        cl = Img(mod); eng, st = begin(P, cl, cls)
        w = '%s:%d (%s)' % (F.file, F.line, F.name)
        n = 0
        for s, v in eng.run(F, this=THIS, st=st):
            this = THIS
            if cls != 'VideoResampler':
                if eng.truth(s, v) is not True: continue
                this = v
            n += 1
            member = lambda c, f: ('m', ('d', this), c + '::' + f)
            L = lambda f, t=None: eng.load(s, member(cls, f), t)
            si = L('outputStreamInfo')
            vid = [x for k, x in s.store.items() if k[0] == 'm' and k[2].endswith('::pixelFormat') and eng.under(k, ('d', si))]
            rep.check(vid == [rgb], 'output frames have three bytes per pixel', F.name, w, 'the frames of the output queue are not made for the format of the images drawn')
            if cls == 'VideoMixer':
                li = cl.canon(eng, s, member(cls, 'layoutImg'))
                ok = eng.ent_eq(s, cl.mf(eng, s, li, 'rows'), L('outputHeight')) and eng.ent_eq(s, cl.mf(eng, s, li, 'cols'), L('outputWidth')) and eng.load(s, ('m', li, 'cv::Mat::type')) == C(CV_8UC3)
                rep.check(ok, 'the layout image has the size of the layout', F.name, w, 'the image drawn on is not as large as the layout')
            if cls == 'VideoResampler':
                a, b = L('inFrame'), L('outFrame')
                made = [c[3] for c in tg(s)['call'] if c[0] == 'av_frame_alloc']
                rep.check(a in made and b in made and a != b, 'the converter fits the images', F.name + ', descriptions', w, 'input and output are not described by an object each')
                rep.check(L('imgConvertCtx') == C(0), 'the converter fits the images', F.name + ', no converter', w, 'a converter that was never made may be used')
                o, lo, i = L('outPixFmt'), L('libavOutPixFmt'), L('inPixFmt')
                names = {C(x): y for y, x in enum_of(P, 'PixType').items()}
                rep.check(o in names and PIX.get(names[o]) is not None and lo == C(AVPIX[PIX[names[o]]]), 'settings are within what drawing can use', F.name, w, 'the output format is not set (or another one) before it is configured')
        rep.floor('constructions of ' + cls, n, 1)
        rep.funcs |= eng.visited_funcs
    # the objects allocated by the constructor stay the same
    for G in P.funcs.values():
        for e in G.ins.values():
            if e['op'] != 'assign': continue
            to = G.ins.get(e['a'], {})
            if to.get('op') == 'member' and to.get('cls') == 'VideoResampler' and to.get('f') in ('inFrame', 'outFrame'):
                rep.check(G.name == 'VideoResampler::VideoResampler' or G.name == 'VideoResampler::~VideoResampler', 'the converter fits the images', G.name + ', descriptions', '%s:%d (%s)' % (G.file, e.get('l', G.line), G.name), 'the description of the images is replaced')


def run(rep, P, tier):
    run_new(rep, P)
    run_config(rep, P)
    run_mixer(rep, P)
    run_splitter(rep, P)
    run_resampler(rep, P)
