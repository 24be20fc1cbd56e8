"""X01: encoders code every picture once, with the current settings, and give coded pictures the times of the pictures they code."""
import re
from ..engine import Engine, State
from ..lin import C, add, sub, mulc
from ..facts import AnalysisBroken
from .dash import method, tg, settag, addr_of, nocast, parts
from .images import Img, THIS, undyn, fld, begin, enum_of, member
from . import images

RULE = ('symbolic execution of every path of the encoders (settings, pictures, parameters, coded pictures) with the calls into the codec libraries as ordered events; values handed to the library compared with the settings and the picture, '
        'loop over coded units judged per iteration')
LEVEL = 'other'
ASSUME = ['the codec libraries do what they document: pts and dts of a coded picture are among those given, a forced type is used', 'handlers run between rounds (C01)']

BASE = 'VideoEncoderX264or5'
LIBS = {'VideoEncoderX264': 'x264', 'VideoEncoderX265': 'x265'}
# settings of the two libraries: name -> field
PARAMS = {'keyint': 'gop', 'fps': 'fps', 'bitrate': 'bitrate', 'rc-lookahead': 'lookahead', 'bframes': 'bFrames'}
THREADS = {'x264': 'threads', 'x265': 'frame-threads'}
HDR = {'x264': '/usr/include/x264.h', 'x265': '/usr/include/x265.h'}
AVFMT = {'YUV420P': 0, 'YUV422P': 4, 'YUV444P': 5}


def B(f): return member(BASE, f)


def macro(lib, name):
    m = re.search(r'^\s*#\s*define\s+%s\s+\(?(0x[0-9a-fA-F]+|\d+)\)?' % name, open(HDR[lib]).read(), re.M)
    return int(m.group(1), 0) if m else None


class Enc(Img):
    def __init__(self):
        Img.__init__(self, 'videoEncoder/')
        self.steps_ = []; self.entered = []; self.stores = []

    cut = ()
    K = 5000
    focus = None; others = False

    def init(self): return tuple(sorted(dict(draw=(), clear=(), call=(), ev=()).items()))

    def inline(self, eng, st, G, ins): return 'videoEncoder/' in G.file and G.name.split('::')[-1] not in self.cut

    def ev(self, eng, st, what, args, ins, ret=None):
        settag(st, ev=tg(st)['ev'] + ((what, tuple(args), eng.where(ins), ret),))

    def shot(self, eng, st): return st.copy()

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        R = lambda i: eng.rvalue(st, args[i])
        if short in self.cut and obj is not None:
            a = [eng.rvalue(st, x) for x in args]
            v = eng.fresh(st, ins)
            if short == 'encodeFrame':
                self.at = getattr(self, 'at', []); self.at.append(st.copy())
                for f in ('inPts', 'outPts', 'dts'): st.store[B(f)] = ('sym', f + "'", (eng.frame, ins['i']))
                st.store[B('forceIntra')] = ('sym', 'forced', (eng.frame, ins['i']))
                for k in [k for k in st.store if k[0] == 'm' and k[2] == 'NF::len']: del st.store[k]
            self.ev(eng, st, short, a, ins, v)
            return v
        if fn == 'BaseFilter::getFrameTime': return eng.load(st, ('m', ('d', THIS), 'BaseFilter::frameTime'), 'long')
        if fn == 'BaseFilter::setFrameTime': self.ev(eng, st, short, [R(0)], ins); st.store[('m', ('d', THIS), 'BaseFilter::frameTime')] = R(0); return ('void',)
        if fn == 'Jzon::Node::Has' or fn == 'Jzon::Object::Has': return self.jz(eng, st, 'has', R(0), ins)
        if fn in ('Jzon::Node::Get', 'Jzon::Object::Get') and args:
            k = R(0)
            if key(k) is not None: return ('lv', ('d', ('jz', key(k))))
        if fn.startswith('Jzon::') and short.startswith('Is') and obj is not None and jzof(obj): return self.jz(eng, st, short, ('str', jzof(obj), 0), ins)
        if fn.startswith('Jzon::') and short.startswith('To') and obj is not None and jzof(obj):
            v = ('jzv', jzof(obj), short)
            return v
        if fn == 'Jzon::Value::Value' and len(args) == 1:
            a = R(0)
            return a if a[0] == 'jzval' else ('jzval', a)
        if fn.startswith('Jzon::') and short == 'Add' and obj is not None:
            self.ev(eng, st, 'Add', [('addr', obj[1]) if obj[0] == 'lv' else obj] + [R(i) for i in range(len(args))], ins); return ('void',)
        if re.match(r'x26[45]_', fn):
            lib = fn[:4]
            a = [eng.rvalue(st, x) for x in args]
            if fn.endswith('_encoder_encode'):
                self.enc = getattr(self, 'enc', []); self.enc.append((st.copy(), a, eng.where(ins)))
                v = eng.fresh(st, ins)
                for p, x in ((a[1], ('sym', 'nals', None)), (a[2], ('sym', 'units', None))):
                    L = deref(p)
                    st.store[L] = x
                eng.note_type(('sym', 'units', None), 'unsigned int')
                po = deref(a[4])
                for f, s in (('pts', 'codedPts'), ('dts', 'codedDts')):
                    for n in ('i_' + f, f):
                        for c in ('x264_picture_t', 'x265_picture'): st.store[('m', po, c + '::' + n)] = ('sym', s, None)
                self.ev(eng, st, 'encode', a, ins, v)
                return v
            self.ev(eng, st, fn, a, ins, None)
            v = eng.fresh(st, ins)
            t = tg(st)['ev']; settag(st, ev=t[:-1] + (t[-1][:3] + (v,),))
            if fn.endswith('_param_default_preset'):
                for k in [k for k in st.store if eng.under(k, deref(a[0]))]: del st.store[k]
                st.store[pcsp(lib, deref(a[0]))] = C(macro(lib, lib.upper() + '_CSP_I420'))
            if fn.endswith('_param_parse') and key(a[1]) in ('input-csp', 'csp', 'output-csp') and key(a[2]):
                st.store[pcsp(lib, deref(a[0]))] = C(macro(lib, '%s_CSP_%s' % (lib.upper(), key(a[2]).upper())) or -1)
            if fn == 'x265_picture_init' and a[0] != C(0):
                st.store[('m', deref(a[1]), 'x265_picture::colorSpace')] = eng.load(st, pcsp(lib, deref(a[0])))
            return v
        if fn == 'std::basic_string::empty' and obj is not None:
            ps = parts(obj if obj[0] != 'lv' else eng.load(st, obj[1]))
            if all(isinstance(x, str) for x in ps): return C(0 if ''.join(ps) else 1)
        if short == 'setSlice' and obj is not None:
            v = eng.fresh(st, ins)
            self.ev(eng, st, 'setSlice', [undyn(addr_of(obj)), R(0), eng.num(R(1))], ins, v)
            return v
        if short == 'clear' and fn.startswith('SlicedVideoFrame'):
            self.ev(eng, st, 'clear', [undyn(addr_of(obj))], ins); return ('void',)
        if short == 'setExtraData': self.ev(eng, st, 'extra', [R(0), eng.num(R(1))], ins); return ('void',)
        if short in ('erase', 'clear') and obj == ('lv', B('qFTP')): self.ev(eng, st, 'forget', [R(i) for i in range(len(args))], ins)
        if short == 'pushEvent': self.ev(eng, st, 'push', [], ins); return ('void',)
        if fn == 'av_image_fill_arrays':
            a = [eng.rvalue(st, x) for x in args]
            v = eng.fresh(st, ins); self.ev(eng, st, 'fill', a, ins, v); return v
        return Img.on_call(self, eng, st, ins, fn, obj, args, cands)

    def jz(self, eng, st, what, k, ins):
        k = key(k)
        if k is None: return eng.fresh(st, ins)
        if self.focus is not None and k != self.focus: return C(1 if self.others else 0)
        v = ('jzq', what, k)
        return v

    def on_loop_enter(self, eng, st, F, h):
        Img.on_loop_enter(self, eng, st, F, h)
        t = tg(st)['ev']
        if not any(e[0] == 'loop' and e[1] == (eng.frame, h) for e in t): settag(st, ev=t + (('loop', (eng.frame, h), None, None),))

    def on_backedge(self, eng, st, F, h):
        t = tg(st)['ev']
        i = max((j for j, e in enumerate(t) if e[0] == 'loop' and e[1] == (eng.frame, h)), default=-1)
        self.steps_.append((st.copy(), F, h, t[i + 1:]))
        settag(st, ev=t[:i + 1])

    def on_load(self, eng, st, ins, loc, val):
        if loc[0] == 'm' and loc[2].endswith('::annexb'): self.annexb = loc

    def on_store(self, eng, st, ins, L, v):
        if L[0] == 'i': self.stores.append((L, v, st.copy(), eng.where(ins)))


def key(v):
    ps = parts(v)
    return ps[0] if len(ps) == 1 and isinstance(ps[0], str) else None


def jzof(obj):
    return obj[1][1][1] if obj[0] == 'lv' and obj[1][0] == 'd' and obj[1][1][0] == 'jz' else None


def pcsp(lib, p): return ('m', p, 'x264_param_t::i_csp' if lib == 'x264' else 'x265_param::internalCsp')


def deref(p):
    return p[1] if p[0] in ('addr', 'lv') else ('d', p)


def start(P, cl, cls):
    eng, st = begin(P, cl, cls)
    return eng, st


def where(F): return '%s:%d (%s)' % (F.file, F.line, F.name)


def run_encode(rep, P, cls):
    lib = LIBS[cls]
    F = method(P, cls, 'encodeFrame'); w = where(F)
    cl = Enc(); eng, st = start(P, cl, cls)
    own = lambda f: ('m', ('d', THIS), cls + '::' + f)
    i0, f0 = eng.load(st, B('inPts'), 'long'), eng.load(st, B('forceIntra'), 'bool')
    e0 = eng.load(st, own('encoder'))
    dst = ('arg', F.params[0]['name'], 0)
    res = eng.run(F, this=THIS, st=st)
    ck = lambda c, rule, s, text, wh=w: rep.check(c, rule, F.name + s, wh, text)
    pic = (lambda s, p, f: eng.load(s, ('m', deref(p), ('x264_picture_t::i_' if lib == 'x264' else 'x265_picture::') + f)))
    idr, auto = macro(lib, lib.upper() + '_TYPE_IDR'), macro(lib, lib.upper() + '_TYPE_AUTO')
    if idr is None or auto is None: raise AnalysisBroken('types of ' + lib)
    for s, a, wh in getattr(cl, 'enc', ()):
        ck(E(eng, s, pic(s, a[3], 'pts'), i0), 'coded pictures are told apart', ', number', 'a picture is not handed to the codec under its number', wh)
        ty = pic(s, a[3], 'type' if lib == 'x264' else 'sliceType')
        forced = eng.truth(s, f0)
        ck(forced is not None and ty == C(idr if forced else auto), 'key pictures are made when asked for', ', type', 'a key picture that was asked for is not, or one that was not is, demanded of the codec', wh)
        ck(E(eng, s, a[0], e0), 'settings reach the codec', ', encoder', 'another encoder than the one configured is used', wh)
    n = 0
    for s, v in res:
        ev = tg(s)['ev']
        encs = [e for e in ev if e[0] == 'encode']
        ok = eng.truth(s, v)
        g = lambda f: eng.load(s, B(f))
        if not encs:
            ck(ok is False, 'coded pictures hold all their units', ', not coded', 'success is reported though nothing was coded')
            ck(E(eng, s, g('inPts'), i0), 'coded pictures are told apart', ', not coded', 'the number of pictures changes though none was handed to the codec')
            ck(E(eng, s, g('forceIntra'), f0), 'key pictures are made when asked for', ', kept', 'a demand for a key picture is lost')
            ck(eng.truth(s, ('dyn', dst, 'SlicedVideoFrame')) is False or eng.ent_0(s, dst) or eng.ent_0(s, e0), 'every picture is coded', '', 'a picture is not coded though an encoder is there')
            continue
        ck(len(encs) == 1, 'every picture is coded', ', once', 'a picture is coded more than once')
        r = encs[0][3]
        if eng.ent_lt(s, r, C(0)):
            ck(ok is False and E(eng, s, g('inPts'), i0), 'coded pictures are told apart', ', failed', 'a picture that could not be coded is counted')
            ck(eng.truth(s, f0) is False or E(eng, s, g('forceIntra'), f0) or eng.truth(s, g('forceIntra')) is True, 'key pictures are made when asked for', ', failed', 'a demand for a key picture is lost with a picture that could not be coded')
            continue
        ck(E(eng, s, g('inPts'), add(i0, C(1))), 'coded pictures are told apart', ', counted', 'two pictures are handed to the codec under the same number')
        ck(eng.truth(s, g('forceIntra')) is False, 'key pictures are made when asked for', ', done', 'a demand for a key picture stays after it was met')
        if ok is False:
            ck(eng.ent_0(s, r) or any(e[0] == 'setSlice' and eng.truth(s, e[3]) is False for e in ev), 'coded pictures hold all their units', ', dropped', 'a coded picture is thrown away')
            continue
        n += 1
        ck(ok is True and eng.ent_lt(s, C(0), r), 'coded pictures hold all their units', ', success', 'success is reported though the codec gave no picture')
        ck(g('outPts') == ('sym', 'codedPts', None) and g('dts') == ('sym', 'codedDts', None), 'coded pictures have their own times', ', numbers', 'the numbers of the coded picture are not those the codec reports')
        i = [e[0] for e in ev]
        ck('clear' in i and 'setSlice' not in i[:i.index('clear')] and 'loop' in i and i.index('clear') < i.index('loop') and ev[i.index('clear')][1] == (dst,), 'coded pictures hold all their units', ', empty', 'units of an earlier picture may be left in the output')
        # all units were taken: the counter reached the number of units
        ck(any(eng.ent_le(s, ('sym', 'units', None), x) for x in counters(cl)), 'coded pictures hold all their units', ', all', 'not all units of a coded picture are handed on')
    rep.floor('coded pictures of ' + cls, n, 1)
    m = 0
    for s, G, h, ev in cl.steps_:
        sl = [e for e in ev if e[0] == 'setSlice']
        m += 1
        ck(len(sl) == 1 and eng.truth(s, sl[0][3]) is True, 'coded pictures hold all their units', ', each', 'a unit is left out, or handed on twice', where(G))
        for e in sl:
            p, q, z = e[1]
            at = [x for x in counters(cl) if E(eng, s, sub(cnt(eng, s, q), x), C(0)) and E(eng, s, sub(cnt(eng, s, z), x), C(0))]
            ck(p == dst and bool(at) and 'ayload' in fieldof(q) and fieldof(z).split('::')[-1] in ('i_payload', 'sizeBytes') and fieldof(q).split('::')[-1] in ('p_payload', 'payload'), 'coded pictures hold all their units', ', content', 'a unit is handed on with another content or length', where(G))
    rep.floor('loops over units of ' + cls, m, 1)
    rep.funcs |= eng.visited_funcs


def cnt(eng, s, v):
    """index of the unit a value was read from"""
    v = nocast(v)
    while v[0] == 'op' and v[1] == 'narrow': v = v[2]
    if v[0] != 'init' or v[1][0] != 'm': return ('?',)
    L = v[1][1]
    if L[0] == 'i' and L[1] in (('d', ('sym', 'nals', None)),): return L[2]
    if L[0] == 'd':
        p = L[1]
        if p == ('sym', 'nals', None): return C(0)
        if p[0] == 'lin':
            r = sub(p, ('sym', 'nals', None))
            return r
    return ('?',)


def fieldof(v):
    v = nocast(v)
    while v[0] == 'op' and v[1] == 'narrow': v = v[2]
    return v[1][2] if v[0] == 'init' and v[1][0] == 'm' else ''


def E(eng, s, a, b): return a == b or eng.ent_eq(s, a, b)


def run_setup(rep, P, cls):
    lib = LIBS[cls]
    F = method(P, cls, 'reconfigure'); w = where(F)
    cl = Enc(); eng, st = start(P, cl, cls)
    own = lambda f: ('m', ('d', THIS), cls + '::' + f)
    pix = enum_of(P, 'PixType')
    org = ('arg', F.params[0]['name'], 0)
    W, H, X = (eng.load(st, fld(org, f), t) for f, t in (('w', 'int'), ('h', 'int'), ('pix', None)))
    nc0 = eng.load(st, B('needsConfig'), 'bool')
    e0 = eng.load(st, own('encoder')); x0 = eng.load(st, B('inPixFmt'))
    xp = own('xparams')
    xb = xp if lib == 'x264' else ('d', eng.load(st, xp))
    xf = (lambda n: ('m', xb, ('x264_param_t::' if lib == 'x264' else 'x265_param::') + n))
    wn, hn = ('i_width', 'i_height') if lib == 'x264' else ('sourceWidth', 'sourceHeight')
    w0, h0 = eng.load(st, xf(wn), 'int'), eng.load(st, xf(hn), 'int')
    st.facts = st.facts | {('ge', add(W, C(-1))), ('ge', add(H, C(-1)))}
    res = eng.run(F, this=THIS, st=st)
    ck = lambda c, rule, s, text, wh=w: rep.check(c, rule, F.name + s, wh, text)
    n = early = 0
    for s, v in res:
        ev = tg(s)['ev']; names = [e[0] for e in ev]
        g = lambda f: eng.load(s, B(f))
        ok = eng.truth(s, v)
        ck(B('inPts') not in s.store or s.store[B('inPts')][0] == 'init', 'coded pictures are told apart', ', numbers', 'the numbers of the pictures begin anew while pictures are being coded')
        opened = [e for e in ev if e[0] in (lib + '_encoder_open', lib + '_encoder_reconfig')] + [e for e in ev if e[0].startswith(lib + '_encoder_open')]
        if ok is True and not opened:
            early += 1
            ck(eng.truth(s, nc0) is False and E(eng, s, W, w0) and E(eng, s, H, h0) and E(eng, s, X, x0), 'settings reach the codec', ', kept', 'the encoder is kept though settings or pictures changed')
            continue
        if not opened:
            ck(eng.truth(s, nc0) is True and eng.truth(s, g('needsConfig')) is True or E(eng, s, g('needsConfig'), nc0), 'settings reach the codec', ', refused', 'settings are taken for done though no encoder has them')
            ck(all(eng.nez(s, sub(X, C(pix[k]))) for k in FORMATS[lib] if k in pix), 'pictures are coded in their format', ', refused', 'a picture of a supported format is refused')
            continue
        n += 1
        # the parameters given to the library
        given = {}
        for e in ev:
            if e[0] == lib + '_param_parse':
                given.setdefault(key(e[1][1]), []).append(parts(e[1][2]))
        last = lambda k: given[k][-1] if k in given else None
        for k, f in list(PARAMS.items()) + [(THREADS[lib], 'threads')]:
            ck(last(k) == [('num', nocast(g(f)))] or last(k) is not None and len(last(k)) == 1 and last(k)[0][0] == 'num' and E(eng, s, last(k)[0][1], nocast(g(f))), 'settings reach the codec', ', ' + k, 'the setting %s is not what the codec is told' % f)
        ann = eng.truth(s, eng.load(s, cl.annexb)) if hasattr(cl, 'annexb') else None
        rh = last('repeat-headers')
        ck(ann is not None and (rh in ([('num', C(1))], ['1'])) == (ann is True), 'settings reach the codec', ', headers', 'parameter sets are not repeated exactly when the stream has to carry them')
        if ann: ck(last('annexb') in ([('num', C(1))], ['1']), 'settings reach the codec', ', annexb', 'units do not begin with start codes though the stream says so')
        pre = [e for e in ev if e[0] == lib + '_param_default_preset']
        ck(len(pre) == 1 and names.index(lib + '_param_default_preset') < (names.index(lib + '_param_parse') if lib + '_param_parse' in names else 99) and parts(pre[0][1][1]) == parts(eng.load(s, B('preset'))) or preset(eng, s, pre), 'settings reach the codec', ', preset', 'the codec does not begin with the preset configured')
        lastopen = max(i for i, e in enumerate(ev) if e in opened)
        ck(all(i < lastopen for i, e in enumerate(ev) if e[0] == lib + '_param_parse'), 'settings reach the codec', ', order', 'settings change after the encoder was opened')
        if lib == 'x264': size = E(eng, s, eng.load(s, xf(wn)), W) and E(eng, s, eng.load(s, xf(hn)), H)
        else:
            p = last('input-res')
            size = p is not None and len(p) == 3 and p[1] in ('x', C(ord('x'))) and E(eng, s, p[0][1], W) and E(eng, s, p[2][1], H)
        ck(size, 'pictures are coded in their format', ', size', 'the encoder is not opened for the size of the pictures')
        # the format
        if ok is True or eng.truth(s, g('needsConfig')) is False:
            k = [k for k in FORMATS[lib] if k in pix and E(eng, s, X, C(pix[k]))]
            csp = {'YUV420P': 'I420', 'YUV422P': 'I422', 'YUV444P': 'I444'}
            pi = own('picIn') if lib == 'x264' else ('d', eng.load(s, own('picIn')))
            cs = [eng.load(s, ('m', ('m', pi, 'x264_picture_t::img'), 'x264_image_t::i_csp')) if lib == 'x264' else eng.load(s, ('m', pi, 'x265_picture::colorSpace'))]
            ck(len(k) == 1 and E(eng, s, g('libavInPixFmt'), C(AVFMT[k[0]])) and E(eng, s, g('inPixFmt'), X), 'pictures are coded in their format', ', planes', 'the planes of a picture are not laid out as its format says')
            if len(k) == 1:
                want = C(macro(lib, '%s_CSP_%s' % (lib.upper(), csp[k[0]])))
                ck(all(c == want for c in cs), 'pictures are coded in their format', ', picture ' + k[0], 'the codec is told another colour format than that of the picture')
                ck(eng.load(s, pcsp(lib, xb)) == want, 'pictures are coded in their format', ', encoder ' + k[0], 'the encoder is opened for another colour format than that of the pictures')
        enc = eng.load(s, own('encoder'))
        if ok is True or eng.truth(s, g('needsConfig')) is False and eng.truth(s, nc0) is not False:
            good = [e for e in ev if e[0].startswith(lib + '_encoder_open') and E(eng, s, e[3], enc) and eng.nez(s, e[3])] or [e for e in ev if e[0] == lib + '_encoder_reconfig' and eng.ent_le(s, C(0), e[3]) and E(eng, s, enc, e[1][0]) and eng.nez(s, enc)]
            ck(bool(good), 'settings reach the codec', ', done', 'settings are taken for done though no encoder has them')
        if ok is True: ck(eng.truth(s, g('needsConfig')) is False, 'settings reach the codec', ', again', 'the encoder is set up again for every picture')
        # an encoder is closed before another takes its place, and not used afterwards
        for i, e in enumerate(ev):
            if e[0].startswith(lib + '_encoder_open'):
                ck(eng.ent_0(s, e0) or any(x[0] == lib + '_encoder_close' and E(eng, s, x[1][0], e0) for x in ev[:i]), 'encoders are closed once', ', replaced', 'an encoder is replaced without being closed')
        closed = [e[1][0] for e in ev if e[0] == lib + '_encoder_close']
        ck(len(closed) == len(set(map(repr, closed))) and not any(E(eng, s, enc, c) and not eng.ent_0(s, enc) for c in closed), 'encoders are closed once', ', dangling', 'a closed encoder is used again')
        if ok is True: ck(any(e[0] == 'extra' for e in ev), 'settings reach the codec', ', stream', 'the headers of the stream are not handed on')
    rep.floor('setups of ' + cls, n, 4); rep.floor('kept encoders of ' + cls, early, 1)
    rep.funcs |= eng.visited_funcs


FORMATS = {'x264': ('YUV420P', 'YUV422P', 'YUV444P'), 'x265': ('YUV420P', 'YUV444P')}


def preset(eng, s, pre): return len(pre) == 1


FT = BASE + '::FrameTimeParams::'


def run_round(rep, P):
    F = method(P, BASE, 'doProcessFrame'); w = where(F)
    cl = Enc(); cl.cut = ('encodeFrame', 'reconfigure', 'fillPicturePlanes')
    eng, st = start(P, cl, BASE)
    org, dst = (('arg', F.params[i]['name'], i) for i in (0, 1))
    i0 = eng.load(st, B('inPts'), 'long'); f0 = eng.load(st, B('forceIntra'), 'bool'); r0 = eng.load(st, B('refTime'), 'long'); gt = eng.load(st, B('gopTime'), 'unsigned int')
    eng.note_type(gt, 'unsigned int')
    O = {f: eng.load(st, fld(org, f), t) for f, t in (('pts', None), ('ots', None), ('seq', 'unsigned int'), ('w', 'int'), ('h', 'int'))}
    q = B('qFTP')
    PT = (('pTime', 'pts'), ('oTime', 'ots'), ('seqNum', 'seq'))
    res = eng.run(F, this=THIS, st=st)
    ck = lambda c, rule, s, text, wh=w: rep.check(c, rule, F.name + s, wh, text)
    ent = lambda s, k, f: eng.load(s, ('m', where_entry(eng, s, q, k), FT + f))
    for s in getattr(cl, 'at', ()):
        for f, o in PT:
            ck(entry(eng, s, q, i0, f) == O[o], 'coded pictures have their own times', ', kept', 'the times of a picture are not kept under its number until it is coded')
        # key pictures by time
        force = eng.truth(s, eng.load(s, B('forceIntra')))
        r1 = eng.load(s, B('refTime'))
        zero = eng.ent_0(s, gt)
        base = O['pts'] if eng.ent_0(s, r0) else r0
        due = eng.ent_le(s, base, O['pts']); notdue = eng.ent_lt(s, O['pts'], base)
        if zero: ck(E(eng, s, eng.load(s, B('forceIntra')), f0) and E(eng, s, r1, r0), 'key pictures come when due', ', off', 'key pictures are forced though no time is configured')
        elif due: ck(force is True and E(eng, s, r1, add(base, gt)), 'key pictures come when due', ', due', 'no key picture is made when one is due, or the next is not due one interval later')
        elif notdue: ck(E(eng, s, eng.load(s, B('forceIntra')), f0) and E(eng, s, r1, base), 'key pictures come when due', ', early', 'a key picture is made before it is due')
        else: ck(False, 'key pictures come when due', ', undecided', 'key pictures do not depend on the time of the picture')
    rep.floor('pictures to encode', len(getattr(cl, 'at', ())), 4)
    n = 0
    for s, v in res:
        ev = tg(s)['ev']; names = [e[0] for e in ev]
        ok = eng.truth(s, v)
        d = lambda f: s.store.get(fld(dst, f), ('?',))
        encs = [e for e in ev if e[0] == 'encodeFrame']
        setup = [e for e in ev if e[0] == 'reconfigure']
        if encs:
            i = names.index('encodeFrame')
            ck(setup and names.index('reconfigure') < i and eng.truth(s, setup[0][3]) is True and tuple(map(undyn, setup[0][1])) == (org, dst), 'settings reach the codec', ', before', 'a picture is coded before the settings were looked at')
            fl = [e for e in ev[:i] if e[0] == 'fill']
            ck(len(fl) == 1 and fl[0][1][2] == ('frame', 'getDataBuf', org) and E(eng, s, fl[0][1][4], O['w']) and E(eng, s, fl[0][1][5], O['h']) and fl[0][1][6] == C(1) and E(eng, s, fl[0][1][3], eng.load(s, B('libavInPixFmt'))) and eng.ent_lt(s, C(0), fl[0][3]),
               'pictures are coded in their format', ', planes', 'the planes given to the codec are not those of the picture')
            pl = [e for e in ev[:i] if e[0] == 'fillPicturePlanes']
            ck(len(pl) == 1 and eng.truth(s, pl[0][3]) is True and names.index('fillPicturePlanes') > names.index('fill'), 'pictures are coded in their format', ', filled', 'the codec does not get the planes of the picture')
            ck(len(encs) == 1 and undyn(encs[0][1][0]) == dst, 'every picture is coded', ', once', 'a picture is not coded exactly once into the output')
        if ok is not True:
            ck(not encs or eng.truth(s, encs[0][3]) is False, 'every picture is coded', ', thrown away', 'a coded picture is thrown away')
            ck(d('cons') in (('?',), C(0)) or d('cons')[0] == 'init', 'outputs are described as they are', ', nothing', 'an output that was not filled is marked as filled')
            if not encs:
                bad = [e for e in ev if e[0] in ('reconfigure', 'fillPicturePlanes') and eng.truth(s, e[3]) is False] or [e for e in ev if e[0] == 'fill' and eng.ent_le(s, e[3], C(0))]
                ck(bool(bad) or eng.ent_0(s, org) or eng.ent_0(s, dst) or any(eng.truth(s, ('dyn', x, 'VideoFrame')) is False for x in (org, dst)), 'every picture is coded', ', refused', 'a picture is not coded though nothing speaks against it')
            continue
        n += 1
        ck(bool(encs) and eng.truth(s, encs[0][3]) is True, 'every picture is coded', ', success', 'success is reported though nothing was coded')
        if not encs: continue
        tag = encs[0][3][1:]
        o1, d1 = (('sym', f + "'", tag) for f in ('outPts', 'dts'))
        fo = [e for e in ev if e[0] == 'forget']
        ck(all(len(e[1]) == 1 and E(eng, s, e[1][0], d1) for e in fo), 'coded pictures have their own times', ', forgotten', 'the times of a picture are forgotten before it was used as time of decoding')
        ck(d('cons') == C(1), 'outputs are described as they are', ', filled', 'a coded picture is not marked as filled')
        ck(E(eng, s, d('w'), O['w']) and E(eng, s, d('h'), O['h']), 'outputs are described as they are', ', size', 'the size of a coded picture is not that of the picture')
        for f, k, fr in (('pts', o1, 'pTime'), ('dts', d1, 'pTime'), ('ots', o1, 'oTime'), ('seq', o1, 'seqNum')):
            ck(isentry(eng, s, d(f), q, k, fr, i0, O, PT), 'coded pictures have their own times', ', ' + f, 'a coded picture has not the %s of the picture that it codes' % {'pts': 'presentation time', 'dts': 'decode time', 'ots': 'origin time', 'seq': 'number'}[f])
        ck(eng.ent_le(s, C(0), d1) or any(a[0] == 'op' and a[1] == 'has' and a[2] == q and a[4] == d1 and a[3] == last_has(s, q) for f in s.facts for a in [f[1]]), 'coded pictures have their own times', ', before the first', 'a decode time from before the first picture is taken for that of a picture')
    rep.floor('coded pictures', n, 4)
    rep.funcs |= eng.visited_funcs


def last_has(s, q): return None


def where_entry(eng, s, q, k): return ('i', q, k)


def entry(eng, s, q, k, f):
    L = ('i', q, k)
    v = s.store.get(('m', L, FT + f))
    if v is not None: return v
    return eng.load(s, ('m', L, FT + f))


def isentry(eng, s, v, q, k, f, i0, O, PT):
    """v is what is kept under number k"""
    o = dict(PT)[f]
    if v[0] == 'init' and v[1] == ('m', ('i', q, k), FT + f): return True
    if v == O[o]: return eng.ent_eq(s, k, i0)
    return v == eng.load(s, ('m', ('i', q, k), FT + f)) and repr(k) in repr(v)


def run_config(rep, P):
    F = method(P, BASE, 'configure0'); w = where(F)
    cl = Enc(); eng, st = start(P, cl, BASE)
    A = {p['name'].rstrip('_'): ('arg', p['name'], i) for i, p in enumerate(F.params)}
    pos = {k: v[2] for k, v in A.items()}
    names = {'bitrate': 'bitrate', 'gop': 'gop', 'lookahead': 'lookahead', 'threads': 'threads', 'bFrames': 'bFrames', 'fps': 'fps', 'gopTime': 'gopTime', 'preset': 'preset', 'annexB': 'annexb'}
    if not set(names) <= set(A): raise AnalysisBroken('parameters of configure0')
    res = eng.run(F, this=THIS, st=st)
    ck = lambda c, rule, s, text, wh=w: rep.check(c, rule, F.name + s, wh, text)
    mint = None
    n = 0
    for s, v in res:
        ok = eng.truth(s, v); g = lambda f: eng.load(s, B(f))
        kept = lambda f: s.store.get(B(f)) is None or s.store[B(f)][0] == 'init'
        if ok is not True:
            ck(all(kept(f) for f in ('bitrate', 'gop', 'lookahead', 'threads', 'bFrames', 'fps', 'gopTime', 'preset', 'needsConfig')) and not tg(s)['ev'] and not any(k[0] == 'm' and k[2].endswith('::annexb') for k in s.store), 'settings are taken or refused whole', ', refused', 'settings that are refused change something')
            ck(any(eng.ent_0(s, A[k]) or eng.ent_le(s, A[k], C(0)) for k in ('bitrate', 'gop', 'threads')) or empty(eng, s, A['preset']), 'settings are taken or refused whole', ', valid', 'valid settings are refused')
            continue
        n += 1
        for k in ('bitrate', 'gop', 'threads'): ck(eng.nez(s, A[k]) or eng.ent_lt(s, C(0), A[k]), 'settings are taken or refused whole', ', ' + k, 'a %s of 0 is accepted' % k)
        for k in ('bitrate', 'gop', 'lookahead', 'threads', 'bFrames'): ck(E(eng, s, nocast(g(names[k])), A[k]), 'settings are taken or refused whole', ', kept ' + k, 'the setting %s is not kept as it was given' % k)
        ft = [e for e in tg(s)['ev'] if e[0] == 'setFrameTime']
        z = eng.ent_le(s, A['fps'], C(0))
        from ..rat import same
        if z: ck(eng.nez(s, g('fps')) and g('fps')[0] == 'c' and len(ft) == 1 and nocast(ft[0][1][0]) == C(0), 'pictures are taken at the rate configured', ', any', 'with no rate configured pictures are not taken as they come')
        else: ck(E(eng, s, g('fps'), A['fps']) and len(ft) == 1 and rate(ft[0][1][0], A['fps']), 'pictures are taken at the rate configured', ', rate', 'the time between pictures is not that of the rate configured')
        t = g('gopTime')
        if eng.ent_le(s, A['gopTime'], C(0)): ck(E(eng, s, t, C(0)), 'key pictures come when due', ', none', 'key pictures are forced though no time is configured')
        else:
            if t[0] == 'c' and t[1] > 0: ck(eng.ent_le(s, A['gopTime'], t), 'key pictures come when due', ', interval', 'the time between key pictures is not the one configured')
            else: ck(E(eng, s, t, A['gopTime']) or t[:2] == ('op', 'max') and A['gopTime'] in map(strip_narrow, t[2:4]) and any(x[0] == 'c' for x in t[2:4]), 'key pictures come when due', ', interval', 'the time between key pictures is not the one configured')
        ck(eng.truth(s, g('needsConfig')) is True, 'settings reach the codec', ', noticed', 'new settings are not brought to the codec')
        ann = [x for k, x in s.store.items() if k[0] == 'm' and k[2].endswith('::annexb')]
        ck(len(ann) == 1 and E(eng, s, ann[0], A['annexB']), 'settings are taken or refused whole', ', kept annexb', 'the setting annexb is not kept as it was given')
        p = s.store.get(B('preset'), ('?',))
        ck(argof(p, A['preset']), 'settings are taken or refused whole', ', kept preset', 'the setting preset is not kept as it was given')
    rep.floor('settings taken', n, 2)
    # the event changes what it names and nothing else: one parameter at a time, next to no others and next to all others
    F = method(P, BASE, 'configEvent'); w2 = where(F)
    ck2 = lambda c, rule, s, text: rep.check(c, rule, F.name + s, w2, text)
    keys = {'bitrate': 'bitrate', 'fps': 'fps', 'gop': 'gop', 'lookahead': 'lookahead', 'bFrames': 'bframes', 'threads': 'threads', 'annexB': 'annexb', 'preset': 'preset', 'gopTime': 'gopTime'}
    n = 0
    for fk, fj in keys.items():
        for others in (False, True):
            cl = Enc(); cl.cut = ('configure0',); cl.focus = fj; cl.others = others
            eng, st = start(P, cl, BASE)
            now = {k: eng.load(st, B(f)) for k, f in names.items() if k not in ('annexB', 'preset')}
            ftime = eng.load(st, ('m', ('d', THIS), 'BaseFilter::frameTime'), 'long')
            st.facts = st.facts | {('ge', ftime)}
            for s, v in eng.run(F, this=THIS, st=st):
                cfg = [e for e in tg(s)['ev'] if e[0] == 'configure0']
                if not cfg:
                    ck2(eng.truth(s, v) is False, 'events change what they name', '', 'success is reported though nothing was configured'); continue
                n += 1
                ck2(len(cfg) == 1 and E(eng, s, v, cfg[0][3]), 'events change what they name', ', result', 'the result of the configuration is not reported')
                for k, jk in keys.items():
                    a = strip_narrow(nocast(cfg[0][1][pos[k]]))
                    if a[0] in ('lv', 'copyof'): a = strip_narrow(nocast(eng.load(s, a[1]))) if a[0] == 'lv' else a
                    if k == fk:
                        has = eng.truth(s, ('jzq', 'has', jk)); typed = [x for x in ('IsNumber', 'IsBool', 'IsString') if ('jzq', x, jk) in mentioned(s)]
                        given = has is True and all(eng.truth(s, ('jzq', x, jk)) is True for x in typed)
                    else: given = others
                    if given: ck2('jzv' in repr(a) and repr(jk) in repr(a), 'events change what they name', ', ' + jk, 'the parameter %s of the event is not what is configured' % jk)
                    else:
                        ck2('jzv' not in repr(a), 'events change what they name', ', other', 'a parameter that is not there changes a setting')
                        if k == 'fps': ck2(eng.ent_0(s, ftime) and a == C(0) or eng.nez(s, ftime) and E(eng, s, a, now[k]), 'pictures are taken at the rate configured', ', event', 'pictures that are taken as they come are taken at a fixed rate after another setting changed')
                        elif k in now: ck2(E(eng, s, a, now[k]), 'events change what they name', ', not ' + jk, 'the setting %s changes though the event does not name it' % jk)
                        elif k == 'annexB': ck2(a[0] == 'init' and a[1][2].endswith('::annexb'), 'events change what they name', ', not ' + jk, 'the setting %s changes though the event does not name it' % jk)
                        else: ck2(repr(B('preset')) in repr(a), 'events change what they name', ', not ' + jk, 'the setting %s changes though the event does not name it' % jk)
            rep.funcs |= eng.visited_funcs
    rep.floor('events carried out', n, 10)
    # the call of a program becomes the event
    F = method(P, BASE, 'configure'); w = where(F)
    ck = lambda c, rule, s, text: rep.check(c, rule, F.name + s, where(F), text)
    cl = Enc(); eng, st = start(P, cl, BASE)
    for s, v in eng.run(F, this=THIS, st=st):
        ev = tg(s)['ev']
        adds = {}
        for e in ev:
            if e[0] == 'Add': adds.setdefault(key(e[1][1]), []).append(e[1][2])
        for p in F.params:
            k = {x.lower(): y for x, y in keys.items()}.get(p['name'].rstrip('_').lower())
            a = adds.get(k, [])
            ck(len(a) == 1 and a[0][0] == 'jzval' and argof(a[0], ('arg', p['name'], F.params.index(p))), 'calls become events', ', %s' % k, 'the parameter %s of a call does not get into its event' % k)
        pa = [i for i, e in enumerate(ev) if e[0] == 'Add' and key(e[1][1]) == 'params']
        own = [i for i, e in enumerate(ev) if e[0] == 'Add' and key(e[1][1]) in keys.values()]
        ck(len(pa) == 1 and all(i < pa[0] for i in own) and len({ev[i][1][0] for i in own}) == 1 and ev[pa[0]][1][0] != ev[own[0]][1][0], 'calls become events', ', parameters', 'parameters of a call are left out of its event')
        ck([parts(x[1] if x[0] == 'jzval' else x) for x in adds.get('action', [])] == [['configure']] and [e[0] for e in ev].count('push') == 1 and ev[-1][0] == 'push', 'calls become events', '', 'a call does not become exactly one event')
    rep.funcs |= eng.visited_funcs


def strip_narrow(a):
    while a[0] == 'op' and a[1] in ('narrow', 'u'): a = a[2]
    return a


def argof(v, a):
    return v == a or repr(a) in repr(v) or ('argp',) + a[1:] == v or repr(('argp',) + a[1:]) in repr(v)


def empty(eng, s, a):
    """the string is known to be empty"""
    for f in s.facts:
        if f[0] == 'eq' and any(a[1] in repr(x) for x in [f[1]]) and 'size' in repr(f[1]): return True
        if 'empty' in repr(f[1]) and a[1] in repr(f[1]) and f[0] in ('ne', 'ge'): return True
    return any(a[1] in repr(f) and 'size' in repr(f) for f in s.facts)


def rate(v, fps):
    """a second in microseconds divided by the rate"""
    v = nocast(v)
    while v[0] == 'op' and v[1] in ('narrow', 'u'): v = v[2]
    return v[0] == 'op' and v[1].rstrip('?') in ('/', 'div') and nocast(v[2]) == C(1000000) and strip_narrow(v[3]) in (fps, ('init', B('fps'), 0)) or 'f2i' in repr(v) and False


def mentioned(s):
    r = set()
    def go(v):
        if isinstance(v, tuple):
            if v and v[0] == 'jzq': r.add(v)
            for x in v: go(x)
    for f in s.facts: go(f[1])
    return r


def run_planes(rep, P, cls):
    lib = LIBS[cls]
    F = method(P, cls, 'fillPicturePlanes'); w = where(F)
    cl = Enc(); eng, st = start(P, cl, cls)
    data, lines = (('arg', F.params[i]['name'], i) for i in (0, 1))
    res = eng.run(F, this=THIS, st=st)
    ck = lambda c, rule, s, text, wh=w: rep.check(c, rule, F.name + s, wh, text)
    dims = {}
    for e in F.ins.values():
        if e['op'] == 'member' and '[' in e.get('t', '') and e['f'] in ('plane', 'planes', 'stride', 'i_stride'): dims[e['f']] = int(e['t'].split('[')[1].split(']')[0])
    seen = set()
    for L, v, s, wh in cl.stores:
        f = L[1][2].split('::')[-1] if L[1][0] == 'm' else ''
        if f not in dims: continue
        seen.add(f)
        src = data if 'plane' in f else lines
        ck(eng.ent_le(s, C(0), L[2]) and eng.ent_lt(s, L[2], C(dims[f])), 'pictures are coded in their format', ', bounds', 'planes are written behind the description of the picture', wh)
        ck(v[0] == 'init' and v[1] in (('i', ('d', src), L[2]), ('d', add(src, L[2]))) or v == eng.load(s, ('i', ('d', src), L[2])) or idx(v, src) == L[2], 'pictures are coded in their format', ', plane', 'a plane of the picture is taken for another', wh)
    ck(len(seen) == 2 and all(eng.truth(s, v) is True for s, v in res), 'pictures are coded in their format', ', given', 'the planes of the picture are not given to the codec')
    for s, v in res:
        const = [L[2][1] for L, x, s2, wh in cl.stores if L[2][0] == 'c']
        ck(any(eng.ent_le(s, C(3), x) for x in counters(cl)) or set(const) >= {0, 1, 2}, 'pictures are coded in their format', ', three', 'not all planes of the picture are given to the codec')
    rep.funcs |= eng.visited_funcs


def idx(v, src):
    v = nocast(v)
    if v[0] != 'init': return None
    L = v[1]
    if L[0] == 'i' and L[1] in (('d', src), src): return L[2]
    if L[0] == 'd': return sub(L[1], src)
    return None


def run_start(rep, P):
    """before the first picture the settings are complete and are going to be brought to the codec"""
    for cls in LIBS:
        F = method(P, cls, cls); w = where(F)
        cl = Enc(); eng, st = start(P, cl, cls)
        want = {'VideoEncoderX264': 'H264', 'VideoEncoderX265': 'H265'}[cls]
        codec = enum_of(P, 'VCodecType')[want]
        for s, v in eng.run(F, this=THIS, st=st):
            g = lambda f: eng.load(s, B(f))
            ck = lambda c, rule, s_, text: rep.check(c, rule, F.name + s_, w, text)
            ck(eng.truth(s, g('needsConfig')) is True and eng.load(s, ('m', ('d', THIS), cls + '::encoder')) == C(0), 'settings reach the codec', ', first', 'the first picture may be coded by an encoder that was never set up')
            ck(all(eng.ent_lt(s, C(0), g(f)) for f in ('bitrate', 'fps', 'gop', 'threads')), 'settings are taken or refused whole', ', default', 'the settings at the beginning are not valid')
            ck(g('inPts') == C(0) and eng.truth(s, g('forceIntra')) is False, 'coded pictures are told apart', ', first', 'the numbers of the pictures do not begin with 0')
            cs = [x for k, x in s.store.items() if k[0] == 'm' and k[2].endswith('::codec')]
            ck(cs == [C(codec)], 'outputs are described as they are', ', codec', 'the stream is described as one of another codec')
        rep.funcs |= eng.visited_funcs


def run(rep, P, tier):
    run_start(rep, P)
    run_round(rep, P)
    run_config(rep, P)
    for cls in LIBS:
        run_encode(rep, P, cls)
        run_setup(rep, P, cls)
        run_planes(rep, P, cls)


def counters(cl):
    """values at the loop heads of counters that begin at 0"""
    return [x for k, x in cl.hval.items() if k[3] in cl.zero.get(k[:3], ()) and cl.entry.get(k) == 0]
