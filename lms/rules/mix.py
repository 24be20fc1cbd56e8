"""A02: the audio mixer adds every sample it accepts once, at its time and with its gain, and delivers every position once, in order, then forgets it."""
from ..engine import Engine, State
from ..lin import C, add, sub, mulc, atoms
from ..facts import AnalysisBroken
from .. import rat
from .dash import method, tg, settag, addr_of
from .images import Img, THIS, undyn, begin, member, enum_of

RULE = ('symbolic execution of a round of the mixer with inductive ring invariant; per iteration of its sample loops the locations written are rewritten to the iteration count '
        '(affine and modular steps proved at the back edges) and value and place are compared with the mix; rational normal forms for gains, compression and times')
LEVEL = 'other'
ASSUME = ['inputs have the sample rate of the mixer', 'fewer than 2^63 / 48000 microseconds pass', 'floating point rounding', 'frames have a plane of memory for each channel of the mixer']
CLS = 'AudioMixer'
AFC = ('Frame', 'AudioFrame', 'PlanarAudioFrame', 'InterleavedAudioFrame')
AGET = {'getSampleFmt': ('fmt', None), 'getSamples': ('samples', 'unsigned int'), 'getChannels': ('ch', 'unsigned int'), 'getSampleRate': ('rate', 'unsigned int'), 'getPresentationTime': ('pts', None), 'getDecodeTime': ('dts', None)}
ASET = {'setSamples': 'samples', 'setChannels': 'ch', 'setSampleRate': 'rate', 'setLength': 'len', 'setPresentationTime': 'pts', 'setDecodeTime': 'dts', 'setConsumed': 'cons', 'setSampleFormat': 'fmt'}
M = lambda f: member(CLS, f)
BUF = M('mixBuffers')


def nf(p, f): return ('m', ('d', undyn(p)), 'NF::' + f)


class Mix(Img):
    K = 4000
    max_steps = 4000000

    def __init__(self, rep=None, root=False):
        super().__init__('audioMixer/')
        self.rep, self.root = rep, root
        self.steps = {}; self.step = {}          # (frame, head, vid) -> step or None
        self.effects = []
        self.clears = []
        self.backs = []
        self.main = set()
        self.bytes = {}

    def init(self): return tuple(sorted(dict(loops=(), call=(), draw=(), clear=()).items()))

    # ---------------------------------------------------------------- frames
    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        A = lambda i: eng.num(eng.rvalue(st, args[i]))
        if obj is not None and fn.split('::')[0] in AFC:
            p = undyn(addr_of(obj))
            if short in AGET:
                f, ty = AGET[short]
                v = eng.load(st, nf(p, f), ty)
                if ty: eng.note_type(v, ty)
                return v
            if short == 'getPlanarDataBuf': return ('frame', 'planar', p)
            if short in ASET: st.store[nf(p, ASET[short])] = A(0); return C(0)
        if fn in ('std::max', 'std::min') and len(args) == 2:
            x, y = A(0), A(1)
            up = fn == 'std::max'
            s1 = st.copy(); s1.facts = s1.facts | {('ge', sub(x, y) if up else sub(y, x))}
            s2 = st.copy(); s2.facts = s2.facts | {('ge', add(sub(y, x) if up else sub(x, y), C(-1)))}
            return [(s1, x), (s2, y)]
        if fn == 'utils::getBytesPerSampleFromFormat':
            x = A(0)
            if x[0] == 'c' and x[1] in self.bytes: return self.bytes[x[1]]
            for k, b in self.bytes.items():
                if eng.ent_eq(st, x, C(k)): return b
            out = []
            for k, b in self.bytes.items():
                s = st.copy(); s.facts = s.facts | {('eq', sub(x, C(k)))}; out.append((s, b))
            s = st.copy(); s.facts = s.facts | {('ne', sub(x, C(k))) for k in self.bytes}; out.append((s, C(0)))
            return out
        if fn in ('memcpy', 'memmove', '__builtin_memcpy') and len(args) == 3:
            d, s, n = (eng.rvalue(st, x) for x in args)
            if s[0] == 'addr' and eng.num(n) == C(4): st.store[('d', d)] = eng.load(st, s[1])
            else: st.store[('d', d)] = ('op', 'copied', s, n)
            return d
        if fn in ('memset', '__builtin_memset') and len(args) == 3:
            d, v, n = (eng.rvalue(st, x) for x in args)
            i = elem(d)
            if i is not None:
                self.clears.append((i, v, eng.num(n), st.copy(), eng.where(ins)))
            return d
        if fn.startswith('std::fill') and len(args) == 3:
            d, e, v = (eng.rvalue(st, x) for x in args)
            i = elem(d)
            if i is not None:
                self.clears.append((i, v, mulc(eng.num(sub(e, d)), 4), st.copy(), eng.where(ins)))
            return C(0)
        return super().on_call(eng, st, ins, fn, obj, args, cands)

    def distinct(self, a, b):
        x, y = base(('d', a)), base(('d', b))
        return x is not None and y is not None and x[0] != y[0]

    # ---------------------------------------------------------------- loops
    def inv(self, eng, st):
        f, r = (eng.load(st, M(x), 'unsigned long') for x in ('front', 'rear'))
        for x in (f, r): eng.note_type(x, 'unsigned long')
        m = eng.load(st, M('mixBufferMaxSamples'), 'unsigned int')
        return [sub(r, f), sub(add(f, m), r), f]

    def on_cast(self, eng, st, ins, v, ft, t):
        r = super().on_cast(eng, st, ins, v, ft, t)
        return signs(r, t)

    def on_loop_enter(self, eng, st, F, h):
        super().on_loop_enter(eng, st, F, h)
        for v in eng.loop_mods(F, h)[0]:
            x = st.store.get(('v', eng.frame, v))
            k = ('v', ('pre', eng.frame, h), v)
            if x is None: st.store.pop(k, None)
            else: st.store[k] = x
        settag(st, loops=tuple(l for l in tg(st)['loops'] if l != (eng.frame, h)) + ((eng.frame, h),))
        if self.root and not all(eng.ent_ge(st, x) for x in self.inv(eng, st)):
            self.rep.check(False, 'the mix window', F.name, '%s:%d (%s)' % (F.file, F.line, F.name), 'the positions of the mix may leave its window')

    def after_havoc(self, eng, st, F, h, fields):
        super().after_havoc(eng, st, F, h, fields)
        for L in [L for L in st.store if L[0] in ('d', 'i') and base(L) is not None]: del st.store[L]
        if self.root: st.facts = st.facts | {('ge', x) for x in self.inv(eng, st)}

    def on_backedge(self, eng, st, F, h):
        super().on_backedge(eng, st, F, h)
        fr = eng.frame
        for v in eng.loop_mods(F, h)[0]:
            y = st.store.get(('v', fr, v)); x = ('hv', ('lp', fr, h), ('v', fr, v))
            d = None
            if y is not None:
                y = strip(y)
                if y == x: d = ('+', 0)
                elif y[0] in ('lin', 'c', 'hv', 'sym', 'arg', 'init', 'op'):
                    m = None
                    if y[0] == 'op' and y[1].rstrip('?') == '%': m, y = y[3], strip(y[2])
                    z = sub(y, x)
                    if z[0] == 'c': d = ('%', z[1], m) if m is not None else ('+', z[1])
                if d == ('+', 1) or y == C(0) and d is None: d = ('+' if d else 'z', 1) + (limits(st, x, d is not None),)
            self.steps.setdefault((fr, h, v), set()).add(d)
        if not self.root: return
        w = '%s:%d (%s)' % (F.file, F.line, F.name)
        touched = {(L, v): b for L, v in st.store.items() if L[0] in ('d', 'i') for b in [base(L)] if b is not None}
        if touched: self.effects.append(((fr, h), touched, st.copy(), w))
        ls = tg(st)['loops']
        i = ls.index((fr, h)) if (fr, h) in ls else len(ls)
        self.backs.append(((fr, h), ls[i + 1:], st.copy(), F, w))
        settag(st, loops=ls[:i + 1])
        if any(f in ('AudioMixer::front', 'AudioMixer::rear') for f in map(fieldname, eng.loop_mods(F, h)[1])): self.main.add((fr, h))

    # ---------------------------------------------------------------- judged when all loops are known
    def roles(self):
        """what the loops that change the mix run over"""
        self.lim, self.kind = {}, {}
        for k, ds in self.steps.items():
            if any(d is not None and d[0] == 'z' for d in ds) and all(d is not None and d[1] == 1 and d[0] in '+z' for d in ds):
                ms = frozenset.intersection(*(d[2] for d in ds))
                self.step[k] = ('%', 1, min(ms, key=repr)) if ms and any(d[0] == '+' for d in ds) else None
            else:
                ds = {d[:2] if d is not None and d[0] == '+' else d for d in ds}
                self.step[k] = ds.pop() if len(ds) == 1 else None
        for l, touched, st, w in self.effects:
            k = 'out' if isout(touched) else 'mix'
            for (L, v), (kind, I, off, p) in touched.items():
                if kind != 'buf': continue
                ci = {x[1][1:] for x in hvs(I)}
                for x in ci: self.lim[x] = 'channels'; self.kind[x] = k
                for x in {x[1][1:] for x in hvs(off)} | {l}:
                    if x not in ci: self.lim[x] = k; self.kind[x] = k
        for i, v, n, st, w in self.clears:
            for x in hvs(i): self.lim[x[1][1:]] = 'channels'; self.kind[x[1][1:]] = 'clear'

    def ended(self, eng, st, l):
        """the loop l ended only when everything was handled"""
        lim = self.lim[l]
        n = eng.load(st, M('channels')) if lim == 'channels' else eng.load(st, M('outputSamples')) if lim == 'out' else self.samples(eng, st)
        return n is not None and any(eng.ent_le(st, n, ('hv', ('lp',) + l, ('v', l[0], v))) for (fr, h, v), d in self.step.items() if (fr, h) == l and d == ('+', 1))

    def samples(self, eng, st):
        p = frame_in(st)
        return eng.load(st, nf(p, 'samples')) if p is not None else None

    def foreign(self, eng, st):
        """frames of a format that can not be mixed"""
        p = frame_in(st)
        return p is not None and all(eng.nez(st, sub(eng.load(st, nf(p, 'fmt')), C(self.fmt[x]))) for x in ('S16P', 'FLTP'))

    def starts(self, eng, st, k):
        """position of the first sample in the iterations of this state's mix"""
        g = lambda s, f: s.store.get(M(f)) or eng.load(s, M(f))
        return {residue0(self, s, b[2]) for l, t, s, w in self.effects if isout(t) == (k == 'out') for b in t.values() if b[0] == 'buf' and (k == 'out' or g(s, 'syncTs') == g(st, 'syncTs'))}

    def judge(self, eng):
        self.roles()
        for l, children, st, F, w in self.backs:
            for c in children:
                if self.kind.get(c) == 'mix' and self.foreign(eng, st): continue
                if c in self.lim: self.rep.check(self.ended(eng, st, c), 'every sample is handled', '%s, %s' % (F.name, self.kind[c]), w, 'not all samples or channels of a frame are handled')
            if l in self.main: self.round(eng, st, F, children, w)

    def round(self, eng, st, F, children, w):
        rep = self.rep
        rep.check(all(eng.ent_ge(st, x) for x in self.inv(eng, st)), 'the mix window', F.name + ', round', w, 'the positions of the mix may leave its window')
        g = lambda f: eng.load(st, M(f))
        f0, r0 = (before(self, eng, st, x) for x in ('front', 'rear'))
        p = frame_in(st)
        n = self.samples(eng, st)
        E = lambda a, b: a == b or eng.ent_eq(st, a, b)
        moved = not E(g('front'), f0)
        s0 = before(self, eng, st, 'syncTs')
        rep.check(moved or E(g('syncTs'), s0) or eng.ent_lt(st, s0, C(0)), 'positions are times', F.name + ', origin', w, 'the time positions are counted from changes while positions are mixed')
        ok = lambda c, rule, sub_, text: rep.check(c, rule, F.name + sub_, w, text)
        kinds = [self.kind.get(c) for c in children if not (self.kind.get(c) == 'mix' and self.foreign(eng, st))]
        if moved:
            ok(g('front') == C(0) and p is not None and E(g('syncTs'), eng.load(st, nf(p, 'pts'))), 'positions are times', ', resync', 'after a resynchronisation positions are not counted from the frame')
            ok('clear' in kinds and 'mix' not in kinds[:kinds.index('clear')], 'delivered positions start silent', ', resync', 'the samples mixed before a resynchronisation stay in the mix')
            far = [a for a in fact_atoms(st) if a[0] == 'op' and a[1].rstrip('?') in ('u', '/')]
            ok(n is not None and any(eng.ent_lt(st, sub(add(f0, g('mixBufferMaxSamples')), n), a) for a in far) or any_usub(eng, st, f0, g, n, far), 'no sample is dropped', ', resync', 'the mix is thrown away though the frame fits into its window')
        else: ok('clear' not in kinds, 'no sample is dropped', ', cleared', 'the mix is cleared without a resynchronisation')
        if 'mix' in kinds:
            Ps = self.starts(eng, st, 'mix')
            ok(n is not None and Ps and all(eng.ent_le(st, add(P, n), g('rear')) for P in Ps), 'the mix window', ', end', 'the end of the mix is before the end of the frame mixed')
            ok(moved or eng.ent_le(st, r0, g('rear')), 'the mix window', ', end kept', 'the end of the mix moves back')
            ok(n is not None and (all(E(g('rear'), add(P, n)) for P in Ps) or not moved and E(g('rear'), r0)), 'the mix window', ', end exact', 'the end of the mix is not that of the frames mixed')
        elif p is not None:
            why = (eng.truth(st, ('dyn', p, 'AudioFrame')) is False or eng.ent_0(st, p) or n is not None and (eng.ent_lt(st, sub(g('mixBufferMaxSamples'), sub(r0, f0)), n) or eng.ent_le(st, n, C(0)))
                   or any(eng.ent_lt(st, a, f0) for a in fact_atoms(st) if a[0] == 'op') or eng.ent_lt(st, C(0), f0) and E(g('syncTs'), eng.load(st, nf(p, 'pts'))) or self.foreign(eng, st))
            ok(why, 'no sample is dropped', '', 'a frame that fits into the mix is not mixed')
            ok(moved or E(g('rear'), r0) or children and self.foreign(eng, st), 'the mix window', ', dropped', 'the end of the mix changes though nothing was mixed')


def limits(st, x, below):
    """values that x + 1 has reached (or is below of) on this path"""
    r = set()
    for f in st.facts:
        if f[1][0] != 'lin': continue
        k = dict(f[1][2]).get(x)
        if k is None: continue
        if f[0] == 'ge':
            if below and k == -1: r.add(add(f[1], add(x, C(2))))
            if not below and k == 1: r.add(add(sub(x, f[1]), C(1)))
        elif f[0] == ('ne' if below else 'eq') and k in (1, -1): r.add(add(sub(x, f[1]), C(1)) if k == 1 else add(add(x, f[1]), C(1)))
    return frozenset(strip(y) for y in r)


def any_usub(eng, st, f0, g, n, far):
    if n is None: return False
    for a in fact_atoms(st):
        if a[0] == 'op' and a[1] == 'usub' and sub(a[2], a[3]) == sub(add(f0, g('mixBufferMaxSamples')), n):
            if any(eng.ent_lt(st, a, b) for b in far): return True
    return False


def fieldname(x): return x if isinstance(x, str) else x[-1] if isinstance(x, tuple) else ''


def fact_atoms(st): return {a for f in st.facts for a in atoms(f[1])}


def before(cl, eng, st, f):
    """value of a field at the head of the round"""
    vs = {a for a in everything(st) if a[0] == 'init' and a[1] == M(f)}
    if not vs: return eng.load(st, M(f))
    return max(vs, key=lambda a: a[2] if isinstance(a[2], int) else 0)


def everything(st):
    for f in st.facts: yield from deep(f[1])


def deep(v):
    if not isinstance(v, tuple): return
    if v and v[0] == 'init': yield v
    for x in v: yield from deep(x)


def frame_in(st):
    """the input frame the round is about"""
    ps = set()
    for v in list(st.store.values()) + [f[1] for f in st.facts]:
        for x in pieces(v):
            if x[0] == 'dyn' and x[2] == 'AudioFrame' and 'orgFrames' in repr(x[1]): ps.add(x[1])
    return list(ps)[0] if len(ps) == 1 else None


def pieces(v):
    if not isinstance(v, tuple): return
    if v and isinstance(v[0], str): yield v
    for x in v: yield from pieces(x)


def hvs(v): return {x for x in pieces(v) if x[0] == 'hv' and isinstance(x[1], tuple) and x[1][:1] == ('lp',)}


def elem(p):
    """channel of the mix buffer a pointer is the start of"""
    if p[0] == 'init' and p[1][0] == 'i' and p[1][1] == BUF: return p[1][2]
    if p[0] == 'init' and p[1][0] == 'd' and p[1][1][0] == 'lin' and ('addr', BUF) in atoms(p[1][1]): return sub(p[1][1], ('addr', BUF))
    return None


def plane(p):
    """(channel, frame) of the plane a pointer is the start of"""
    if p[0] != 'init': return None
    L = p[1]
    if L[0] == 'd':
        a = [x for x in atoms(L[1]) if x[0] == 'frame' and x[1] == 'planar']
        if len(a) == 1: return sub(L[1], a[0]), a[0][2]
    if L[0] == 'i' and L[1][0] == 'd' and L[1][1][:2] == ('frame', 'planar'): return L[2], L[1][1][2]
    return None


def base(L):
    """('buf', channel, offset, None) or ('plane', channel, offset, frame) of a location"""
    if L[0] == 'i' and L[1][0] == 'd': ptr, off = L[1][1], L[2]
    elif L[0] == 'd': ptr, off = L[1], C(0)
    else: return None
    for a in atoms(ptr) if ptr[0] == 'lin' else [ptr]:
        o = add(sub(ptr, a), off)
        i = elem(a)
        if i is not None: return 'buf', i, o, None
        q = plane(a)
        if q is not None: return 'plane', q[0], o, q[1]
    return None


def isout(touched): return any(b[0] == 'plane' for b in touched.values())


# ---------------------------------------------------------------- positions in the ring
def strip(v):
    """conversions that lose nothing: of remainders and of sums of them with counters; differences that the invariant keeps positive"""
    while v[0] == 'op':
        if v[1] == 'u': v = v[2]
        elif v[1] == 'narrow' and small(v[2]): v = v[2]
        elif v[1] == 'usub': return sub(strip(v[2]), strip(v[3]))
        else: break
    return v


def small(v):
    v = strip(v)
    if v[0] in ('hv', 'c') or v[0] == 'sym' and v[1] == 'n': return True
    if v[0] == 'op' and v[1].rstrip('?') == '%': return True
    if v[0] == 'lin': return all(small(a) for a in atoms(v))
    return False


def subst(v, f):
    """rewrite the loop values of an arithmetic term"""
    v = strip(v)
    w = f(v)
    if w is not None: return w
    if v[0] == 'lin':
        r = C(v[1])
        for a, k in v[2]: r = add(r, mulc(subst(a, f), k))
        return flat(r)
    if v[0] == 'op' and v[1].rstrip('?') == '%':
        return flat(('op', '%', subst(v[2], f), v[3]))
    return v


def flat(v):
    """(a % M + b) % M = (a + b) % M"""
    if v[0] != 'op' or v[1] != '%': return v
    x, m = v[2], v[3]
    for _ in range(4):
        for a in atoms(x):
            if a[0] == 'op' and a[1].rstrip('?') == '%' and a[3] == m and (x == a or x[0] == 'lin' and dict(x[2]).get(a) == 1):
                x = add(sub(x, a), strip(a[2])); break
        else: break
    return ('op', '%', x, m)


def rewrite(cl, st, v):
    """loop values in terms of the numbers of iterations"""
    def f(x):
        if x[0] != 'hv': return None
        fr, h = x[1][1:]
        if x[2][0] != 'v': return x
        d = cl.step.get((fr, h, x[2][2])); pre = st.store.get(('v', ('pre', fr, h), x[2][2]))
        if d is None or pre is None: return x
        pre = subst(pre, f)
        N = ('sym', 'n', (fr, h))
        if d[0] == '+': return add(pre, mulc(N, d[1]))
        if pre[0] == 'op' and pre[1].rstrip('?') == '%' and pre[3] == d[2] or pre == C(0): return flat(('op', '%', add(pre, mulc(N, d[1])), d[2]))
        return x
    return subst(v, f)


def residue0(cl, st, off):
    """position modulo the size of the ring at the first iteration"""
    def raw(v):
        while v[0] == 'op' and v[1] == 'narrow' and small(v[2]): v = v[2]
        if v[0] == 'op' and v[1].rstrip('?') == '%': return raw(v[2])
        if v[0] == 'hv' and v[2][0] == 'v':
            pre = st.store.get(('v', ('pre',) + v[1][1:], v[2][2]))
            return raw(pre) if pre is not None else v
        if v[0] == 'lin':
            r = C(v[1])
            for a, k in v[2]: r = add(r, mulc(raw(a), k))
            return r
        return v
    return raw(off)


# ---------------------------------------------------------------- values
def leaf(a):
    if a[0] == 'flt': return ('c', __import__('fractions').Fraction(str(a[1])))
    if a[0] == 'op' and a[1] in ('i2f', 'u', 'f2i'): return a[2]
    return None


def same(a, b): return rat.same(a, b, leaf)


def mul(a, b): return ('op', '*', a, b)


def div(a, b): return ('op', '/', a, b)


def sample_of(v):
    """(address expression, scale) candidates of the sample a value is made of"""
    out = []
    for x in pieces(v):
        if x[0] == 'init':
            b = base(x[1])
            if b and b[0] == 'plane': out.append((x, b))
    return out


def begin_mix(P, cl):
    eng, st = begin(P, cl, CLS)
    fm = cl.fmt = enum_of(P, 'SampleFmt')
    G = P.fn('utils::getBytesPerSampleFromFormat')
    if G:
        for n in fm:
            c2 = Img('Utils'); e2, s2 = begin(P, c2, CLS)
            rs = {v for s, v in e2.run(G[0], args=[C(fm[n])], st=s2)}
            if len(rs) == 1: cl.bytes[fm[n]] = rs.pop()
    st.store[M('sampleFormat')] = C(fm['FLTP'])
    for f, ty in (('front', 'unsigned long'), ('rear', 'unsigned long'), ('mixBufferMaxSamples', 'unsigned int'), ('outputSamples', 'unsigned int'), ('mixingThreshold', 'unsigned int'), ('channels', 'int'), ('sampleRate', 'int')):
        eng.note_type(eng.load(st, M(f), ty), ty)
    g = lambda f: eng.load(st, M(f))
    st.facts = st.facts | {('ge', x) for x in cl.inv(eng, st)} | {('ge', sub(g('mixingThreshold'), g('outputSamples'))), ('ge', sub(g('mixBufferMaxSamples'), g('mixingThreshold'))), ('ge', add(g('outputSamples'), C(-1))), ('ge', add(g('sampleRate'), C(-1))), ('ge', add(g('channels'), C(-1))), ('ge', sub(C(1 << 30), g('mixBufferMaxSamples')))}
    return eng, st


def run_round(rep, P):
    F = method(P, CLS, 'doProcessFrame')
    cl = Mix(rep, True); eng, st = begin_mix(P, cl)
    dst = ('arg', F.params[1]['name'], 1)
    W = '%s:%d (%s)' % (F.file, F.line, F.name)
    delivered = 0
    res = eng.run(F, this=THIS, st=st)
    cl.judge(eng)
    for s, v in res:
        g = lambda f: eng.load(s, M(f))
        E = lambda a, b: a == b or eng.ent_eq(s, a, b)
        ok = lambda c, rule, sub_, text: rep.check(c, rule, F.name + sub_, W, text)
        ok(all(eng.ent_ge(s, x) for x in cl.inv(eng, s)), 'the mix window', ', exit', 'the positions of the mix may leave its window')
        f0, r0 = (before(cl, eng, s, x) for x in ('front', 'rear'))
        kids = [l for l in tg(s)['loops'] if l in cl.lim]
        outl = [l for l in kids if cl.kind[l] == 'out']
        if eng.truth(s, v) is not True:
            ok(E(g('front'), f0) and E(g('rear'), r0) and not outl, 'every position is delivered once, in order', ', waiting', 'positions are passed over without being delivered')
            ok(eng.truth(s, ('dyn', dst, 'AudioFrame')) is False or eng.ent_lt(s, sub(r0, f0), g('mixingThreshold')) or lesser(eng, s, r0, f0, g('mixingThreshold')) or eng.ent_le(s, g('outputSamples'), C(0)) , 'every position is delivered once, in order', ', threshold',
               'nothing is delivered though enough samples are mixed')
            continue
        delivered += 1
        n = g('outputSamples')
        ok(eng.ent_le(s, g('mixingThreshold'), sub(r0, f0)), 'every position is delivered once, in order', ', early', 'positions are delivered before the frames that belong to them are awaited')
        ok(E(g('front'), add(f0, n)) and E(g('rear'), r0), 'every position is delivered once, in order', ', advance', 'the next frame does not begin where this one ends')
        ok(bool(outl), 'every sample is handled', ', nothing', 'a frame is delivered without samples')
        if outl:
            ok(all(E(x, f0) for x in cl.starts(eng, s, 'out')), 'every position is delivered once, in order', ', position', 'what is delivered is not at the begin of the mix')
            ok(all(cl.ended(eng, s, l) for l in outl), 'every sample is handled', ', channels delivered', 'not all channels are delivered')
        d = lambda f: s.store.get(nf(dst, f), ('?',))
        ok(same(d('pts'), add(div(mul(f0, C(1000000)), g('sampleRate')), g('syncTs'))) and 'narrow' not in repr(d('pts')), 'positions are times', ', time', 'the time of a delivered frame is not that of its first sample')
        for f, x, what in (('samples', n, 'number of samples'), ('ch', g('channels'), 'number of channels'), ('rate', g('sampleRate'), 'sample rate')):
            ok(E(cast(d(f)), x), 'delivered frames are described as they are', ', ' + what, 'the %s of a delivered frame is not that of the mix' % what)
        ok(same(cast(d('len')), mul(n, C(4))), 'delivered frames are described as they are', ', length', 'the length of a delivered frame is not that of its samples')
        ok(d('cons') == C(1), 'delivered frames are described as they are', ', filled', 'a delivered frame is not marked as filled')
    rep.floor('deliveries', delivered, 1)
    mixes = outs = 0
    for l, touched, st, w in cl.effects:
        if isout(touched): outs += 1; effect_out(rep, eng, cl, touched, st, w, dst)
        else: mixes += 1; effect_mix(rep, eng, cl, touched, st, w)
    for i, v, n, st, w in cl.clears:
        rep.check(v in (C(0), ('flt', 0.0)) and same(cast(n), mul(eng.load(st, M('mixBufferMaxSamples')), C(4))) and counts(cl, st, i), 'delivered positions start silent', 'clearing', w, 'the mix is not cleared as a whole')
    rep.floor('mixing iterations', mixes, 3); rep.floor('delivering iterations', outs, 1)
    rep.funcs |= eng.visited_funcs


def lesser(eng, s, r, f, th):
    for a in fact_atoms(s):
        x = strip(a)
        if a[0] == 'op' and x == sub(r, f) and eng.ent_lt(s, a, th): return True
        if a[0] == 'op' and a[1] == 'narrow' and strip(a[2]) == sub(r, f) and eng.ent_lt(s, a, th): return True
    return False


def cast(v):
    while v[0] == 'op' and v[1] in ('u', 'narrow'): v = v[2]
    return v


def counts(cl, st, i):
    """a channel index that runs from 0 in steps of 1"""
    x = rewrite(cl, st, i)
    return x[0] == 'sym' and x[1] == 'n'


def effect_mix(rep, eng, cl, touched, st, w):
    ck = lambda c, rule, sub_, text: rep.check(c, rule, w.split('(')[-1].rstrip(')') + sub_, w, text)
    ck(len(touched) == 1, 'each sample is mixed once', '', 'more than one position is changed for a sample')
    (L, v), (kind, I, off, _) = list(touched.items())[0]
    m = eng.load(st, M('mixBufferMaxSamples'))
    g = lambda f: eng.load(st, M(f))
    p = frame_in(st)
    if p is None:
        ck(False, 'each sample is mixed once', ', frame', 'samples are mixed that are not those of a new frame'); return
    R = rewrite(cl, st, off)
    N = [x for x in pieces(R) if x[0] == 'sym' and x[1] == 'n']
    # the position of the first sample
    good = R[0] == 'op' and R[1] == '%' and R[3] == m and len(set(N)) == 1
    ck(good and counts(cl, st, I), 'samples are mixed at their time', ', place', 'the samples of a frame are not mixed at consecutive positions of its channel, inside the ring')
    if not good: return
    pos = sub(R[2], N[0])
    want = div(mul(sub(eng.load(st, nf(p, 'pts')), g('syncTs')), g('sampleRate')), C(1000000))
    ck((pos == C(0) if E0(eng, st, sub(eng.load(st, nf(p, 'pts')), g('syncTs'))) else same(pos, want)) and 'narrow' not in repr(pos), 'samples are mixed at their time', ', position', 'the position of a frame is not that of its time')
    # the value
    olds = [x for x in pieces(v) if x[0] == 'init' and x[1] == L]
    smp = {x: b for x, b in sample_of(v)}
    ck(len(set(olds)) == 1 and len(smp) in (1, 2), 'each sample is mixed once', ', sum', 'the sample is not added to what is mixed at its position')
    if not olds or not smp: return
    old = olds[0]
    f = eng.load(st, nf(p, 'fmt'))
    is16, isf = (eng.ent_eq(st, f, C(cl.fmt[x])) for x in ('S16P', 'FLTP'))
    bps = 2 if is16 else 4 if isf else None
    for x, (k, i, o, q) in smp.items():
        o2 = rewrite(cl, st, o)
        n2 = N[0]
        at = [d for d in (0, 1) if bps and same(plain(eng, st, o2), add(mulc(n2, bps), C(d)))]
        ck(i == I and undyn(q) == undyn(p), 'each sample is mixed once', ', channel', 'samples are mixed into another channel than theirs')
        ck(bool(at) and (len(smp) == 2 or at == [0]), 'each sample is mixed once', ', source', 'the samples of a frame are not read one after the other in its own format')
    gain = [x for x in pieces(v) if x[0] == 'init' and x[1][0] == 'i' and x[1][1] == M('gains')]
    ids = {x[1][2] for x in gain}
    ck(len(ids) == 1 and repr(list(ids)[0]) in repr(p), 'gains are those of the channel', '', 'the sample is not mixed with the gain of its own channel')
    if not gain: return
    if is16:
        s = s16(v, smp)
        if s is None: ck(False, 'each sample is mixed once', ', 16 bit', 'the value of a 16 bit sample is not its two bytes, low one first, over 32768'); return
    else: s = list(smp)[0]
    x = add(old, mul(mul(s, gain[0]), g('masterGain')))
    th = g('th')
    side = branch(st, x, th)
    k = div(sub(C(1), th), sub(C(2), th))
    up = add(mul(k, x), div(th, sub(C(2), th))); lo = sub(mul(k, x), div(th, sub(C(2), th)))
    want = up if side == 'above' else lo if side == 'below' else x if side == 'within' else None
    ck(want is not None and same(v, want), 'the mix stays inside full scale', ', ' + str(side), 'the sum of a sample and the mix is not compressed as the threshold says')


def plain(eng, st, o):
    return o


def E0(eng, st, x): return x == C(0) or eng.ent_eq(st, x, C(0))


def s16(v, smp):
    """the part of a value that is a 16 bit sample, low byte first, over 32768"""
    ys = sorted(smp, key=lambda y: rank(smp[y][2], smp))
    if len(ys) != 2: return None
    for x in pieces(v):
        if x[0] != 'op' or not all(repr(y) in repr(x) for y in ys): continue
        if all(real(x, {ys[0]: n & 255, ys[1]: (n >> 8) & 255}) == n / 32768.0 for n in (-32768, -32767, -256, -255, -1, 0, 1, 127, 128, 255, 256, 12345, 32767)): return x
    return None


def rank(o, smp):
    base_ = list(smp.values())[0][2]
    d = sub(o, base_)
    return d[1] if d[0] == 'c' else 0


def signs(r, t):
    """numbers cut to 16 bits are signed or not"""
    if r[0] == 'op' and r[1] == 'narrow' and r[3] == C(16) and 'unsigned' not in t: return ('op', 'signed', r[2], r[3])
    if r[0] == 'op' and r[1] == 'signed' and t == 'unsigned short': return ('op', 'narrow', r[2], r[3])
    return r


def leafc(v):
    if v[0] == 'c': return v[1]
    if v[0] == 'flt': return v[1]
    return None


def branch(st, x, th):
    """which of above, below, within the threshold the path is"""
    got = set()
    for f in st.facts:
        if f[0] != 'ge' or not mentions(f[1], th): continue
        for d in (0, 1):
            if same(f[1], sub(sub(x, th), C(d))): got.add('above')
            if same(f[1], sub(sub(mulneg(x), th), C(d))): got.add('below')
            if same(f[1], sub(sub(th, x), C(d))): got.add('notabove')
            if same(f[1], sub(add(x, th), C(d))): got.add('notbelow')
    if 'above' in got: return 'above'
    if 'below' in got: return 'below'
    if 'notabove' in got and 'notbelow' in got: return 'within'
    return None


def mulneg(x): return sub(C(0), x)


def mentions(v, a): return any(x == a for x in pieces(v))


def effect_out(rep, eng, cl, touched, st, w, dst):
    ck = lambda c, rule, sub_, text: rep.check(c, rule, w.split('(')[-1].rstrip(')') + sub_, w, text)
    bufs = [(L, v, b) for (L, v), b in touched.items() if b[0] == 'buf']
    pl = [(L, v, b) for (L, v), b in touched.items() if b[0] == 'plane']
    if len(bufs) != 1 or len(pl) != 1:
        ck(False, 'delivered positions start silent', ', iteration', 'a sample is delivered and not cleared, or cleared and not delivered'); return
    L, v, (k, I, off, _) = bufs[0]
    L2, v2, (k2, I2, off2, q) = pl[0]
    m = eng.load(st, M('mixBufferMaxSamples'))
    ck(v in (C(0), ('flt', 0.0)), 'delivered positions start silent', ', value', 'a position is not silent after it was delivered')
    ck(v2[0] == 'init' and v2[1] == L, 'every position is delivered once, in order', ', value', 'the sample delivered is not the one mixed for its position')
    ck(I == I2 and counts(cl, st, I) and undyn(q) == undyn(dst), 'every position is delivered once, in order', ', channel', 'samples are delivered in another channel than theirs')
    R = rewrite(cl, st, off); o2 = rewrite(cl, st, off2)
    N = {x for x in pieces(R) if x[0] == 'sym' and x[1] == 'n'}
    good = R[0] == 'op' and R[1] == '%' and R[3] == m and len(N) == 1
    ck(good and same(o2, mulc(list(N)[0], 4)), 'every position is delivered once, in order', ', order', 'consecutive positions are not delivered as consecutive samples')


GAINS = M('gains')
FLT = ('flt',)


class Set_(Img):
    """the small methods: what they store as gains, and what they ask of the queues"""
    def __init__(self):
        Img.__init__(self, 'audioMixer/')
        self.writes = []; self.loopends = []; self.sizes = {}

    def init(self): return tuple(sorted(dict(call=(), draw=(), clear=(), put=(), before=()).items()))

    def inline(self, eng, st, G, ins): return Img.inline(self, eng, st, G, ins) or G.name in ('AudioFrame::getDefaultSamples', 'AudioFrame::getMaxSamples', 'utils::getBytesPerSampleFromFormat')

    def on_cast(self, eng, st, ins, v, ft, t):
        r = Img.on_cast(self, eng, st, ins, v, ft, t)
        return signs(r, t)

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        b = (fn or '').rsplit('::', 1)[-1]
        if b == 'setOutputFrameSamples' and obj is not None:
            settag(st, call=tg(st)['call'] + (('ask', undyn(addr_of(obj)), eng.rvalue(st, args[0])),))
            return ('void',)
        if fn == 'Jzon::Node::Get' and args:
            k = text(eng.rvalue(st, args[0]))
            if k is not None: return ('lv', ('d', ('jz', k)))
        if b == 'memcpy' and len(args) == 3:
            a = [eng.rvalue(st, x) for x in args]
            settag(st, call=tg(st)['call'] + (('copy',) + tuple(a),))
            return a[0]
        return Img.on_call(self, eng, st, ins, fn, obj, args, cands)

    def on_store(self, eng, st, ins, L, v):
        if L == M('masterGain') or L[0] == 'i' and L[1] == GAINS:
            self.writes.append((L, v, st.copy(), eng.where(ins)))
            settag(st, put=tg(st)['put'] + ((L, v),))

    def on_loop_enter(self, eng, st, F, h):
        Img.on_loop_enter(self, eng, st, F, h)
        settag(st, before=tuple(dict.fromkeys(tg(st)['before'] + tg(st)['put'])), put=())

    def on_backedge(self, eng, st, F, h):
        self.loopends.append((st.copy(), F, h))
        settag(st, put=())

    def on_new(self, eng, st, ins, val, n):
        if n is not None: self.sizes.setdefault(ins['i'], set()).add(n)


def text(v):
    return v[1] if v[0] == 'str' else None


def small_run(P, nm, args=None, st0=None):
    F = method(P, CLS, nm); cl = Set_(); eng, st = begin(P, cl, CLS)
    if st0: st0(eng, st)
    kw = dict(args=args(F)) if args else {}
    return F, cl, eng, list(eng.run(F, this=THIS, st=st, **kw)), '%s:%d (%s)' % (F.file, F.line, F.name)


def real(v, env):
    """value of an arithmetic expression for given inputs; None if it depends on anything else"""
    if v in env: return env[v]
    if v[0] == 'flt': return float(v[1])
    if v[0] == 'c': return v[1]
    if v[0] == 'lin':
        r = v[1]
        for a, k in v[2]:
            x = real(a, env)
            if x is None: return None
            r += k * x
        return r
    if v[0] == 'op':
        o = v[1].rstrip('?')
        a = real(v[2], env)
        if a is None: return None
        if o in ('u', 'f2d'): return a
        if o == 'narrow': return int(a) & ((1 << v[3][1]) - 1)
        if o == 'signed':
            x = int(a) & ((1 << v[3][1]) - 1)
            return x - (1 << v[3][1]) if x >> (v[3][1] - 1) else x
        if o == 'i2f': return float(a)
        if o == 'f2i': return int(a)
        b = real(v[3], env) if len(v) > 3 else None
        if b is None: return None
        fl = isinstance(a, float) or isinstance(b, float)
        if o in ('/', 'div'): return None if not b else a / b if fl else int(a / b)
        if o in ('min', 'max'): return (min if o == 'min' else max)(a, b)
        if fl and o not in ('+', '-', '*', 'mul'): return None
        return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, 'mul': lambda: a * b, '%': lambda: a % b if b else None}.get(o, lambda: None)()
    return None


def holds(f, env):
    """truth of a path condition for given inputs (comparisons of reals that exclude equality carry the constant -1)"""
    x = real(f[1], env)
    if x is None: return None
    if f[0] == 'ge': return x + 1 > 0 if isinstance(x, float) and f[1][0] == 'lin' and f[1][1] == -1 else x >= 0
    return (x == 0) == (f[0] == 'eq')


def run_samples(rep, P):
    """samples keep their value when they are read from the inputs and written to the output"""
    fm = enum_of(P, 'SampleFmt')
    for nm in ('bytesToFloat', 'floatToBytes'):
        back = nm == 'floatToBytes'
        for fmt in sorted(fm):
            def args(F):
                r = []
                for i, p in enumerate(F.params):
                    r.append(C(fm[fmt]) if i == 2 else ('lv', ('d', ('argp', p['name'], i))) if p.get('ref') else ('arg', p['name'], i))
                return r
            F, cl, eng, res, w = small_run(P, nm, args)
            ck = lambda c, text: rep.check(c, 'samples keep their value', '%s, %s' % (F.name, fmt), w, text)
            src, dst = ('arg', F.params[0]['name'], 0), ('argp', F.params[1]['name'], 1)
            if fmt not in ('S16P', 'FLTP'):
                ck(all(eng.truth(s, v) is False for s, v in res), 'samples of a format that is not converted are taken as converted'); continue
            ck(bool(res) and all(eng.truth(s, v) is True for s, v in res), 'samples of this format are not converted')
            if fmt == 'FLTP':
                for s, v in res:
                    if back: ck([c for c in tg(s)['call'] if c[0] == 'copy'] in ([('copy', src, ('addr', ('v', 'r', F.params[1].get('vid'))), C(4))],) or floatcopy(eng, s, tg(s)['call'], src, F) or s.store.get(('d', src)) == ('arg', F.params[1]['name'], 1), 'the sample written is not the one given')
                    else: ck(s.store.get(('d', dst)) == ('init', ('d', src), 0), 'the sample read is not the one stored')
                continue
            vals = sorted(set(range(-32768, 32768, 61)) | set(range(-260, 261)) | {-32768, -32767, 32767, 32766})
            bad = None
            for x in vals:
                lo, hi = x & 255, (x >> 8) & 255
                if back: env = {('arg', F.params[1]['name'], 1): x / 32768.0}
                else: env = {('init', ('d', src), 0): lo, ('init', ('d', add(src, C(1))), 0): hi}
                paths = [s for s, v in res if all(holds(f, env) is not False for f in s.facts)]
                if len(paths) != 1: bad = x; break
                s = paths[0]
                if back:
                    y = [real(s.store.get(('d', add(src, C(k)) if k else src), ('?',)), env) for k in (0, 1)]
                    if None in y or [y[0] & 255, y[1] & 255] != [lo, hi]: bad = x; break
                else:
                    y = real(s.store.get(('d', dst), ('?',)), env)
                    if y is None or y != x / 32768.0: bad = x; break
            ck(bad is None, 'sample value %s is not kept' % bad)
            if back:
                env = {('arg', F.params[1]['name'], 1): 1.0}
                ps = [s for s, v in res if all(holds(f, env) is not False for f in s.facts)]
                y = [real(ps[0].store.get(('d', add(src, C(k)) if k else src), ('?',)), env) for k in (0, 1)] if len(ps) == 1 else [None]
                ck(None not in y and [y[0] & 255, y[1] & 255] == [255, 127], 'full scale does not stay the largest sample')
    rep.floor('sample formats', len(fm), 6)


def floatcopy(eng, s, calls, dst, F):
    """the four bytes of the parameter are copied to the destination"""
    cs = [c for c in calls if c[0] == 'copy']
    if len(cs) != 1 or cs[0][1] != dst or cs[0][3] != C(4): return False
    L = addr_of(cs[0][2])
    return any(eng.load(s, x) == ('arg', F.params[1]['name'], 1) for x in (L, cs[0][2][1] if cs[0][2][0] in ('addr', 'lv') else L) if isinstance(x, tuple) and x[0] in 'vmid')


def unit(eng, s, v):
    z = lambda x: real(x, {})
    if v[0] == 'op' and v[1] in ('min', 'max') and z(v) is None:
        b = lambda w, c, up: z(w) is not None and (z(w) >= c if up else z(w) <= c) or (w[0] == 'op' and w[1] in ('min', 'max') and (any if (w[1] == 'max') == up else all)(b(y, c, up) for y in w[2:4]))
        return b(v, 0, True) and b(v, 1, False)
    if z(v) is not None: return 0 <= z(v) <= 1
    return eng.ent_ge(s, sub(v, ('flt', 0.0))) and eng.ent_ge(s, sub(('flt', 1.0), v))


def clamped(eng, s, v, want):
    """v is the wanted value brought into [0, 1]"""
    if v == want: return True
    z = real(v, {})
    if z == 1: return eng.ent_ge(s, sub(want, ('flt', 1.0))) or eng.ent_lt(s, ('flt', 1.0), want)
    if z == 0: return eng.ent_ge(s, sub(('flt', 0.0), want)) or eng.ent_lt(s, want, ('flt', 0.0))
    if v[0] == 'op' and v[1] in ('min', 'max'): return all(real(v, {want: x}) == min(max(x, 0), 1) for x in (-1.0, -0.25, 0.0, 0.25, 0.5, 1.0, 1.25, 2.0))
    return False


def params_of(s, key, to):
    """value read from the parameters of the event under a name"""
    return [a for a in alldeep(s) if a[0] == 'pcall' and a[1].endswith('::' + to)]


def run_gains(rep, P):
    skip = (CLS, '~' + CLS, 'doProcessFrame', 'pushToBuffer', 'mixSample', 'extractMixedFrame', 'doGetState', 'initializeEventMap')
    R = 'gains are within [0, 1]'
    n = 0
    for G in sorted(P.funcs.values(), key=lambda G: G.name):
        if not G.name.startswith(CLS + '::') or G.name.rsplit('::', 1)[-1] in skip or not G.blocks: continue
        F, cl, eng, res, w = small_run(P, G.name.rsplit('::', 1)[-1])
        for L, v, s, wh in cl.writes:
            n += 1
            rep.check(unit(eng, s, v), R, F.name, wh, 'a gain may be set to a value outside of [0, 1]')
            if L != M('masterGain') and G.name.rsplit('::', 1)[-1] not in ('specificReaderConfig',):
                has = [a for a in fact_atoms(s) if a[0] == 'op' and a[1] == 'has' and a[2] == GAINS and a[4] == L[2] and a[3] == (0, None)]
                rep.check(any(eng.truth(s, a) is True for a in has) or L[2][0] == 'mkey' or haskey(L[2]), 'gains belong to channels', F.name, wh, 'a channel that does not exist gets a gain')
        rep.funcs |= eng.visited_funcs
        put = lambda s: tg(s)['put']
        ck = lambda c, rule, sub_, text: rep.check(c, rule, F.name + sub_, w, text)
        true = [s for s, v in res if eng.truth(s, v) is not False]
        A = lambda i: ('arg', F.params[i]['name'], i)
        both = lambda s: tg(s)['before'] + put(s)
        for s, v in res:
            if eng.truth(s, v) is not True: ck(not both(s), 'commands that fail change nothing', '', 'gains change though the command is refused')
        if G.name.rsplit('::', 1)[-1] == 'setChannelGain':
            for s in true: ck(len(put(s)) == 1 and put(s)[0][0] == ('i', GAINS, A(0)) and clamped(eng, s, put(s)[0][1], A(1)), 'commands set the gains they name', '', 'the gain set is not the one given, of the channel given')
            for s, v in res:
                if eng.truth(s, v) is False: ck(any(a[0] == 'op' and a[1] == 'has' and a[4] == A(0) and eng.ent_le(s, a, C(0)) for a in fact_atoms(s)), 'commands set the gains they name', ', refused', 'a gain of an existing channel is refused')
            ck(bool(true), 'commands set the gains they name', ', accepted', 'no gain is accepted')
        elif G.name.rsplit('::', 1)[-1] == 'changeChannelVolumeEvent':
            for s in true: ck(len(put(s)) == 1 and put(s)[0][0][:2] == ('i', GAINS) and told(eng, s, put(s)[0][0][2], 'id') and any(clamped(eng, s, put(s)[0][1], x) for x in tolds(eng, s, 'gain')), 'commands set the gains they name', '', 'the gain set is not the one in the command')
        elif G.name.rsplit('::', 1)[-1] == 'muteChannelEvent':
            for s in true: ck(len(put(s)) == 1 and put(s)[0][0][:2] == ('i', GAINS) and told(eng, s, put(s)[0][0][2], 'id') and real(put(s)[0][1], {}) == 0, 'commands set the gains they name', '', 'the channel in the command is not muted')
        elif G.name.rsplit('::', 1)[-1] == 'muteMasterEvent':
            for s in true: ck([x for x in put(s) if x[0] == M('masterGain')] == list(put(s)) and len(put(s)) == 1 and real(put(s)[0][1], {}) == 0, 'commands set the gains they name', '', 'the output is not muted')
        elif G.name.rsplit('::', 1)[-1] == 'changeMasterVolumeEvent':
            for s in true: ck(len(put(s)) == 1 and put(s)[0][0] == M('masterGain') and any(clamped(eng, s, put(s)[0][1], x) for x in tolds(eng, s, 'gain')), 'commands set the gains they name', '', 'the gain set is not the one in the command')
        elif G.name.rsplit('::', 1)[-1] == 'soloChannelEvent':
            for s in true: ck(len(both(s)) >= 1 and both(s)[0][0][:2] == ('i', GAINS) and told(eng, s, both(s)[0][0][2], 'id') and real(both(s)[0][1], {}) == 1, 'commands set the gains they name', '', 'the channel in the command does not get its full gain')
            ck(bool(cl.loopends), 'commands set the gains they name', ', others', 'the other channels are not muted')
            for s, F2, h in cl.loopends:
                keys = {x for x in alldeep(s) if iskey(x)}
                same_ = any(told(eng, s, y, 'id') and eng.ent_eq(s, k, y) for k in keys for y in tolds(eng, s, 'id'))
                mute = [x for x in put(s) if x[0][:2] == ('i', GAINS) and haskey(x[0][2]) and real(x[1], {}) == 0]
                gone = any(a[0] == 'op' and a[1] == 'has' and haskey(a[4]) and eng.ent_le(s, a, C(0)) for a in fact_atoms(s))
                ck(len(put(s)) == 0 and (same_ or gone) or len(put(s)) == 1 and len(mute) == 1 and not same_, 'commands set the gains they name', ', others', 'not exactly the channels other than the one in the command are muted')
        elif G.name.rsplit('::', 1)[-1] == 'specificReaderConfig':
            for s in true:
                rep.check(eng.truth(s, ('dyn', A(1), 'AudioCircularBuffer')) is True, 'channels are fed what they mix', F.name, w, 'a channel is accepted whose queue does not hold audio')
                ck(len(put(s)) >= 1 and put(s)[-1][0] == ('i', GAINS, A(0)) and real(put(s)[-1][1], {}) == 1, 'channels are fed what they mix', ', gain', 'a new channel does not get its default gain')
                ck([c for c in tg(s)['call'] if c[0] == 'ask'] == [('ask', A(1), eng.load(s, M('inputFrameSamples')))], 'channels are fed what they mix', ', frame size', 'the queue is not told how many samples the mixer takes at a time')
            ck(bool(true), 'channels are fed what they mix', ', accepted', 'no channel is accepted')
        elif G.name.rsplit('::', 1)[-1] == 'specificReaderDelete':
            for s in true:
                ck(any(a[0] == 'op' and a[1] == 'has' and a[2] == GAINS and a[4] == A(0) and eng.truth(s, a) is False for a in fact_atoms(s)), 'gains belong to channels', '', 'the gain of a removed channel stays')
            ck(bool(true), 'gains belong to channels', ', removed', 'no channel is removed')
    rep.floor('gains set', n, 8)


def iskey(x): return isinstance(x, tuple) and len(x) > 0 and x[0] in ('iterkey', 'key', 'ikey') or isinstance(x, tuple) and 'first' in repr(x[-1:]) and x[0] in ('init', 'm')


def haskey(x): return iskey(x) or 'ielem' in repr(x) or 'iter' in repr(x)


def alldeep(s):
    seen = set()
    def go(v):
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v not in seen: seen.add(v)
            for x in v: go(x)
    for f in s.facts: go(f[1])
    for k, x in s.store.items(): go(k); go(x)
    return seen


def tolds(eng, s, key):
    """values of the event's parameter of that name"""
    return [x for x in alldeep(s) if x[0] == 'pcall' and x[1] in ('Jzon::Node::ToInt', 'Jzon::Node::ToFloat', 'Jzon::Node::ToDouble', 'Jzon::Value::ToInt', 'Jzon::Value::ToFloat', 'Jzon::Value::ToDouble') and named(x, key)]


def named(x, key): return x[2] == ('lv', ('d', ('jz', key)))


def told(eng, s, v, key): return v in tolds(eng, s, key)


def planes(P):
    """number of planes a planar frame has"""
    r = None
    for G in P.fn('PlanarAudioFrame::getPlanarDataBuf') or []:
        for e in G.ins.values():
            if e['op'] == 'member' and e.get('f') == 'frameBuff' and '[' in e.get('t', ''): r = int(e['t'].split('[')[1].split(']')[0])
    return r


def run_start(rep, P):
    R = 'the mix begins empty and fits its frames'
    F, cl, eng, res, w = small_run(P, CLS)
    mx = None; room = planes(P)
    for G in P.fn('AudioFrame::getMaxSamples') or []:
        mx = G
    for s, v in res:
        g = lambda f: eng.load(s, M(f))
        ck = lambda c, sub_, text: rep.check(c, R, F.name + sub_, w, text)
        c = lambda f: cast(g(f))[1] if cast(g(f))[0] == 'c' else None
        vals = {f: c(f) for f in ('channels', 'sampleRate', 'outputSamples', 'mixingThreshold', 'mixBufferMaxSamples', 'inputFrameSamples')}
        ck(None not in vals.values(), ', sizes', 'the sizes of the mix are not constants')
        if None in vals.values(): continue
        c2 = Set_(); e3, s3 = begin(P, c2, CLS)
        e2 = [real(x, {}) for _, x in e3.run(mx, args=[C(vals['sampleRate'])], st=s3)] if mx else []
        ck(1 <= vals['channels'] <= (room or 0), ', channels', 'there are more channels than a frame has room for')
        ck(1 <= vals['outputSamples'] <= vals['mixingThreshold'] <= vals['mixBufferMaxSamples'] <= 1 << 30 and vals['sampleRate'] >= 1, ', order', 'what is delivered, awaited and kept does not fit into one another')
        ck(vals['inputFrameSamples'] + vals['mixingThreshold'] <= vals['mixBufferMaxSamples'], ', room', 'there is no room for another frame while the delivery is awaited')
        ck(e2 and all(x is not None and vals['outputSamples'] <= x for x in e2), ', output', 'a delivered frame may not have room for its samples')
        ck(g('front') == C(0) and g('rear') == C(0) and g('syncTs')[0] == 'c' and g('syncTs')[1] < 0, ', empty', 'the mix does not begin empty and without a time')
        ck(unit(eng, s, g('masterGain')) and real(g('th'), {}) is not None and 0 < real(g('th'), {}) < 1, ', gain', 'the initial gain or the compression threshold is outside of [0, 1]')
        fm = cl_fmt = enum_of(P, 'SampleFmt')
        ck(g('sampleFormat') in (C(fm['S16P']), C(fm['FLTP'])), ', format', 'the mix is delivered in a format that cannot be written')
        for i in range(vals['channels']):
            b = s.store.get(('i', M('mixBuffers'), C(i)), ('?',))
            news = [e for e in F.ins.values() if e['op'] == 'new' and e.get('array') and e['i'] == (b[2] if b[0] == 'new' else None)]
            ok = bool(news)
            for e in news:
                ini = F.ins.get(e.get('init', -1), {})
                cnt = [x for x in cl.sizes.get(e['i'], ())]
                ok = ok and 'init' in e and cnt and all(real(x, {}) == vals['mixBufferMaxSamples'] for x in cnt) and 'float' in e['nt']
            ck(ok, ', memory', 'the mix of a channel has no room for its samples or does not begin silent')
    rep.floor('constructions', len(res), 1)
    # what the round relies on stays as constructed
    for G in P.funcs.values():
        for e in G.ins.values():
            if e['op'] not in ('assign', 'cassign', 'incdec'): continue
            to = G.ins.get(e['a'], {})
            while to.get('op') in ('index', 'decay', 'pass'): to = G.ins.get(to.get('a', to.get('b')), {})
            if to.get('op') == 'member' and to.get('cls') == CLS and to.get('f') in ('channels', 'sampleRate', 'sampleFormat', 'inputFrameSamples', 'outputSamples', 'mixBufferMaxSamples', 'mixingThreshold', 'th', 'mixBuffers'):
                rep.check(G.name.rsplit('::', 1)[-1] == CLS, 'sizes do not change', G.name, '%s:%s (%s)' % (G.file, e.get('l'), G.name), 'the sizes of the mix change after its memory was made')


def run(rep, P, tier):
    run_samples(rep, P)
    run_gains(rep, P)
    run_start(rep, P)
    run_round(rep, P)
