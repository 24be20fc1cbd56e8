"""D02: access units are assembled from the coded units that arrive; decoder configuration is made from the stream's own headers."""
from ..engine import Engine, State
from ..lin import C, add, sub, atoms
from ..facts import AnalysisBroken
from .dash import Narrow, method, tg, settag, addr_of, lib_functions, nocast
from . import iso

RULE = ('case-split execution of the parser on every NAL header byte (and ADTS header) with a symbolic state: per path the bytes appended, the hand-over of the access unit, the key flag; '
        'decoder configuration records as sequences of byte expressions compared with ISO/IEC 14496-15 and 14496-3')
LEVEL = 'other'
ASSUME = ['a coded unit is at least one byte long after its start code', 'an audio frame with a header holds the complete header', 'frame times grow from one access unit to the next',
          'the header of a slice is the same for all slices of an access unit (H.264 7.4.1.2.4, H.265 7.4.2.2)']

THIS = ('arg', 'this', -1)
FM = {'getLength': ('len', 'unsigned int'), 'getWidth': ('w', 'int'), 'getHeight': ('h', 'int'), 'getPresentationTime': ('pts', None), 'getDecodeTime': ('dts', None), 'getFrameTime': ('ft', None),
      'getChannels': ('channels', 'unsigned int'), 'getSampleRate': ('rate', 'unsigned int'), 'getSamples': ('samples', 'unsigned int'), 'getSampleFmt': ('fmt', None)}
SET = {'setLength': ('len',), 'setSize': ('w', 'h'), 'setPresentationTime': ('pts',), 'setDecodeTime': ('dts',)}

# kinds of NAL units by type (ITU-T H.264 table 7-1, H.265 table 7-1): only the types the dasher has to know
AVC = dict(type=lambda b: b & 0x1f, key=(5,), slice=(1,), sets=dict(sps=7, pps=8), sei=(6,), late=(), aud=(9,))
HEVC = dict(type=lambda b: (b >> 1) & 0x3f, key=(19, 20, 21), slice=(0, 1), sets=dict(vps=32, sps=33, pps=34), sei=(39,), late=(40,), aud=(35,))
CODECS = {'DashVideoSegmenterAVC': AVC, 'DashVideoSegmenterHEVC': HEVC}


def fld(p, f): return ('m', ('d', p), 'NF::' + f)


class Nal(Narrow):
    max_depth = 10
    K = 300; unroll = 16

    def __init__(self, lib=(), stop=()):
        super().__init__()
        self.lib, self.stop, self.exits = lib, stop, []

    def init(self): return tuple(sorted(dict(w=(), cp=(), vec=(), lib=(), calls=()).items()))

    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file and not G.file.endswith(('.c', 'i2libdash.h')) and G.name.split('::')[-1] not in self.stop

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        w = eng.where(ins)
        t = tg(st)
        A = lambda i: eng.num(eng.rvalue(st, args[i]))
        if short in self.stop:
            v = eng.fresh(st, ins)
            settag(st, calls=t['calls'] + ((short, tuple(A(i) for i in range(len(args))), v, w, len(st.facts)),))
            return v
        if fn in self.lib:
            v = eng.fresh(st, ins); eng.note_type(v, 'unsigned int')
            settag(st, lib=t['lib'] + ((fn, tuple(A(i) for i in range(len(args))), v, w),))
            F = self.lib[fn][0]
            for i, q in enumerate(F.params):
                if q['t'].count('*') == 2:
                    r = eng.rvalue(st, args[i])
                    if r[0] == 'addr':
                        x = ('out', fn, i, eng.frame)
                        eng.put(st, r[1], x)
            return v
        if obj is not None and fn.split('::')[0] in ('Frame', 'VideoFrame', 'AudioFrame', 'InterleavedVideoFrame', 'SlicedVideoFrame'):
            p = addr_of(obj)
            if p[0] == 'dyn': p = p[1]
            if short in FM:
                f, ty = FM[short]
                v = eng.load(st, fld(p, f), ty)
                if ty: eng.note_type(v, ty)
                return v
            if short in ('getMaxLength', 'getDataBuf'):
                v = ('frame', short, p)
                if short == 'getMaxLength': eng.note_type(v, 'unsigned int')
                return v
            if short in SET:
                for f, i in zip(SET[short], range(len(args))): st.store[fld(p, f)] = A(i)
                if short in ('setPresentationTime', 'setDecodeTime'): st.store[fld(p, 'ft')] = ('op', 'ft', eng.load(st, fld(p, 'pts')), eng.load(st, fld(p, 'dts')))
                return C(0)
        if fn in ('memcpy', 'memmove', '__builtin_memcpy', 'std::memcpy'):
            settag(st, cp=t['cp'] + ((A(0), A(1), A(2), w),)); return A(0)
        if fn == 'std::copy' and len(args) == 3:
            settag(st, cp=t['cp'] + ((A(2), A(0), sub(A(1), A(0)), w),)); return add(A(2), sub(A(1), A(0)))
        if fn == 'std::copy_n' and len(args) == 3:
            settag(st, cp=t['cp'] + ((A(2), A(0), A(1), w),)); return add(A(2), A(1))
        if obj is not None and obj[0] == 'lv' and fn.startswith('std::vector::'):
            r = self.vector(eng, st, ins, short, obj[1], args, w)
            if r is not NotImplemented: return r
        return NotImplemented

    # vectors of bytes: tuple of pieces
    def content(self, st, L):
        return dict(tg(st)['vec']).get(L, (('init', L),))

    def vector(self, eng, st, ins, short, L, args, w):
        if short in ('clear', 'insert', 'push_back', 'emplace_back', 'assign', 'operator=', 'resize', 'erase', 'pop_back', 'swap'):
            a = [eng.rvalue(st, x) for x in args]
            cur = self.content(st, L)
            isit = lambda x: x[0] in ('iter', 'iterend') or x[0] == 'pcall' and 'iterator' in x[1]
            if short == 'clear': new = ()
            elif short in ('push_back', 'emplace_back'): new = cur + (('b', eng.num(a[0])),)
            elif short == 'insert' and a:
                at = a[0]
                if len(a) == 2: ps = (('b', eng.num(a[1])),) if not isit(a[1]) else None
                elif len(a) == 3 and a[1][0] == 'c' and not isit(a[2]): ps = (('b', eng.num(a[2])),) * a[1][1]
                elif len(a) == 3: ps = (self.range(eng, st, a[1], a[2]),)
                else: ps = None
                if ps is None: new = cur + (('?',),)
                elif at[0] == 'iterend' or at[0] == 'iter' and at[3] == 'end' or cur == (): new = cur + ps
                elif at[0] == 'iter' and at[3] == 'begin': new = ps + cur
                else: new = cur + (('?',),)
            elif short == 'assign' and len(a) == 2: new = (self.range(eng, st, a[0], a[1]),)
            elif short == 'operator=' and len(a) == 1:
                x = a[0]
                if x[0] == 'list': new = tuple(('b', eng.num(y)) for y in x[1])
                elif x[0] == 'copyof': new = self.content(st, x[1])
                elif x[0] == 'pcall' and len(x[3]) >= 2: new = (self.range(eng, st, x[3][0], x[3][1]),)
                elif x[0] in ('obj', 'pcall'): new = () if not (x[0] == 'pcall' and x[3]) else (('?',),)
                else: new = (('?',),)
            else: new = (('?',),)
            d = dict(tg(st)['vec']); d[L] = new
            settag(st, vec=tuple(sorted(d.items(), key=repr)))
        return NotImplemented

    def range(self, eng, st, a, b):
        def pos(x):
            if x[0] == 'iter' and x[3] in ('begin', 'end'): return (x[1], x[3], 0)
            if x[0] == 'iterend': return (x[1], 'end', 0)
            if x[0] == 'pcall' and x[1].endswith(('operator+', 'operator-')) and 'iterator' in x[1]:
                xs = [y for y in x[2:] if isinstance(y, tuple)]
                o = xs[0] if xs and xs[0] and isinstance(xs[0][0], str) else None
                arg = xs[-1][0] if xs and xs[-1] and isinstance(xs[-1][0], tuple) else None
                q = pos(o) if o is not None else None
                if q and arg is not None and arg[0] == 'c': return (q[0], q[1], q[2] + (arg[1] if x[1].endswith('+') else -arg[1]))
            return None
        p, q = pos(a), pos(b)
        if p and q and p[0] == q[0] and p[1] == 'begin': return ('sub', self.content(st, p[0]), p[2], q[1], q[2])
        if not p and not q and a[0] not in ('iter', 'iterend', 'pcall'): return ('mem', eng.num(a), sub(eng.num(b), eng.num(a)))
        return ('?',)

    def on_store(self, eng, st, ins, L, v):
        if L[0] in ('d', 'i') and self.inbuf(L): settag(st, w=tg(st)['w'] + ((self.inbuf(L), v, eng.where(ins)),))

    def inbuf(self, L):
        a = L[1] if L[0] == 'd' else (add(L[1][1], L[2]) if L[1][0] in ('d', 'obj') else None)
        if a is None: return None
        return a if any(x[0] == 'frame' and x[1] == 'getDataBuf' for x in ([a] if a[0] == 'frame' else atoms(a))) else None

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def begin(P, cls, name, **kw):
    F = method(P, cls, name)
    cl = Nal(**kw)
    eng = Engine(P, cl, {THIS: cls})
    eng.root_this = THIS; eng.atype[THIS] = F.cls + ' *'
    st = State(); st.client = cl.init()
    return F, cl, eng, st


def poke(st, base, data):
    for k, x in enumerate(data):
        if x is not None: st.store[('d', base if k == 0 else add(base, C(k)))] = C(x)


def ev(v, env):
    """value of an expression over bytes; None if it depends on anything else"""
    v = nocast(v) if v[0] not in ('op',) else v
    if v in env: return env[v]
    if v[0] == 'c': return v[1]
    if v[0] == 'lin':
        r = v[1]
        for a, k in v[2]:
            x = ev(a, env)
            if x is None: return None
            r += k * x
        return r
    if v[0] == 'op':
        o = v[1]
        if o in ('u',): return ev(v[2], env)
        if o == 'narrow':
            x = ev(v[2], env)
            return None if x is None else x & ((1 << v[3][1]) - 1)
        a = ev(v[2], env); b = ev(v[3], env) if len(v) > 3 else None
        if a is None or b is None: return None
        return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                '/': lambda: a // b if b else None, '%': lambda: a % b if b else None, 'usub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a // b if b else None, 'mod': lambda: a % b if b else None}.get(o, lambda: None)()
    return None


# ---------------------------------------------------------------- access units
def frames_of(P, cls):
    c, r = cls, []
    while c:
        r += [('m', ('d', THIS), c + '::' + f['name']) for f in P.classes[c]['fields'] if f['t'].replace(' ', '') in ('VideoFrame*', 'InterleavedVideoFrame*')]
        b = P.classes[c].get('bases')
        c = (b[0] if isinstance(b[0], str) else b[0].get('n') or b[0].get('t')) if b else None
        if c not in P.classes: break
    return r


def kind_of(K, b):
    t = K['type'](b)
    for k in ('key', 'slice', 'sei', 'late', 'aud'):
        if t in K[k]: return k
    for n, x in K['sets'].items():
        if x == t: return n
    return None


def run_units(rep, P, cls, K, tier):
    Ls = frames_of(P, cls)
    if len(Ls) != 2: raise AnalysisBroken('%s holds %d frames' % (cls, len(Ls)))
    names = [L[2].split('::')[-1] for L in Ls]
    tag = cls + '::parseNal'
    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    prefixes = {0: [], 3: [0, 0, 1], 4: [0, 0, 0, 1]}
    cases = 0
    # which of the two frames collects
    def go(off, b, tail):
        F, cl, eng, st = begin(P, cls, 'parseNal')
        nal = ('arg', F.params[0]['name'], 0)
        B = ('frame', 'getDataBuf', nal)
        poke(st, B, prefixes[off] + [b] + tail)
        n = sub(eng.load(st, fld(nal, 'len'), 'unsigned int'), C(off))
        P0 = [eng.load(st, L, 'VideoFrame *') for L in Ls]
        f = {('ge', sub(n, C(1))), ('ne', B), ('ne', nal)}
        if off: f.add(('ne', add(B, C(off))))
        st.facts = frozenset(f)
        for p in P0: eng.note_type(eng.load(st, fld(p, 'len'), 'unsigned int'), 'unsigned int')
        eng.run(F, this=THIS, st=st)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        return F, cl, eng, nal, n, add(B, C(off)) if off else B, P0
    F, cl, eng, nal, n, data, P0 = go(4, next(b for b in range(256) if kind_of(K, b) == 'slice'), [0x80])
    used = {x for s, v in cl.exits for a, b, m, w in tg(s)['cp'] for x in [a] + list(atoms(a)) if x[0] == 'frame' and x[1] == 'getDataBuf' if v is not None and eng.truth(s, eng.num(v)) is False}
    tmp = [i for i, p in enumerate(P0) if ('frame', 'getDataBuf', p) in used]
    if len(tmp) > 1:
        # the collecting frame is the one written on the path that leaves both members alone
        keep = [(s, v) for s, v in cl.exits if all(eng.load(s, L, 'VideoFrame *') == p for L, p in zip(Ls, P0)) and tg(s)['cp']]
        tmp = [i for i, p in enumerate(P0) if any(('frame', 'getDataBuf', p) in atoms(a) or a == ('frame', 'getDataBuf', p) for s, v in keep for a, b, m, w in tg(s)['cp'])]
    ck(len(tmp) == 1, 'slices are collected in order', '%s:%d' % (F.file, F.line), 'slices of one access unit do not all go to the same frame')
    if len(tmp) != 1: return
    ti = tmp[0]
    cur = None
    reps = range(256) if tier == 'thorough' else sorted({b for b in range(256) if kind_of(K, b) is not None} | {0x80, 0x1f, 0x7e, 0x0c})
    sl = next(b for b in range(256) if kind_of(K, b) == 'slice' and b > 1)
    todo = [(off, b, [0x80, 0x91, 0xa2, 0xb3]) for off in (4, 3, 0) for b in (reps if off == 4 else [x for x in reps if kind_of(K, x) is not None][::3]) if off or b > 1]
    # not quite start codes: the unit begins with its first byte
    for k in range(8): todo += [(0, 0, [1 << k, 1, sl, sl]), (0, 1 << k, [0, 1, sl, sl])] + ([(0, 0, [0, 1 | 1 << k, sl, sl]), (0, 0, [0, 1 << k, 1, sl])] if k else []) + [(0, 0, [0, 0, 1 ^ (1 << k), sl])]
    if True:
        for off, b, tail in todo:
            F, cl, eng, nal, n, data, P0 = go(off, b, tail)
            T, V = P0[ti], P0[1 - ti]
            kd = kind_of(K, b)
            cases += 1
            w0 = '%s:%d' % (F.file, F.line)
            where = 'NAL type %d after a start code of %d bytes' % (K['type'](b), off) if tail[0] == 0x80 else 'a unit starting with %s' % ' '.join('%02x' % x for x in [b] + tail)
            tn, tt = eng.load(State(), fld(nal, 'ft')), eng.load(State(), fld(T, 'ft'))
            len0 = eng.load(State(), fld(T, 'len'), 'unsigned int')
            got = 0
            for s, val in cl.exits:
                r = eng.num(val) if val is not None else C(0)
                nt, nv = eng.load(s, Ls[ti], 'VideoFrame *'), eng.load(s, Ls[1 - ti], 'VideoFrame *')
                now = lambda p, f: eng.load(s, fld(p, f))
                stays, moved = (nt, nv) == (T, V), (nt, nv) == (V, T)
                ck(stays or moved, 'an access unit is handed over once', w0, '%s: a frame is lost or used twice' % where)
                if not (stays or moved): continue
                later = eng.ent_lt(s, tt, tn)
                notlater = eng.ent_le(s, tn, tt)
                empty = eng.ent_eq(s, len0, C(0))
                if kd is None:
                    ck(not tg(s)['cp'], 'only slices are collected', w0, '%s: a unit of an unknown type is put into the access unit' % where)
                    continue
                got += 1
                if moved:
                    ck(r == T, 'an access unit is handed over once', w0, '%s: the access unit that ends is not the frame handed over' % where)
                    ck(kd == 'aud' or later or empty, 'an access unit is handed over once', w0, '%s: an access unit is handed over before it ended' % where)
                    ck(eng.ent_eq(s, now(T, 'len'), len0), 'an access unit is handed over once', w0, '%s: the frame handed over was changed' % where)
                    pv = eng.load(s, ('m', ('d', THIS), 'DashVideoSegmenter::previousIntra'))
                    if not empty:
                        if cur is None and pv[0] == 'init' and pv[1][0] == 'm': cur = pv[1]
                        ck(pv[0] == 'init' and pv[1] == cur and pv[1][2] != 'DashVideoSegmenter::previousIntra', 'the key flag is that of the slices', w0, '%s: the access unit handed over is not flagged by its own slices' % where)
                else:
                    ck(eng.truth(s, r) is False, 'an access unit is handed over once', w0, '%s: a frame is handed over while it is still collected or again' % where)
                    ck(kd != 'aud' and notlater or empty or not later and kd != 'aud' and any(eng.ent_eq(s, x, C(0)) for x in (len0,)), 'an access unit is handed over once', w0, '%s: the access unit that ends is not handed over' % where)
                X = nt
                base = C(0) if moved else len0
                buf = ('frame', 'getDataBuf', X)
                if kd in ('key', 'slice'):
                    if eng.ent_lt(s, ('frame', 'getMaxLength', X), add(add(base, n), C(4))) and not tg(s)['cp'] and not tg(s)['w']:
                        ck(eng.ent_eq(s, now(X, 'len'), base), 'slices are collected in order', w0, '%s: a slice that does not fit leaves something behind' % where)
                        continue
                    cp, ws = tg(s)['cp'], tg(s)['w']
                    w1 = cp[0][3] if cp else w0
                    okc = len(cp) == 1 and eng.ent_eq(s, cp[0][0], add(add(buf, base), C(4))) and eng.ent_eq(s, cp[0][1], data) and eng.ent_eq(s, cp[0][2], n)
                    ck(okc, 'slices are collected in order', w1, '%s: the slice is not appended exactly once, whole, without its start code, after what is there' % where)
                    ck(eng.ent_eq(s, now(X, 'len'), add(add(base, n), C(4))), 'slices are collected in order', w1, '%s: the length of the access unit does not grow by the slice and its length field' % where)
                    by = {}
                    for a, v, w in ws: by.setdefault(next((k for k in range(4) if eng.ent_eq(s, a, add(add(buf, base), C(k)))), None), []).append((v, w))
                    okl = set(by) == {0, 1, 2, 3} and all(len(x) == 1 for x in by.values()) and be32([by[k][0][0] for k in range(4)], eng, s, n)
                    ck(okl, 'slices are collected in order', ws[0][2] if ws else w1, '%s: the slice is not preceded by its length in four bytes, most significant first' % where)
                    ck(eng.ent_le(s, add(add(base, n), C(4)), ('frame', 'getMaxLength', X)), 'slices are collected in order', w1, '%s: a slice may be written behind the end of the frame' % where)
                    for f, what in (('w', 'width'), ('h', 'height'), ('pts', 'presentation time'), ('dts', 'decode time')):
                        ck(eng.ent_eq(s, nocast(eng.num(now(X, f))), nocast(eng.load(State(), fld(nal, f)))), 'an access unit carries size and times of its slices', w1, '%s: the access unit does not take the %s of the slice' % (where, what))
                    if cur is not None:
                        cv = eng.load(s, cur)
                        ck(eng.truth(s, cv) is (kd == 'key'), 'the key flag is that of the slices', w0, '%s: the access unit is not known as %s' % (where, 'a key picture' if kd == 'key' else 'no key picture'))
                else:
                    ck(not tg(s)['cp'] and not tg(s)['w'], 'only slices are collected', w0, '%s: a unit that is no slice is put into the access unit' % where)
                    if moved: ck(eng.ent_eq(s, now(X, 'len'), C(0)), 'an access unit is handed over once', w0, '%s: the next access unit does not start empty' % where)
                    else: ck(eng.ent_eq(s, now(X, 'len'), len0), 'slices are collected in order', w0, '%s: slices already collected are lost' % where)
                    if kd == 'late' and stays and cur is not None and not empty:
                        ck(eng.load(s, cur) == ('init', cur, 0), 'the key flag is that of the slices', w0, '%s: a unit after the slices changes whether the access unit is a key picture' % where)
                # parameter sets
                for nm in K['sets']:
                    Lv = set_member(P, cls, nm)
                    c = cl.content(s, Lv)
                    if kd == nm: ck(len(c) == 1 and c[0][0] == 'mem' and eng.ent_eq(s, c[0][1], data) and eng.ent_eq(s, c[0][2], n), 'decoder configuration is that of the stream', w0, '%s: the %s kept is not the one received' % (where, nm))
                    else: ck(c == (('init', Lv),), 'decoder configuration is that of the stream', w0, '%s: changes the %s kept' % (where, nm))
            if kd is not None: rep.floor('paths of %s' % where, got, 1)
    ck(cur is not None, 'the key flag is that of the slices', w0, 'nothing tells whether an access unit is a key picture')
    rep.stats['header cases of ' + cls] = cases
    rep.floor('header cases of ' + cls, cases, 30)
    # the two frames differ
    Fc = next((f for f in P.funcs.values() if f.cls == cls and f.kind == 'ctor'), None)
    if Fc is not None:
        c2 = Nal(); e2 = Engine(P, c2, {THIS: cls}); e2.root_this = THIS; e2.atype[THIS] = cls + ' *'
        s2 = State(); s2.client = c2.init()
        e2.run(Fc, this=THIS, st=s2)
        for s, v in c2.exits:
            a, b = (e2.load(s, L, 'VideoFrame *') for L in Ls)
            ck(a != b and all(x[0] in ('ret', 'new', 'copyof', 'op', 'dyn', 'pcall') or x[0] != 'init' for x in (a, b)), 'slices are collected in order', '%s:%d' % (Fc.file, Fc.line), 'the two frames of the segmenter are not two frames of its own')


def set_member(P, cls, nm): return ('m', ('d', THIS), cls + '::' + nm)


def be32(vs, eng, s, n):
    base = nocast(n)
    ats = [a for a in (atoms(n) or [n])]
    for val in [1, 2, 0x7f, 0x80, 0xff] + [1 << k for k in range(8, 24)] + [0x123456, 0xfedcba, 0xffffff]:
        # n = atom + const; choose the atom so that n has this value
        if n[0] == 'lin' and len(n[2]) == 1 and n[2][0][1] == 1: env = {n[2][0][0]: val - n[1]}
        elif n[0] not in ('lin', 'c'): env = {n: val}
        else: return False
        env[n] = val
        for k, v in enumerate(vs):
            x = ev(v, env)
            if x is None or (x & 0xff) != (val >> (24 - 8 * k)) & 0xff: return False
    return True



# ---------------------------------------------------------------- decoder configuration of video
def hv(nm, t): return [('b', 0x80 | t, 0x7f), ('b', 0, None), ('b', 1, None), ('len', nm, 8), ('len', nm, 0), ('set', nm)]


# ISO/IEC 14496-15: 5.3.3.1 (avcC), 8.3.3.1 (hvcC); (value, mask of the bits that are prescribed)
RECORD = {
    'DashVideoSegmenterAVC': [('b', 1, None), ('part', 'sps', 1, 4), ('b', 0xff, None), ('b', 0xe1, None), ('len', 'sps', 8), ('len', 'sps', 0), ('set', 'sps'), ('b', 1, None), ('len', 'pps', 8), ('len', 'pps', 0), ('set', 'pps')],
    'DashVideoSegmenterHEVC': [('b', 1, None)] + [('any',)] * 12 + [('b', 0xf0, 0xf0), ('any',), ('b', 0xfc, 0xfc), ('b', 0xfc, 0xfc), ('b', 0xf8, 0xf8), ('b', 0xf8, 0xf8), ('any',), ('any',), ('b', 3, 3), ('b', 3, None)]
                              + hv('vps', 32) + hv('sps', 33) + hv('pps', 34),
}


def run_record(rep, P, cls, K):
    F, cl, eng, st = begin(P, cls, 'updateExtradata')
    tag = F.name
    w = '%s:%d' % (F.file, F.line)
    rule = 'decoder configuration is that of the stream'
    def ck(ok, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    eng.run(F, this=THIS, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    X = ('m', ('d', THIS), 'DashSegmenter::extradata')
    made = 0
    Ls = {nm: set_member(P, cls, nm) for nm in K['sets']}
    size0 = lambda nm: ('op', 'size', Ls[nm], (0, None))
    for s, val in cl.exits:
        c = cl.content(s, X)
        empty = [nm for nm in K['sets'] if eng.ent_eq(s, size0(nm), C(0))]
        if c == (('init', X),):
            ck(empty, 'every parameter set is there but the configuration of the decoder is not made')
            for nm, L in Ls.items(): ck(cl.content(s, L) == (('init', L),), 'parameter sets are dropped before they were used')
            continue
        made += 1
        ck(not empty and all(eng.ent_le(s, C(1), size0(nm)) for nm in Ls), 'the configuration of the decoder is made before every parameter set is there')
        bad = parse(c, RECORD[cls], Ls, size0)
        ck(not [b for b in bad if not b[1]], 'the configuration of the decoder is not a valid record: %s' % '; '.join(b[0] for b in bad))
        for b, what in bad:
            if what: rep.check(False, rule, '%s, %s' % (tag, what), w, '%s: the configuration of the decoder is not a valid record: %s' % (tag, b))
        for nm, L in Ls.items(): ck(cl.content(s, L) == (), 'the %s stays after it was used: the next configuration may mix it with newer sets' % nm)
    rep.floor('configurations made by ' + cls, made, 1)


def said(y, Ls):
    if y[0] == 'b': return '%#04x' % (ev(y[1], {}) & 0xff) if ev(y[1], {}) is not None else None
    if y[0] == 'sub' and len(y[1]) == 1 and y[1][0][0] == 'init' and y[3] == 'begin': return 'bytes %d to %d of the %s' % (y[2], y[4] - 1, y[1][0][1][2].split('::')[-1])
    return None


def parse(c, want, Ls, size0):
    """[(what is wrong, what is there instead: None if the rest cannot be read)]"""
    full = {('sub', (('init', L),), 0, 'end', 0): nm for nm, L in Ls.items()}
    c, bad = list(c), []
    for i, x in enumerate(want):
        pos = 'element %d' % (i + 1)
        if not c: return bad + [('it ends before %s' % pos, None)]
        y = c.pop(0)
        if x[0] == 'set':
            if full.get(y) != x[1] and y != ('init', Ls[x[1]]): return bad + [('%s is not the %s' % (pos, x[1]), None)]
        elif x[0] == 'part':
            y0 = y
            if y != ('sub', (('init', Ls[x[1]]),), x[2], 'begin', x[3]):
                ok = True
                for k in range(x[2], x[3]):
                    if y[0] != 'b' or not (y[1][0] == 'init' and y[1][1][0] == 'i' and y[1][1][1] == Ls[x[1]] and y[1][1][2] == C(k)): ok = False
                    if ok and k + 1 < x[3]: y = c.pop(0) if c else ('?',)
                if not ok:
                    sd = said(y0, Ls) if y0[0] == 'sub' and y0[4] - y0[2] == x[3] - x[2] else None
                    bad.append(('%s is not bytes %d to %d of the %s' % (pos, x[2], x[3] - 1, x[1]), '%s is %s' % (pos, sd) if sd else None))
                    if not sd: return bad
        elif y[0] != 'b': return bad + [('%s is no byte' % pos, None)]
        elif x[0] == 'b':
            v = ev(y[1], {})
            m = 0xff if x[2] is None else x[2]
            if v is None or (v & m) != (x[1] & m): bad.append(('%s is not %#04x' % (pos, x[1]), '%s is %s' % (pos, said(y, Ls)) if said(y, Ls) else None))
        elif x[0] == 'len':
            for n in [1, 5, 127, 128, 255] + [1 << k for k in range(8, 16)] + [0x1234, 0xffff]:
                v = ev(y[1], {size0(x[1]): n})
                if v is None or (v & 0xff) != (n >> x[2]) & 0xff:
                    bad.append(('%s is not bits %d to %d of the length of the %s' % (pos, x[2], x[2] + 7, x[1]), None)); break
    return bad + ([('something follows the last parameter set', None)] if c else [])


# ---------------------------------------------------------------- decoder configuration of audio
def run_asc(rep, P):
    cls = 'DashAudioSegmenter'
    F, cl, eng, st = begin(P, cls, 'updateExtradata')
    tag = F.name
    w = '%s:%d' % (F.file, F.line)
    rule = 'decoder configuration is that of the stream'
    def ck(ok, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    fr = ('arg', F.params[0]['name'], 0)
    B = ('frame', 'getDataBuf', fr)
    poke(st, B, [0xff, 0xf1])
    st.facts = frozenset({('ne', fr), ('ne', B), ('ge', sub(eng.load(st, fld(fr, 'len'), 'unsigned int'), C(7)))})
    eng.run(F, this=THIS, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    X = ('m', ('d', THIS), 'DashSegmenter::extradata')
    h = [('init', ('d', add(B, C(k))), 0) for k in range(8)]
    mem = {}
    made = kept = 0
    pairs = [(x, y) for x in range(256) for y in range(0, 256, 1)]
    want = lambda x, y: ((((x >> 6) + 1) << 3 | ((x >> 2) & 15) >> 1) & 255, (((x >> 2) & 1) << 7 | (((x & 1) << 2 | y >> 6) << 3)) & 255)
    seen = set()
    for s, val in cl.exits:
        c = cl.content(s, X)
        if c == (('init', X),): continue
        made += 1
        ck(eng.truth(s, eng.num(val)) is True, 'a valid header is refused')
        if len(c) != 2 or any(x[0] != 'b' for x in c):
            ck(False, 'the audio configuration is not two bytes'); continue
        if c not in seen:
            seen.add(c)
            bad = None
            for x, y in pairs:
                env = {h[2]: x, h[3]: y}
                g = tuple((lambda v: None if v is None else v & 255)(ev(b[1], env)) for b in c)
                if g != want(x, y): bad = (x, y); break
            ck(bad is None, 'the audio configuration is not object type, sampling frequency and channel configuration of the header%s' % (' (header bytes %02x %02x)' % bad if bad else ''))
        for L, v in s.store.items():
            if L[0] == 'm' and L[1] == ('d', THIS) and any(a in h for a in deep(v)): mem[L] = v
    for s, val in cl.exits:
        c = cl.content(s, X)
        if c != (('init', X),): continue
        kept += 1
        if eng.truth(s, eng.num(val)) is False:
            ck(False, 'a valid header is refused'); continue
        same = [v for L, v in mem.items() if eng.ent_eq(s, eng.load(State(), L, 'unsigned char'), v) or fact_eq(s, ('init', L, 0), v)]
        cls_of = {}
        ok = True
        for x, y in pairs:
            k = tuple(ev(v, {h[2]: x, h[3]: y}) for v in same)
            if cls_of.setdefault(k, want(x, y)) != want(x, y): ok = False; break
        ck(ok, 'the configuration is kept though the header may say something else')
        ck(not eng.ent_eq(s, ('op', 'size', X, (0, None)), C(0)) and eng.ent_le(s, C(1), ('op', 'size', X, (0, None))), 'the configuration is kept though there is none')
    rep.floor('audio configurations made', made, 1)
    # what is no header is not taken for one
    for i, bad in ((0, 0xfe), (0, 0x7f), (1, 0xe1), (1, 0x71)):
        F, cl, eng, st = begin(P, cls, 'updateExtradata')
        b = [0xff, 0xf1]; b[i] = bad
        poke(st, B, b)
        st.facts = frozenset({('ne', fr), ('ne', B), ('ge', sub(eng.load(st, fld(fr, 'len'), 'unsigned int'), C(7)))})
        eng.run(F, this=THIS, st=st)
        for s, val in cl.exits:
            ck(eng.truth(s, eng.num(val)) is False and cl.content(s, X) == (('init', X),), 'data that is no ADTS header is taken for one (%02x %02x)' % tuple(b))
    F, cl, eng, st = begin(P, cls, 'updateExtradata')
    poke(st, B, [0xff, 0xf1])
    eng.run(F, this=THIS, st=st)
    for s, val in cl.exits:
        if eng.truth(s, eng.num(val)) is False: continue
        ck(eng.ent_le(s, C(4), eng.load(State(), fld(fr, 'len'), 'unsigned int')), 'a header is read from a frame too short to hold it')


def fact_eq(s, a, b):
    d = sub(a, b)
    return any(f[0] == 'eq' and f[1] in (d, sub(b, a)) for f in s.facts)


def deep(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple): yield from deep(x)


# ---------------------------------------------------------------- frames in, frames out
def run_manage(rep, P):
    lib = lib_functions(P)
    for cls in sorted(CODECS) + ['DashAudioSegmenter']:
        audio = cls == 'DashAudioSegmenter'
        F, cl, eng, st = begin(P, cls, 'manageFrame', lib=lib, stop=('parseNal', 'updateExtradata', 'getBytesPerSampleFromFormat'))
        tag = cls + '::manageFrame'
        w = '%s:%d' % (F.file, F.line)
        def ck(ok, rule, text, w=w): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
        fr = ('arg', F.params[0]['name'], 0)
        st.facts = frozenset({('ne', fr)})
        eng.run(F, this=THIS, st=st)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        got = 0
        tb = ('m', ('d', THIS), 'DashSegmenter::timeBase')
        for s, val in cl.exits:
            t = tg(s)
            r = eng.num(val)
            u = r[1] if r[0] == 'dyn' else r
            calls = {}
            for c in t['calls']: calls.setdefault(c[0], []).append(c)
            null = eng.truth(s, r) is False
            if not audio:
                pn = calls.get('parseNal', [])
                if not pn:
                    ck(null, 'every unit is parsed once', 'a frame is handed over though none was parsed'); continue
                ck(len(pn) == 1 and undyn(pn[0][1][0]) == fr, 'every unit is parsed once', 'the unit received is not parsed exactly once', pn[0][3])
                order = [c[0] for c in t['calls']]
                ck('updateExtradata' in order and order.index('updateExtradata') > order.index('parseNal'), 'decoder configuration is that of the stream', 'parameter sets are not made a configuration when they arrive')
                P1 = pn[0][2]
                fill = [c for c in t['lib'] if c[0] == 'fill_video_context']
            else:
                P1 = fr
                fill = [c for c in t['lib'] if c[0] == 'fill_audio_context']
                up = calls.get('updateExtradata', [])
            if null:
                if not audio:
                    nothing = eng.truth(s, P1) is False or eng.ent_eq(s, eng.load(s, fld(P1, 'len'), 'unsigned int'), C(0))
                    ck(nothing or refused(eng, s, t), 'an access unit is handed over once', 'an access unit that was assembled is not handed over though nothing failed')
                continue
            got += 1
            ck(u == P1 or undyn(u) == P1, 'an access unit is handed over once', 'another frame is handed over than the one %s' % ('received' if audio else 'assembled'))
            if audio:
                ck(len(up) >= 1 and eng.truth(s, up[-1][2]) is True and undyn(up[-1][1][0]) == fr, 'decoder configuration is that of the stream', 'a frame is handed over whose header was not accepted')
            else: ck(eng.ent_le(s, C(1), eng.load(s, fld(P1, 'len'), 'unsigned int')), 'an access unit is handed over once', 'an empty access unit is handed over')
            ck(len(fill) == 1 and eng.ent_eq(s, fill[0][2], C(iso.consts(P)['I2OK'])), 'the context describes the stream', 'a frame is handed over though the context was not described')
            if len(fill) != 1: continue
            a = fill[0][1]
            G = lambda f: nocast(eng.load(State(), fld(P1, f)))
            T = eng.load(s, tb)
            exp = (G('w'), G('h'), T) if not audio else None
            if audio:
                q = calls.get('getBytesPerSampleFromFormat', [])
                bits = nocast(a[3])
                okb = len(q) == 1 and (nocast(q[0][1][0]) == G('fmt')) and eng.ent_eq(s, bits, mul8(q[0][2]))
                ck(okb, 'the context describes the stream', 'the sample size described is not that of the frame', fill[0][3])
                ck(eng.ent_eq(s, nocast(a[1]), G('channels')) and eng.ent_eq(s, nocast(a[2]), G('rate')), 'the context describes the stream', 'channels or sample rate described are not those of the frame', fill[0][3])
                ck(eng.ent_eq(s, nocast(a[4]), nocast(T)) and eng.ent_eq(s, nocast(T), G('rate')), 'the context describes the stream', 'the time base is not the sample rate', fill[0][3])
                D = eng.load(s, ('m', ('d', THIS), 'DashSegmenter::frameDuration'))
                ck(eng.ent_eq(s, nocast(a[5]), G('samples')) and eng.ent_eq(s, nocast(D), G('samples')), 'the context describes the stream', 'the duration of a frame is not its number of samples', fill[0][3])
            else:
                ck(all(eng.ent_eq(s, nocast(x), nocast(y)) for x, y in zip(a[1:4], exp)), 'the context describes the stream', 'width, height or time base described are not those of the access unit', fill[0][3])
            sd = [c for c in t['lib'] if c[0] == 'set_segment_duration']
            dur = eng.load(s, ('m', ('d', THIS), 'DashSegmenter::segDurInTimeBaseUnits'))
            ck(len(sd) == 1 and eng.ent_eq(s, nocast(sd[0][1][0]), nocast(dur)), 'the context describes the stream', 'the duration of segments is not the configured one')
        rep.floor('frames handed over by ' + cls, got, 1)


def refused(eng, s, t):
    """a library call failed or nothing was made"""
    for fn, a, v, w in t['lib']:
        if eng.ent_eq(s, v, C(0)) or True in (('ne', x) in s.facts for x in (sub(v, C(0)),)) or any(f[0] in ('ne', 'ge') and mentions_(f, v) for f in s.facts): return True
    return False


def mentions_(f, v): return any(x == v for x in deep(f[1]))


def mul8(v): return ('lin', 0, ((v, 8),))


def undyn(p): return p[1] if p[0] == 'dyn' else p


def run(rep, P, tier):
    for cls in sorted(CODECS):
        run_units(rep, P, cls, CODECS[cls], tier)
        run_record(rep, P, cls, CODECS[cls])
    run_asc(rep, P)
    run_manage(rep, P)
