"""D01: every DASH init and media segment is a well-formed ISO base media file describing exactly its samples."""
from ..engine import Engine, State
from ..lin import C, add, sub, mulc, mentions
from ..lockstep import Lockstep, run_stable
from ..facts import AnalysisBroken

RULE = ('symbolic layout: all writers inlined from the segment generators, per media type; every write into the output is recorded as (linear offset, length, value), the latest write at an offset wins, and the writes must tile the output from 0 to the '
        'returned length. The layout is then parsed as ISO/IEC 14496-12: sizes of boxes against the extent of what they hold, children tiling their parent, field positions and widths of every box, byte order, '
        'and the fields that carry the stream (time scale, times, sample table, sizes, data offset, track ids, sample entries, descriptors) against the context they describe. Sample table: affine loop invariants')
LEVEL = 'other'
ASSUME = ['little-endian host', 'decoder specific info of audio is shorter than 105 bytes (one byte descriptor lengths)', 'malloc succeeds']

VIDEO = ('VIDEO_TYPE_AVC', 'VIDEO_TYPE_HEVC')
CONTAINER = {'moov', 'mvex', 'trak', 'mdia', 'minf', 'dinf', 'stbl', 'moof', 'traf'}
HEAD = {'stsd': 16, 'dref': 16, 'avc1': 86, 'avc3': 86, 'hev1': 86, 'hvc1': 86, 'mp4a': 36}      # boxes with a header before their children
SIZES = {'mvhd': 108, 'tkhd': 92, 'mdhd': 32, 'vmhd': 20, 'smhd': 16, 'trex': 32, 'url ': 12, 'stts': 16, 'stsc': 16, 'stsz': 20, 'stco': 16, 'mfhd': 16, 'tfhd': 16, 'tfdt': 20, 'sidx': 52}


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


class Layout(Lockstep):
    K = 40
    max_depth = 14
    max_steps = 400000

    def __init__(self, rep, F0, media, dst):
        super().__init__()
        self.rep, self.F0, self.media, self.dst = rep, F0, media, dst
        self.bodies = {}
        self.exits = []
        self.be64 = ()
        self.read = set()

    def init(self): return tuple(sorted(dict(log=(), copies=(), zero=()).items()))

    def inline(self, eng, st, G, ins): return True

    def off(self, p):
        """offset into the output of a pointer value, or None"""
        if p[0] == 'addr':
            L = p[1]
            if L[0] == 'i':
                o = self.off(('addr', L[1]))
                return None if o is None else add(o, L[2])
            if L[0] == 'd': p = L[1]
        d = sub(p, self.dst) if p[0] in ('lin', 'arg') else None
        if d is None or mentions(d, self.dst): return None
        return d

    def put(self, st, off, n, val, w):
        settag(st, log=tg(st)['log'] + ((off, n, val, w),))

    def on_load(self, eng, st, ins, loc, val):
        if loc[0] == 'm' and loc[2].startswith('i2ctx'): self.read.add(loc[2])

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn in ('htonl', 'htons', 'ntohl', 'ntohs'):
            v = ('be', 4 if fn.endswith('l') else 2, eng.num(eng.rvalue(st, args[0])))
            eng.note_type(v, 'unsigned int' if fn.endswith('l') else 'unsigned short')
            return v
        if any(F.id in self.be64 for F in cands):
            v = ('be', 8, eng.num(eng.rvalue(st, args[0])))
            eng.note_type(v, 'unsigned long')
            return v
        if fn == 'calloc':
            v = eng.fresh(st, ins)
            settag(st, zero=tg(st)['zero'] + (v,))
            return v
        if fn in ('memcpy', 'memmove', '__builtin_memcpy', 'memset', 'bzero'):
            a = [eng.rvalue(st, x) for x in args]
            o = self.off(a[0])
            n = eng.num(a[2]) if fn != 'bzero' else eng.num(a[1])
            if o is None:
                if fn == 'bzero' or fn == 'memset' and eng.num(a[1]) == C(0): settag(st, zero=tg(st)['zero'] + (a[0],))
                if fn in ('memcpy', 'memmove'): settag(st, copies=tg(st)['copies'] + ((a[0], a[1], n),))
                return NotImplemented
            if fn in ('memset', 'bzero'): val = ('fill', a[1] if fn == 'memset' else C(0))
            elif a[1][0] == 'str': val = ('text', a[1][1])
            elif a[1][0] == 'addr' and a[1][1][0] in ('v', 'm', 'i') and self.scalar(eng, st, a[1][1]) is not None: val = ('mem', self.scalar(eng, st, a[1][1]))
            else: val = ('blk', a[1])
            self.put(st, o, n, val, eng.where(ins))
            return a[0]
        return NotImplemented

    def scalar(self, eng, st, L):
        if L[0] == 'v' or True:
            v = st.store.get(L)
            if v is None and L[0] == 'v': return None
            return eng.load(st, L) if v is None else v

    def on_store(self, eng, st, ins, L, v):
        if L[0] == 'i' and L[1][0] == 'd': o = self.off(L[1][1]); o = None if o is None else add(o, L[2])
        elif L[0] == 'd': o = self.off(L[1])
        else: return
        if o is not None: self.put(st, o, C(1), ('mem', v), eng.where(ins))

    # sample tables
    def after_havoc(self, eng, st, F, h, fields):
        super().after_havoc(eng, st, F, h, fields)
        k = (eng.frame, F.id, h)
        pre = tuple(sorted(((v, x) for v, x in self.ls_pre.get(k, {}).items() if x is not None), key=lambda y: y[0]))
        hv = tuple(sorted(((v, x) for v, x in self.ls_hv.get(k, {}).items() if x is not None), key=lambda y: y[0]))
        self.put(st, ('loop', k), pre, hv, eng.where())

    def on_backedge(self, eng, st, F, h):
        super().on_backedge(eng, st, F, h)
        k = (eng.frame, F.id, h)
        log = tg(st)['log']
        i = max((j for j, e in enumerate(log) if e[0] == ('loop', k)), default=None)
        if i is None: return
        now = {v: st.store.get(('v', eng.frame, v)) for v, _ in log[i][2]}
        # the marker holds (before, at the head); its tile is repeated
        self.bodies.setdefault(k, []).append((log[i + 1:], dict(log[i][2]), now, st.copy()))
        settag(st, log=log[:i])

    def on_exit_root(self, eng, st, F, val):
        self.exits.append((st, val))


class Bad(Exception):
    pass


def be_bytes(v, n): return tuple((v >> (8 * (n - 1 - i))) & 255 for i in range(n))


class Parse:
    """the layout of one path, parsed as ISO boxes"""

    def __init__(self, rep, eng, cl, st, val, what):
        self.rep, self.eng, self.cl, self.st, self.what = rep, eng, cl, st, what
        self.where0 = '%s:%d' % (cl.F0.file, cl.F0.line)
        self.w = self.where0
        self.tiles = []
        self.boxes = {}
        self.val = val
        self.reps = {}
        self.build(tg(st)['log'])

    def eq(self, a, b):
        d = sub(a, b)
        if d[0] == 'c': return d[1] == 0
        return self.eng.ent_eq(self.st, a, b)

    def build(self, log):
        # resolve loops into repeated tiles
        flat = []
        j = 0
        while j < len(log):
            e = log[j]
            if e[0][0] == 'loop':
                r = self.rep_tile(e)
                if r is not None: flat += self.unroll(r)
            else: flat.append(e)
            j += 1
        used = set()
        p = C(0)
        n = 0
        while not self.eq(p, self.val):
            c = [i for i, e in enumerate(flat) if i not in used and self.eq(e[0], p)]
            if not c:
                raise Bad('%s: byte %s of the output is not written, or what was written there does not end where the next piece starts' % (self.what, show(p)), self.w)
            i = c[-1]
            for x in c[:-1]:
                if not self.eq(flat[x][1], flat[i][1]): raise Bad('%s: %s is written over by pieces of different length' % (self.what, show(p)), flat[i][3])
            used.update(c)
            self.tiles.append(flat[i])
            self.w = flat[i][3]
            p = add(p, flat[i][1])
            n += 1
            if n > 2000: raise Bad('%s: no end' % self.what, self.w)
        for i, e in enumerate(flat):
            if i in used: continue
            z = [t for t in self.tiles if self.eq(t[0], e[0])]
            if not z and not self.eq(e[1], C(0)): raise Bad('%s: a piece of %s bytes at %s lies outside of what is returned or across other pieces' % (self.what, show(e[1]), show(e[0])), e[3])

    def unroll(self, r):
        """a loop that always runs the same few times and writes the same bytes"""
        k, S, fields = self.reps[r[0]][:3]
        if S[0] != 'c' or S[1] <= 0: return [r]
        n = next((n for n in range(1, 65) if self.eq(r[1], C(n * S[1]))), None)
        if n is None: return [r]
        out = []
        for i in range(n):
            for o in sorted(fields, key=lambda x: x[1]):
                f = fields[o]
                if any(x[0] != f[0][0] or x[1] != f[0][1] for x in f) or f[0][1][0] == 'mem' and self.eng.num(f[0][1][1])[0] != 'c': return [r]
                out.append((add(r[0], add(C(i * S[1]), o)), f[0][0], f[0][1], f[0][2]))
        return out

    def rep_tile(self, e):
        k = e[0][1]
        pre, hv = dict(e[1]), dict(e[2])
        bod = self.cl.bodies.get(k, [])
        bod = [b for b in bod if b[1] == hv]
        if not any(b[0] for b in bod): return None
        if len({b[0] for b in bod}) != 1 and len({tuple((x[0], x[1]) for x in b[0]) for b in bod}) != 1: raise Bad('%s: iterations write different layouts' % self.what, e[3])
        body = bod[0][0]
        pos, q = body[0][0], body[0][0]
        fields = {}
        for b in bod:
            q = pos
            for o, n, v, w in b[0]:
                if sub(o, q) != C(0): raise Bad('%s: the entry of a table has a gap or an overlap' % self.what, w)
                fields.setdefault(sub(o, pos), []).append((n, v, w, b[3]))
                q = add(q, n)
        S = sub(q, pos)
        step = {}
        for b in bod:
            for v, x in b[2].items():
                if x is not None and hv.get(v) is not None and x[0] not in ('lv',) and hv[v][0] not in ('lv',): step[v] = sub(x, hv[v])
        def subst(m):
            r = pos
            for v, x in hv.items():
                if mentions(pos, x): r = add(r, sub(m(v), x))
            return r
        p2 = subst(lambda v: add(hv[v], step[v]))
        if not self.eq(p2, q): raise Bad('%s: entries of a table do not follow one another' % self.what, body[0][3])
        p0 = subst(lambda v: pre[v])
        self.reps[p0] = (k, S, fields, pre, hv, step, pos)
        return (p0, sub(pos, p0), ('table', p0), body[0][3])

    # ---- reading
    def tile(self, off):
        for t in self.tiles:
            if self.eq(t[0], off): return t
        return None

    def within(self, off):
        """(tile, constant offset inside it)"""
        for t in self.tiles:
            d = sub(off, t[0])
            if d[0] == 'c' and d[1] >= 0 and t[1][0] == 'c' and d[1] < t[1][1]: return t, d[1]
        t = self.tile(off)
        return (t, 0) if t is not None else (None, 0)

    def bytes_of(self, t):
        """list of bytes of a piece of constant length: ints or (value, n, index)"""
        n = t[1][1]
        v = t[2]
        if v[0] == 'text':
            b = v[1].encode('latin1') + b'\0' * 64
            return list(b[:n])
        if v[0] == 'fill': return [v[1][1]] * n if v[1][0] == 'c' else None
        if v[0] == 'mem':
            x = self.eng.num(v[1])
            if x[0] == 'c': return [(x[1] >> (8 * i)) & 255 for i in range(n)]
            if x[0] == 'be':
                if x[2][0] == 'c':
                    b = list(be_bytes(x[2][1] & ((1 << (8 * x[1])) - 1), x[1]))
                    if n < x[1]: return b[:n]
                    return b + [0] * (n - x[1])
                if n == x[1]: return [('B', x[2], n, i) for i in range(n)]
                return None
            if n == 1: return [byte(x)]
            return None
        return None

    def field(self, off, n, w=None):
        out = []
        o = off
        while len(out) < n:
            t, i = self.within(o)
            if t is None or t[1][0] != 'c': raise Bad('%s: no %d byte field at %s' % (self.what, n, show(off)), self.w)
            b = self.bytes_of(t)
            self.w = t[3]
            if b is None: raise Bad('%s: the %s byte field at %s is not in network byte order' % (self.what, show(t[1]), show(off)), t[3])
            take = b[i:i + n - len(out)]
            out += take
            o = add(o, C(len(take)))
        return out

    def value(self, off, n):
        """the big-endian number at off as a linear value"""
        b = self.field(off, n)
        if all(isinstance(x, int) for x in b):
            r = 0
            for x in b: r = r * 256 + x
            return C(r)
        tot = C(0)
        i = 0
        while i < n:
            x = b[i]
            w = shifted(b, i)
            if w:
                tot = add(tot, mulc(w[0], 1 << (8 * (n - i - w[1])))); i += w[1]; continue
            if not isinstance(x, int) and x[0] == 'S': raise Bad('%s: the field at %s is made of pieces of different numbers' % (self.what, show(off)), self.w)
            if isinstance(x, int): tot = add(tot, C(x << (8 * (n - 1 - i)))); i += 1; continue
            if x[3] == 0 and all(i + j < n and b[i + j] == ('B', x[1], x[2], j) for j in range(x[2])):
                tot = add(tot, mulc(norm(x[1]), 1 << (8 * (n - i - x[2])))); i += x[2]; continue
            raise Bad('%s: the field at %s is made of pieces of different numbers' % (self.what, show(off)), self.w)
        return tot

    def text(self, off):
        b = self.field(off, 4)
        if not all(isinstance(x, int) for x in b): raise Bad('%s: no box type at %s' % (self.what, show(off)), self.w)
        return bytes(b).decode('latin1')

    # ---- boxes
    def box(self, off, end, path):
        size = self.value(off, 4)
        wsize = self.w
        typ = self.text(add(off, C(4)))
        name = '/'.join(path + (typ,))
        last = add(off, size)
        if not self.eng.ent_le(self.st, last, end): raise Bad('%s: box %s says it is larger than what is left of its parent' % (self.what, name), wsize)
        if not self.eng.ent_le(self.st, C(8), size): raise Bad('%s: box %s says it is smaller than its header' % (self.what, name), wsize)
        self.rep.ob('the size of a box is the size of what it holds', '%s %s' % (self.what, name), wsize)
        self.boxes.setdefault(typ, []).append((off, size, path))
        if typ in SIZES and not self.eq(size, C(SIZES[typ])): raise Bad('%s: box %s has %s bytes, ISO/IEC 14496-12 says %d' % (self.what, name, show(size), SIZES[typ]), wsize)
        if typ in CONTAINER or typ in HEAD:
            q = add(off, C(HEAD.get(typ, 8)))
            n = 0
            while not self.eq(q, last):
                if not self.eng.ent_le(self.st, q, last): raise Bad('%s: the children of box %s do not end where it ends' % (self.what, name), wsize)
                q = self.box(q, last, path + (typ,))
                n += 1
            if typ in ('stsd', 'dref') and not self.eq(self.value(add(off, C(12)), 4), C(n)): raise Bad('%s: box %s does not count its entries' % (self.what, name), wsize)
        else:
            # the leaf must end at a piece boundary
            if not self.eq(last, self.val) and self.tile(last) is None: raise Bad('%s: the size of box %s is not the number of bytes written for it' % (self.what, name), wsize)
        return last

    def top(self, want):
        p = C(0)
        got = []
        while not self.eq(p, self.val):
            q = self.box(p, self.val, ())
            got.append(self.text(add(p, C(4))))
            p = q
        self.check(got == want, 'boxes of the file', 'is made of %s, expected %s' % (' '.join(got), ' '.join(want)))

    def check(self, ok, rule, text):
        self.rep.check(ok, 'segments describe exactly their samples', '%s: %s' % (self.what, rule), self.w, '%s: %s' % (self.what, text))

    def one(self, typ, n=1):
        b = self.boxes.get(typ, [])
        if len(b) != n: raise Bad('%s: %d boxes %s' % (self.what, len(b), typ), self.where0)
        return b[0]

    def num(self, typ, o, n, want, what):
        off, size, _ = self.one(typ)
        v = self.value(add(off, C(o)), n)
        self.check(self.eq(v, norm(want)) or self.fits(v, want, n), '%s of %s' % (what, typ), 'the %s of box %s at byte %d is %s and not %s' % (what, typ, o, show(v), show(want)))

    def fits(self, v, want, n):
        return norm(v) == norm(want)


def byte(x):
    """a stored byte: of a small number, or a shifted part of a large one"""
    y = x
    while y[0] == 'cast' or y[0] == 'op' and len(y) == 4 and y[1] == '&' and y[3] == C(0xff) or y[0] == 'op' and y[1] == 'u': y = y[-1] if y[0] == 'cast' else y[2]
    if y[0] == 'op' and len(y) == 4 and y[1] == '>>' and y[3][0] == 'c' and y[3][1] % 8 == 0 and y[3][1] > 0: return ('S', y[2], y[3][1])
    return ('B', x, 1, 0)


def shifted(b, i):
    """(number, bytes) when b[i:] are the bytes of a number stored from the highest on"""
    if isinstance(b[i], int) or b[i][0] != 'S': return None
    v, k = b[i][1], b[i][2]
    n = k // 8 + 1
    if n not in (2, 4, 8) or i + n > len(b): return None
    for j in range(1, n):
        x = b[i + j]
        if isinstance(x, int): return None
        s = k - 8 * j
        y = x[1]
        while s == 0 and (y[0] == 'cast' or y[0] == 'op' and len(y) == 4 and y[1] == '&' and y[3] == C(0xff)): y = y[-1] if y[0] == 'cast' else y[2]
        if s and (x[0] != 'S' or x[2] != s or x[1] != v): return None
        if not s and (x[0] != 'B' or norm(y) != norm(v)): return None
    return norm(v), n


def norm(v):
    """the number modulo the width of its field: shifts, unsigned wrap and conversions removed"""
    if v[0] == 'lin':
        r = C(v[1])
        for a, k in v[2]: r = add(r, mulc(norm(a), k))
        return r
    if v[0] == 'cast': return norm(v[-1])
    if v[0] == 'op' and len(v) == 4:
        if v[1] == '<<' and v[3][0] == 'c': return mulc(norm(v[2]), 1 << v[3][1])
        if v[1] == '&' and v[3][0] == 'c' and v[3][1] in (0x7f, 0xff): return norm(v[2])
        if v[1] == 'usub': return sub(norm(v[2]), norm(v[3]))
        if v[1] == 'u': return norm(v[2])
    return v


def show(v):
    if v[0] == 'c': return str(v[1])
    if v[0] == 'lin': return ' + '.join([str(v[1])] * (v[1] != 0) + ['%s%s' % ('' if k == 1 else '%s*' % k, show(a)) for a, k in v[2]])
    if v[0] == 'init' and v[1][0] == 'm': return v[1][2].split('::')[-1]
    if v[0] == 'arg': return v[1]
    if v[0] == 'op': return '(%s %s %s)' % (show(v[2]), v[1], show(v[3])) if len(v) == 4 else v[1]
    return v[0]


def ctx(eng, st, cparam, *path):
    """current value of (*context)->a->b..."""
    p = eng.load(st, ('d', cparam), 'i2ctx *')
    t = 'i2ctx'
    for i, f in enumerate(path):
        L = ('m', ('d', p), t + '::' + f)
        p = eng.load(st, L)
        t = {'ctxvideo': 'i2ctx_video', 'ctxaudio': 'i2ctx_audio', 'ctxsample': 'i2ctx_sample'}.get(f, t)
    return p


def consts(P):
    """values of the media type constants, read from the source"""
    import re, os
    out = {}
    from ..facts import SRC
    for f in ('i2context.h', 'i2libisoff.h', 'i2libdash.h', 'i2libisoff.c'):
        p = os.path.join(SRC, 'modules/dasher', f)
        if os.path.exists(p):
            for m in re.finditer(r'^\s*#define\s+(\w+)\s+(0x[0-9a-fA-F]+|\d+)\b', open(p, errors='replace').read(), re.M): out[m.group(1)] = int(m.group(2), 0)
    return out


class Swap64(Lockstep):
    K = 40
    def __init__(self): super().__init__(); self.ex = []
    def init(self): return ()
    def inline(self, eng, st, G, ins): return True
    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn in ('htonl', 'ntohl'): return eng.note_type(('be', 4, eng.rvalue(st, args[0])), 'unsigned int')
        return NotImplemented
    def on_exit_root(self, eng, st, F, val): self.ex.append((st, val))


def is_swap(P, F):
    """does F return its 64 bit argument in network order (on a little-endian host)?"""
    cl = Swap64()
    Engine(P, cl).run(F)
    v = ('arg', F.params[0]['name'], 0)
    o = lambda a, b, c: ('op', a, b, c)
    lo = [('be', 4, o('&', v, C(0xffffffff))), ('be', 4, v), ('be', 4, ('cast', v))]
    hi = [('be', 4, o('>>', v, C(32)))]
    forms = set()
    for l in lo:
        for h in hi:
            s = o('<<', l, C(32))
            forms |= {o('|', s, h), o('|', h, s), add(s, h), add(mulc(l, 1 << 32), h), o('|', mulc(l, 1 << 32), h), o('|', h, mulc(l, 1 << 32))}
    le = [s for s, x in cl.ex if x in forms]
    rest = [(s, x) for s, x in cl.ex if x not in forms]
    if not le: return False
    for s, x in rest:
        if x != v: return False
        # the untouched value only on a host that is not little-endian: excluded by the test that guards the other exits
        g = [f[1] for f in s.facts if f[0] == 'ne']
        if not any(('eq', z) in t.facts for z in g for t in le): return False
    return True


def run(rep, P, tier):
    K = consts(P)
    for n in ('VIDEO_TYPE_AVC', 'VIDEO_TYPE_HEVC', 'AUDIO_TYPE'):
        if n not in K: raise AnalysisBroken('no definition of %s' % n)
    swaps = [F for F in P.funcs.values() if F.file.endswith(('i2libisoff.c', 'i2libdash.c')) and len(F.params) == 1 and 'long' in F.params[0]['t'] and '*' not in F.params[0]['t'] and is_swap(P, F)]
    be64 = {F.id for F in swaps}
    ids = set()
    plans = [('initVideoGenerator', 'VIDEO_TYPE_AVC'), ('initVideoGenerator', 'VIDEO_TYPE_HEVC'), ('initAudioGenerator', 'AUDIO_TYPE'),
             ('segmentGenerator', 'VIDEO_TYPE_AVC'), ('segmentGenerator', 'VIDEO_TYPE_HEVC'), ('segmentGenerator', 'AUDIO_TYPE')]
    nfiles = 0
    read = set()
    for name, media in plans:
        F = P.fn(name)
        if len(F) != 1: raise AnalysisBroken('no function %s' % name)
        F = F[0]
        pi = {p['name']: i for i, p in enumerate(F.params)}
        ptrs = [i for i, p in enumerate(F.params) if p['t'].replace('const ', '') == 'unsigned char *']
        if len(ptrs) != 2: raise AnalysisBroken('%s has no source and destination' % name)
        src, dst = ptrs
        ci = next(i for i, p in enumerate(F.params) if 'i2ctx' in p['t'])
        A = lambda i: ('arg', F.params[i]['name'] or str(i), i)
        ints = [i for i, p in enumerate(F.params) if p['t'] == 'unsigned int']
        what = '%s (%s)' % (name, media)
        holder = {}

        def make():
            cl = Layout(rep, F, media, A(dst)); cl.be64 = be64
            holder['cl'] = cl
            return cl

        def start():
            cl = holder['cl']
            st = State(); st.client = cl.init()
            f = set()
            ctxp = ('init', ('d', A(ci)), 0)
            if len(ints) > 1: f.add(('eq', sub(A(ints[1]), C(K[media]))))
            if media != 'AUDIO_TYPE':
                vp = ('init', ('m', ('d', ctxp), 'i2ctx::ctxvideo'), 0)
                f.add(('eq', sub(('init', ('m', ('d', vp), 'i2ctx_video::video_type'), 0), C(K[media]))))
            elif name.startswith('init'): f.add(('ge', sub(C(104), A(ints[0]))))
            if not name.startswith('init'):      # both are reset together before each segment (D03)
                cp = ('init', ('m', ('d', ('init', ('m', ('d', ctxp), 'i2ctx::' + ('ctxaudio' if media == 'AUDIO_TYPE' else 'ctxvideo')), 0)), ('i2ctx_audio' if media == 'AUDIO_TYPE' else 'i2ctx_video') + '::ctxsample'), 0)
                g = lambda x: ('init', ('m', ('d', cp), 'i2ctx_sample::' + x), 0)
                f.add(('eq', g('moof_pos'))); f.add(('eq', g('trun_pos')))
            st.facts = frozenset(f)
            return st
        cl, eng = run_stable(make, P, F, st=start)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        read |= cl.read
        ok = 0
        for st, val in cl.exits:
            v = eng.num(val)
            if eng.ent_le(st, v, C(K.get('I2ERROR_MAX', 10))):
                continue            # refused
            if not eng.ent_le(st, C(8), v):
                rep.check(False, 'segments are well formed', what, '%s:%d' % (F.file, F.line), '%s returns a length that may be an error code' % what); continue
            ok += 1
            ps = None
            try:
                ps = Parse(rep, eng, cl, st, v, what)
                if name.startswith('init'):
                    ps.top(['ftyp', 'moov']); init_fields(ps, eng, st, A(ci), media, src, A(ints[0]), A(src), ids)
                else:
                    ps.top(['styp', 'sidx', 'moof', 'mdat']); note_size(rep, ps, media, A(ints[0]), ctx(eng, st, A(ci), 'ctxvideo' if media != 'AUDIO_TYPE' else 'ctxaudio', 'ctxsample', 'mdat_sample_length')); seg_fields(ps, eng, st, A(ci), media, A(src), A(ints[0]), ids, F)
                rep.ob('segments are well formed', what, '%s:%d' % (F.file, F.line))
            except Bad as e:
                rep.check(False, 'segments are well formed', what, e.args[1], e.args[0])
        nfiles += bool(ok)
        rep.stats[what] = {'steps': eng.steps, 'layouts': ok}
    rep.check(len(ids) <= 1, 'segments describe exactly their samples', 'track id', 'modules/dasher/i2libisoff.c:1', 'init and media segments name different tracks: %s' % sorted(ids, key=str))
    rep.floor('kinds of files with a layout', nfiles, 6)
    run_init(rep, P, K, read)


def note_size(rep, ps, media, n, N):
    """length of a segment = a + b * samples + data"""
    off, size, _ = ps.one('trun')
    for b in (8, 16):
        d = sub(sub(ps.val, n), mulc(N, b))
        for a in range(64, 1024, 4):
            if ps.eq(d, C(a)):
                rep.stats['size %s' % media] = (a, b)
                return


def track(ps, typ, o, ids):
    off, size, _ = ps.one(typ)
    v = ps.value(add(off, C(o)), 4)
    ps.check(v[0] == 'c' and v[1] > 0, 'track id of %s' % typ, 'the track id of box %s is %s' % (typ, show(v)))
    ids.add(v)


def init_fields(ps, eng, st, cp, media, src, n, srcv, ids):
    vid = media != 'AUDIO_TYPE'
    sub_ = 'ctxvideo' if vid else 'ctxaudio'
    V = lambda *f: ctx(eng, st, cp, *f)
    off, size, _ = ps.one('ftyp')
    t = sub(size, C(16))
    ps.check(t[0] == 'c' and t[1] % 4 == 0 and t[1] > 0, 'brands', 'the file type box lists no compatible brand')
    track(ps, 'tkhd', 20, ids); track(ps, 'trex', 12, ids)
    mv = ps.one('mvhd')
    v = ps.value(add(mv[0], C(20)), 4)
    ps.check(v[0] == 'c' and v[1] > 0, 'movie time scale', 'the movie header has the time scale %s' % show(v))
    v = ps.value(add(mv[0], C(104)), 4)
    ps.check(v[0] == 'c' and v[1] > 0, 'next track id', 'the movie header has the next track id %s' % show(v))
    ps.num('mdhd', 20, 4, V(sub_, 'time_base'), 'time scale')
    ps.num('trex', 16, 4, C(1), 'sample description index')
    ps.num('trex', 20, 4, V(sub_, 'sample_duration'), 'default duration')
    h = ps.one('hdlr')
    ps.check(ps.text(add(h[0], C(16))) == ('vide' if vid else 'soun'), 'handler', 'the handler is not that of the medium')
    ps.check(('vmhd' in ps.boxes) == vid and ('smhd' in ps.boxes) != vid, 'media header', 'the media header is not that of the medium')
    for b, o in (('stts', 12), ('stsc', 12), ('stco', 12), ('stsz', 16)): ps.num(b, o, 4, C(0), 'entry count')
    ps.num('url ', 8, 4, C(1), 'self contained flag')
    if vid:
        ps.num('tkhd', 84, 4, mulc(V(sub_, 'width'), 65536), 'width'); ps.num('tkhd', 88, 4, mulc(V(sub_, 'height'), 65536), 'height')
        e = 'avc1' if media == 'VIDEO_TYPE_AVC' else 'hev1'
        if e not in ps.boxes: e = {'avc1': 'avc3', 'hev1': 'hvc1'}[e]
        ps.num(e, 14, 2, C(1), 'data reference'); ps.num(e, 32, 2, V(sub_, 'width'), 'width'); ps.num(e, 34, 2, V(sub_, 'height'), 'height')
        ps.num(e, 48, 2, C(1), 'frame count')
        payload(ps, 'avcC' if media == 'VIDEO_TYPE_AVC' else 'hvcC', 8, n, srcv, st)
    else:
        ps.num('mp4a', 14, 2, C(1), 'data reference'); ps.num('mp4a', 24, 2, V(sub_, 'channels'), 'channel count'); ps.num('mp4a', 26, 2, V(sub_, 'sample_size'), 'sample size')
        ps.num('mp4a', 32, 4, mulc(V(sub_, 'sample_rate'), 65536), 'sample rate')
        esds(ps, n, srcv, st)


def payload(ps, typ, o, n, srcv, st):
    """the bytes after o of the box are exactly the n bytes of the source"""
    off, size, _ = ps.one(typ)
    blk(ps, add(off, C(o)), n, srcv, st, typ)
    ps.check(ps.eq(size, add(C(o), n)), 'payload of %s' % typ, 'box %s does not end with its payload' % typ)


def blk(ps, off, n, srcv, st, what):
    t = ps.tile(off)
    if t is None or t[2][0] != 'blk': raise Bad('%s: no payload in %s' % (ps.what, what), ps.w)
    s = t[2][1]
    ps.w = t[3]
    for _ in range(4):
        c = [x for x in tg(st)['copies'] if x[0] == s]
        if not c: break
        ps.check(ps.eq(c[-1][2], n), 'payload of %s' % what, '%s is not given all the bytes of its payload' % what)
        s = c[-1][1]
    ps.check(s == srcv and ps.eq(t[1], n), 'payload of %s' % what, '%s does not carry exactly the bytes it was given' % what)


def esds(ps, n, srcv, st):
    off, size, _ = ps.one('esds')
    o = add(off, C(12))
    end = add(off, size)
    U = lambda p: norm(ps.value(p, 1))

    def tag(p, t):
        ps.check(U(p) == C(t), 'descriptor', 'descriptor %d is missing in the esds box' % t)
        return U(add(p, C(1)))
    l3 = tag(o, 3)
    ps.check(ps.eq(add(add(o, C(2)), l3), end), 'ES descriptor', 'the length of the ES descriptor is not that of what it holds')
    d = add(o, C(2 + 3))
    l4 = tag(d, 4)
    dsi = add(d, C(2 + 13))
    l5 = tag(dsi, 5)
    ps.check(ps.eq(l5, n), 'decoder info', 'the length of the decoder specific info is not that of the information given')
    ps.check(ps.eq(add(add(d, C(2)), l4), add(add(dsi, C(2)), l5)), 'decoder descriptor', 'the length of the decoder descriptor is not that of what it holds')
    blk(ps, add(dsi, C(2)), n, srcv, st, 'esds')
    sl = add(add(dsi, C(2)), l5)
    l6 = tag(sl, 6)
    ps.check(ps.eq(add(add(sl, C(2)), l6), end), 'SL descriptor', 'the descriptors do not end with the esds box')


def seg_fields(ps, eng, st, cp, media, srcv, n, ids, F):
    vid = media != 'AUDIO_TYPE'
    s = 'ctxvideo' if vid else 'ctxaudio'
    V = lambda *f: ctx(eng, st, cp, *f)
    dur = V(s, 'current_video_duration' if vid else 'current_audio_duration')
    track(ps, 'tfhd', 12, ids)
    ver = lambda typ: ps.value(add(ps.one(typ)[0], C(8)), 1)
    ps.check(ver('sidx') == C(1) and ver('tfdt') == C(1), 'versions', 'a box with 64 bit times does not say so (version 1)')
    ps.num('sidx', 16, 4, V(s, 'time_base'), 'time scale'); ps.num('sidx', 20, 8, V(s, 'earliest_presentation_time'), 'earliest time'); ps.num('sidx', 28, 8, C(0), 'first offset')
    ps.num('sidx', 38, 2, C(1), 'reference count'); ps.num('sidx', 44, 4, dur, 'duration')
    so, ss, _ = ps.one('sidx')
    ps.num('sidx', 40, 4, sub(ps.val, add(so, ss)), 'referenced size')
    ps.num('mfhd', 12, 4, V(s, 'sequence_number'), 'sequence number')
    ps.num('tfdt', 12, 8, V(s, 'earliest_presentation_time'), 'decode time')
    fl = ps.value(add(ps.one('tfhd')[0], C(8)), 4)
    ps.check(fl == C(0x020000), 'fragment flags', 'the fragment header does not make its own start the base of data offsets')
    payload(ps, 'mdat', 8, n, srcv, st)
    # the sample table
    off, size, _ = ps.one('trun')
    flags = ps.value(add(off, C(8)), 4)
    N = V(s, 'ctxsample', 'mdat_sample_length')
    ps.num('trun', 12, 4, N, 'sample count')
    bf = V(s, 'ctxsample', 'box_flags')
    ps.check(bf[0] == 'init' and ps.eq(flags, bf), 'flags of trun', 'the flags of the sample table are not those of the context')
    mo = ps.one('moof')[0]
    md = ps.one('mdat')[0]
    ps.num('trun', 16, 4, sub(add(md, C(8)), mo), 'data offset')
    t = ps.tile(add(off, C(20)))
    if t is None or t[2][0] != 'table': raise Bad('%s: no sample table' % ps.what, ps.w)
    k, S, fields, pre, hv, step, pos = ps.reps[t[0]]
    ps.w = t[3]
    ne = 4 if vid else 2
    ps.check(S == C(4 * ne), 'table entry', 'an entry of the sample table has %s bytes, %d expected' % (show(S), 4 * ne))
    ps.check(ps.eq(size, add(C(20), mulc(N, 4 * ne))), 'table', 'the sample table does not have one entry per sample')
    # which sample does an iteration describe: the index runs from 0 by 1
    arr = ('m', ('d', V(s, 'ctxsample')), 'i2ctx_sample::mdat')

    def elem(v):
        """(field, index) of a load of mdat[i].f"""
        L = v[1] if v[0] == 'init' else None
        if L is None or L[0] != 'm' or not L[2].startswith('mdat_sample::') or L[1][0] != 'i': return None
        return L[2].split('::')[1], L[1][2], L[1][1]

    def idx_ok(i):
        r = C(0)
        a, b = i, i
        for v, x in hv.items():
            if mentions(i, x): a = add(a, sub(pre[v], x)); b = add(b, step[v])
        return ps.eq(a, C(0)) and sub(b, i) == C(1)

    def describes(o, f):
        if fields.get(C(o)) and fields[C(o)][0][0] == C(1):      # byte by byte
            cols = [fields.get(C(o + j), []) for j in range(4)]
            if len({len(c) for c in cols}) != 1: return False
            for row in zip(*cols):
                ps.w = row[0][2]
                w = shifted([byte(eng.num(x[1][1])) if x[0] == C(1) and x[1][0] == 'mem' else 0 for x in row], 0)
                if not w or w[1] != 4 or not f(w[0], row[0][3]): return False
            return True
        for nn, v, w, s2 in fields.get(C(o), []):
            ps.w = w
            x = eng.num(v[1]) if v[0] == 'mem' else ('?',)
            if nn != C(4) or x[0] != 'be' or x[1] != 4: return False
            if not f(x[2], s2): return False
        return bool(fields.get(C(o)))

    def is_field(name):
        def g(x, s2):
            e = elem(norm(x))
            return e is not None and e[0] == name and idx_ok(e[1]) and e[2] == arr
        return g

    def is_cto(x, s2):
        from ..lin import atoms
        y = norm(x)
        at = atoms(y)
        es = [elem(a) for a in at]
        if len(at) != 2 or None in es: return False
        p = next((a for a, e in zip(at, es) if e[0] == 'presentation_timestamp'), None)
        d = next((a for a, e in zip(at, es) if e[0] == 'decode_timestamp'), None)
        return p is not None and d is not None and sub(p, d) == y and es[0][1] == es[1][1] and idx_ok(es[0][1])

    def is_flags(x, s2):
        if x[0] != 'c': return False
        key = [a for a in loads(s2) if elem(a) and elem(a)[0] == 'key' and idx_ok(elem(a)[1])]
        non = (x[1] >> 16) & 1
        return any(eng.truth(s2, a) is (not non) for a in key)
    ps.check(describes(0, is_field('duration')), 'sample duration', 'an entry of the sample table does not carry the duration of its sample')
    ps.check(describes(4, is_field('size')), 'sample size', 'an entry of the sample table does not carry the size of its sample')
    if vid:
        ps.check(describes(8, is_flags), 'sample flags', 'an entry of the sample table does not say whether its sample is a key frame')
        ps.check(describes(12, is_cto), 'composition offset', 'an entry of the sample table does not carry the presentation time minus the decode time of its sample')


def loads(st):
    out = set()

    def walk(v):
        if isinstance(v, tuple):
            if v and v[0] == 'init': out.add(v)
            for x in v: walk(x)
    for f in st.facts: walk(f)
    return out


# ---------------------------------------------------------------- contexts start complete
class Init(Layout):
    pass


def run_init(rep, P, K, read):
    F = P.fn('generate_context')
    if len(F) != 1: raise AnalysisBroken('no function generate_context')
    F = F[0]
    ctxi = next(i for i, p in enumerate(F.params) if 'i2ctx' in p['t'])
    mi = next(i for i, p in enumerate(F.params) if 'int' in p['t'] and 'i2ctx' not in p['t'])
    A = lambda i: ('arg', F.params[i]['name'], i)
    made = set()
    for media in ('VIDEO_TYPE_AVC', 'VIDEO_TYPE_HEVC', 'AUDIO_TYPE'):
        cl = Layout(rep, F, media, ('none',))
        eng = Engine(P, cl)
        st = State(); st.client = cl.init(); st.facts = frozenset({('eq', sub(A(mi), C(K[media])))})
        eng.run(F, st=st)
        made |= set(P.funcs[x].name for x in eng.visited_funcs)
        rep.funcs |= made
        sub_ = ('i2ctx_video', 'ctxvideo') if media != 'AUDIO_TYPE' else ('i2ctx_audio', 'ctxaudio')
        w = '%s:%d' % (F.file, F.line)
        n = 0
        for s, val in cl.exits:
            if eng.num(val) != C(K.get('I2OK', 0)): continue
            n += 1
            for f in sorted(read):
                t, fld = f.split('::')
                if fld in ('mdat', 'segment_data', 'pps_sps_data', 'aac_data') or t == 'mdat_sample': continue
                if t == 'i2ctx': p = eng.load(s, ('d', A(ctxi)))
                elif t == sub_[0]: p = ctx(eng, s, A(ctxi), sub_[1])
                elif t == 'i2ctx_sample': p = ctx(eng, s, A(ctxi), sub_[1], 'ctxsample')
                else: continue
                v = s.store.get(('m', ('d', p), f))
                if v is None and p in tg(s)['zero']: v = C(0)
                rep.check(v is not None, 'contexts start complete', '%s %s' % (media, f), w, 'generate_context leaves %s of a %s context unset, and the writers read it' % (f, media))
                if fld == 'box_flags' and v is not None:
                    want = 0x301 if media == 'AUDIO_TYPE' else 0xf01      # data offset, duration, size (flags, composition offset)
                    rep.check(v == C(want), 'contexts start complete', '%s flags of the sample table' % media, w, 'generate_context gives a %s context the sample table flags %s, its entries are described by %#x' % (media, show(v), want))
        rep.floor('complete contexts of %s' % media, n, 1)
    # nothing else changes the flags of the table
    for G in P.funcs.values():
        if G.name in made: continue
        for b in G.blocks.values():
            for x in b.el:
                m = G.ins.get(x['a']) if x['op'] in ('assign', 'cassign', 'incdec') else None
                if m and m['op'] == 'member' and m.get('f') == 'box_flags' and m.get('cls') == 'i2ctx_sample':
                    rep.check(False, 'contexts start complete', 'flags set by %s' % G.name, '%s:%s' % (G.file, x['l']), '%s changes the flags of the sample table' % G.name)
