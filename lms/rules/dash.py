"""D03: DASH packaging accounts for every sample exactly once and announces only what is complete."""
from ..engine import Engine, State, Client
from ..lin import C, add, sub, mulc, mentions, atoms
from ..facts import AnalysisBroken
from ..rat import same
from ..scan import Scan
from . import iso

RULE = ('inductive accounting: every function of the packaging library, per medium and for an empty and a non-empty segment, is one of: untouched, one sample appended (bytes, table entry, sums), or segment emitted (generator called with '
        'exactly the accumulated data, reset of all counters), with all bounds entailed; the segmenters pass on exactly the bytes, times, key flag and number of each frame; events of one frame and of one publication follow the required order')
LEVEL = 'other'
ASSUME = ['a context is only used with the medium it was generated for', 'malloc succeeds', 'a segment lasts and a frame is shorter than 2^32 units of the time base']

NARROW = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32}
WIDE = {'unsigned long', 'long', 'unsigned long long', 'long long'}


def width(t):
    t = t.replace('const ', '').strip()
    return NARROW.get(t, 64 if t in WIDE else None)


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def mod32(v):
    """the number modulo 2^32: conversions inside sums, differences and constant multiples do not matter"""
    if v[0] == 'lin':
        r = C(v[1])
        for a, k in v[2]: r = add(r, mulc(mod32(a), k))
        return r
    if v[0] == 'op' and v[1] in ('narrow', 'u') and (v[1] == 'u' or v[3][1] >= 32): return mod32(v[2])
    if v[0] == 'op' and v[1] == 'usub': return sub(mod32(v[2]), mod32(v[3]))
    return v


class Narrow(Client):
    """conversions that may lose high bits are kept visible"""
    max_steps = 300000

    def on_cast(self, eng, st, ins, v, ft, t):
        a, b = width(ft or ''), width(t or '')
        if a is not None and a == b and 'unsigned' in (ft or '') and 'unsigned' not in t:
            if v[0] == 'c' and v[1] >= 1 << (b - 1): return C(v[1] - (1 << b))
            if v[0] == 'op' and v[1] == 'usub': return sub(v[2], v[3])
        if a is None or b is None or b >= a or v[0] == 'c' and 0 <= v[1] < (1 << (b - 1)): return v
        if v[0] in ('cmp', 'not', 'logic'): return v
        if eng.ent_le(st, v, C((1 << b) - 1)) and eng.ent_le(st, C(0), v): return v
        x = ('op', 'narrow', v, C(b))
        eng.note_type(x, t)
        return x


VID = ('i2ctx_video', 'ctxvideo', 'current_video_duration')
AUD = ('i2ctx_audio', 'ctxaudio', 'current_audio_duration')


class Lib(Narrow):
    max_depth = 10

    def __init__(self, rep, media, F0):
        super().__init__()
        self.rep, self.media, self.F0 = rep, media, F0
        self.exits = []

    def init(self): return tuple(sorted(dict(log=(), gen=None, out=(), other=False).items()))
    def inline(self, eng, st, G, ins): return G.file.endswith(('i2libdash.c', 'i2context.h', 'i2libdash.h'))

    def log(self, st, *x): settag(st, log=tg(st)['log'] + (x,))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn == 'segmentGenerator':
            a = [eng.rvalue(st, x) for x in args]
            settag(st, gen=(tuple(a), tuple(sorted(acc(eng, st, self.media, self.cp).items())), len(tg(st)['log']), eng.where(ins)))
            v = eng.fresh(st, ins)
            eng.note_type(v, 'unsigned int')
            st.facts = st.facts | {('ge', sub(v, C(self.MAX + 1)))}
            for f in ('moof_pos', 'trun_pos'): eng.havoc_field(st, 'i2ctx_sample::' + f)
            eng.havoc_field(st, 'i2ctx::reference_size')
            return v
        if fn in ('memcpy', 'memmove', '__builtin_memcpy'):
            a = [eng.rvalue(st, x) for x in args]
            self.log(st, 'copy', a[0], a[1], eng.num(a[2]), eng.where(ins), st.copy())
            return a[0]
        if fn in ('initVideoGenerator', 'initAudioGenerator'):
            v = eng.fresh(st, ins); eng.note_type(v, 'unsigned int'); return v
        return NotImplemented

    def foreign(self, st, L):
        if L[0] == 'm' and L[2].startswith((AUD if self.media != 'AUDIO_TYPE' else VID)[0] + '::') or L[0] == 'm' and L[2] in ('i2ctx::ctxvideo', 'i2ctx::ctxaudio', 'i2ctx_video::ctxsample', 'i2ctx_audio::ctxsample') and self.storing: settag(st, other=True)

    storing = False

    def on_load(self, eng, st, ins, loc, val): self.foreign(st, loc)

    def on_store(self, eng, st, ins, L, v):
        self.storing = True; self.foreign(st, L); self.storing = False
        if L[0] == 'm' and L[2].startswith(('mdat_sample::', 'i2ctx')): self.log(st, 'set', L, v, eng.where(ins), st.copy())
        elif L[0] == 'd' and L[1][0] in ('arg', 'argp'): settag(st, out=tg(st)['out'] + ((L, v),))

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def ctxs(eng, st, media, cp):
    p = eng.load(st, ('d', cp), 'i2ctx *')
    V = VID if media != 'AUDIO_TYPE' else AUD
    m = eng.load(st, ('m', ('d', p), 'i2ctx::' + V[1]))
    s = eng.load(st, ('m', ('d', m), V[0] + '::ctxsample'))
    return p, m, s, V


def acc(eng, st, media, cp):
    p, m, s, V = ctxs(eng, st, media, cp)
    g = lambda b, f: eng.load(st, ('m', ('d', b), f))
    return dict(N=g(s, 'i2ctx_sample::mdat_sample_length'), S=g(m, V[0] + '::segment_data_size'), D=g(m, V[0] + '::' + V[2]), T=g(m, V[0] + '::earliest_presentation_time'), Q=g(m, V[0] + '::sequence_number'),
                M=g(s, 'i2ctx_sample::moof_pos'), R=g(s, 'i2ctx_sample::trun_pos'))


def bounds(P, tier):
    """from the layouts: length of a segment as constant + bytes per sample * samples + data"""
    class Null:
        def __init__(self): self.stats, self.funcs = {}, set()
        def check(self, *a): pass
        def ob(self, *a): pass
        def floor(self, *a): pass
    r = Null()
    iso.run(r, P, tier)
    return r.stats


def run_lib(rep, P, tier):
    K = iso.consts(P)
    size = bounds(P, tier)
    fs = [F for F in P.funcs.values() if F.file.endswith('i2libdash.c') and any('i2ctx **' in p['t'] for p in F.params)]
    n, roles = {}, {}
    started(rep, P, K)
    for F in sorted(fs, key=lambda f: f.name):
        if F.name in ('generate_context',): continue
        for media in ('VIDEO_TYPE_AVC', 'VIDEO_TYPE_HEVC', 'AUDIO_TYPE'):
            for empty in (True, False):
                b = {k: v for k, v in n.items()}
                one(rep, P, K, F, media, empty, size, n)
                for k in ('video append', 'audio append', 'video emit', 'audio emit'):
                    if n.get(k, 0) > b.get(k, 0): roles[F.name] = k.split()[0]
    for k in ('video append', 'audio append', 'video emit', 'audio emit', 'video reset', 'audio reset'): rep.floor(k, n.get(k, 0), 1)
    return roles


def started(rep, P, K):
    """what holds of an empty segment holds of a new context"""
    F = P.fn('generate_context')
    if len(F) != 1: raise AnalysisBroken('no function generate_context')
    F = F[0]
    ci = next(i for i, p in enumerate(F.params) if 'i2ctx' in p['t'])
    mi = 1 - ci
    A = lambda i: ('arg', F.params[i]['name'], i)
    for media in ('VIDEO_TYPE_AVC', 'VIDEO_TYPE_HEVC', 'AUDIO_TYPE'):
        cl = Lib(rep, media, F)
        cl.cp = A(ci)
        eng = Engine(P, cl)
        st = State(); st.client = cl.init(); st.facts = frozenset({('eq', sub(A(mi), C(K[media])))})
        eng.run(F, st=st)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        n = 0
        for s, val in cl.exits:
            if eng.num(val) != C(K['I2OK']): continue
            n += 1
            a = acc(eng, s, media, cl.cp)
            bad = [k for k in ('N', 'S', 'D', 'M', 'R') if eng.num(a[k]) != C(0)]
            rep.check(not bad, 'new contexts are empty', '%s (%s)' % (F.name, media), '%s:%d' % (F.file, F.line), 'a new context does not start with %s 0' % ', '.join(NAMES[b] for b in bad))
        rep.floor('new contexts of ' + media, n, 1)


def one(rep, P, K, F, media, empty, size, cnt):
    vid = media != 'AUDIO_TYPE'
    kind = 'video' if vid else 'audio'
    pi = {p['name']: i for i, p in enumerate(F.params)}
    ci = next(i for i, p in enumerate(F.params) if 'i2ctx **' in p['t'])
    cl = Lib(rep, media, F)
    cl.MAX = K['I2ERROR_MAX']
    A = lambda i: ('arg', F.params[i]['name'], i)
    cl.cp = A(ci)
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    p, m, s, V = ctxs(eng, st, media, cl.cp)
    a0 = acc(eng, st, media, cl.cp)
    f = {('ne', p), ('ne', m), ('ne', s), ('eq', a0['M']), ('eq', a0['R'])}
    other = AUD if vid else VID
    f.add(('eq', ('init', ('m', ('d', p), 'i2ctx::' + other[1]), 0)))
    if vid: f.add(('eq', sub(('init', ('m', ('d', m), 'i2ctx_video::video_type'), 0), C(K[media]))))
    if empty: f |= {('eq', a0['N']), ('eq', a0['S']), ('eq', a0['D'])}
    else: f |= {('ge', sub(a0['N'], C(1))), ('ge', sub(a0['S'], C(1)))}
    for x in a0.values(): eng.note_type(x, 'unsigned int')
    mi = pi.get('media_type')
    if mi is not None: f.add(('eq', sub(A(mi), C(K[media]))))
    st.facts = frozenset(f)
    eng.run(F, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    data = ('m', ('d', m), V[0] + '::segment_data')
    tab = ('m', ('d', s), 'i2ctx_sample::mdat')
    w0 = '%s:%d' % (F.file, F.line)
    tag = '%s (%s, %s)' % (F.name, media, 'empty' if empty else 'not empty')
    ret_int = 'int' in (F.ret or '') or 'char' in (F.ret or '')

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    for st, val in cl.exits:
        log = tg(st)['log']; gen = tg(st)['gen']
        eq = lambda x, y: eng.ent_eq(st, eng.num(x), eng.num(y))
        if tg(st)['other'] or st.store.get(('d', cl.cp)) not in (None, p): continue        # another medium (excluded), or made anew
        a1 = acc(eng, st, media, cl.cp)
        eqs = {k: eq(a0[k], a1[k]) for k in a0}
        v = eng.num(val) if val is not None and ret_int else None
        zero = all(eq(a1[k], C(0)) for k in ('N', 'S', 'D', 'M', 'R'))
        copies = [e for e in log if e[0] == 'copy' and under(e[1], data) is not None]
        sets = [e for e in log if e[0] == 'set' and e[1][2].startswith('mdat_sample::')]
        odd = [e for e in sets if not (e[1][1][0] == 'i' and e[1][1][1] == tab)]
        ck(not odd, 'samples are described in their own entry', odd[0][3] if odd else w0, 'the description of a sample is written elsewhere')
        if odd: continue
        if gen is not None: emit(rep, eng, st, K, F, media, kind, a0, a1, p, m, s, V, data, tab, sets, copies, gen, v, tag, w0, zero, cnt, empty)
        elif eq(a1['N'], add(a0['N'], C(1))): append(rep, eng, st, K, F, media, kind, a0, a1, m, s, V, data, tab, sets, copies, v, tag, w0, size, cnt, empty)
        elif zero and not (all(eqs.values())):
            cnt[kind + ' reset'] = cnt.get(kind + ' reset', 0) + 1
            ck(not sets and not copies, 'reset is complete', w0, 'samples are written while the segment is reset')
        else:
            bad = [k for k in sorted(eqs) if not eqs[k] and k not in (('T', 'Q') if empty else ())]
            ck(not bad and not sets and not copies, 'refused means untouched', sets[0][3] if sets else copies[0][4] if copies else w0, 'the segment under construction changes (%s) without a sample being added or the segment being finished' % (', '.join(NAMES[b] for b in bad) or 'data'))
            if v is not None and F.name.startswith('add_'): ck(eng.truth(st, v) is True, 'refusals are reported', w0, 'no sample was added but success is reported')
            elif v is not None and 'generate' in F.name or 'finish' in F.name and v is not None: ck(eng.ent_le(st, v, C(K['I2ERROR_MAX'])), 'a length only for a segment', w0, 'no segment was generated but a length is returned')


NAMES = dict(N='number of samples', S='size of the data', D='duration', T='time', Q='sequence number', M='moof position', R='trun position')


def under(p, L):
    """offset of the pointer p into the array at L, or None"""
    o = C(0)
    if p[0] == 'lin':
        b = [a for a, k in p[2] if a[0] == 'addr' and k == 1]
        if len(b) != 1: return None
        o = sub(p, b[0]); p = b[0]
    if p[0] != 'addr': return None
    x = p[1]
    if x[0] == 'i': o = add(o, x[2]); x = x[1]
    return o if x == L else None


def append(rep, eng, st, K, F, media, kind, a0, a1, m, s, V, data, tab, sets, copies, v, tag, w0, size, cnt, empty):
    cnt[kind + ' append'] = cnt.get(kind + ' append', 0) + 1
    eq = lambda x, y: eng.ent_eq(st, eng.num(x), eng.num(y))

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    vid = kind == 'video'
    A = lambda i: ('arg', F.params[i]['name'], i)
    src = next((i for i, p in enumerate(F.params) if p['t'].replace('const ', '') == 'unsigned char *'), None)
    ln = next((i for i, p in enumerate(F.params) if p['t'] == 'unsigned int' and i > (src or 0)), None)
    if src is None or ln is None: raise AnalysisBroken('%s has no data and length' % F.name)
    longs = [i for i, p in enumerate(F.params) if p['t'] == 'unsigned long']
    if len(longs) != 2: raise AnalysisBroken('%s has no presentation and decode time' % F.name)
    pts, dts = A(longs[0]), A(longs[1])
    ints = [i for i, p in enumerate(F.params) if p['t'] == 'unsigned int' and i != ln]
    byts = [i for i, p in enumerate(F.params) if p['t'] == 'unsigned char']
    L = A(ln)
    ck(len(copies) == 1, 'a sample is stored once', copies[-1][4] if copies else w0, 'the bytes of a sample are stored %d times' % len(copies))
    if len(copies) == 1:
        c = copies[0]
        ck(c[2] == A(src) and eq(c[3], L), 'a sample is stored whole', c[4], 'the bytes stored are not exactly those of the sample')
        ck(eq(under(c[1], data), a0['S']), 'samples follow one another', c[4], 'the bytes of a sample are not stored after those of the samples before')
        ck(eng.ent_le(c[5], add(a0['S'], L), C(eval_(K, 'MAX_DAT'))), 'no write past the segment buffer', c[4], 'the bytes of a sample may be written past the end of the segment buffer')
    ck(eq(a1['S'], add(a0['S'], L)), 'sizes add up', w0, 'the size of the data does not grow by the size of the sample')
    final = {}
    for e in sets: final[(e[1][1][2], e[1][2].split('::')[1])] = e
    mine = lambda f: next((e for (i, g), e in final.items() if g == f and eq(i, a0['N'])), None)
    last = lambda f: next((e for (i, g), e in final.items() if g == f and eq(i, sub(a0['N'], C(1)))), None)
    for f, want in (('size', L), ('presentation_timestamp', pts), ('decode_timestamp', dts)):
        e = mine(f)
        ck(e is not None and eng.num(e[2]) == want or e is not None and eq(e[2], want), 'samples are described', e[3] if e else w0, 'the %s of the sample is not recorded' % f)
    e = mine('key')
    ck(e is not None and (byts and eq(e[2], A(byts[0])) or not byts and eng.truth(st, e[2]) is True), 'samples are described', e[3] if e else w0, 'the key flag of the sample is not recorded')
    ck(eng.ent_le(st, a0['N'], C(eval_(K, 'MAX_MDAT_SAMPLE') - 1)), 'no write past the sample table', sets[0][3] if sets else w0, 'a sample may be described past the end of the table')
    allowed = {'size', 'presentation_timestamp', 'decode_timestamp', 'key', 'duration'}
    for (i, g), e in final.items():
        own = eq(i, a0['N']); prev = vid and not empty and g == 'duration' and eq(i, sub(a0['N'], C(1)))
        ck(own and g in allowed or prev, 'samples are described in their own entry', e[3], 'the description of another sample is changed')
    if vid:
        if empty:
            ck(eq(a1['D'], C(0)), 'durations add up', w0, 'a new segment does not start with duration 0')
        else:
            e = last('duration')
            loc = ('m', ('i', tab, sub(a0['N'], C(1))), 'mdat_sample::decode_timestamp')
            ok = e is not None
            if ok:
                q = e[4].copy()
                x = mod32(eng.num(e[2]))
                ok = any(x == mod32(sub(dts, z)) for z in (('init', loc, 0), eng.num(eng.load(q, loc, 'unsigned long'))))
            ck(ok, 'durations are distances of decode times', e[3] if e else w0, 'the duration of the sample before is not the distance of the decode times')
            if e is not None: ck(eq(mod32(sub(a1['D'], a0['D'])), mod32(eng.num(e[2]))), 'durations add up', w0, 'the duration of the segment does not grow by the duration of the sample')
    else:
        e = mine('duration')
        d = ints[0] if ints else None
        ck(e is not None and d is not None and eq(e[2], A(d)), 'samples are described', e[3] if e else w0, 'the duration of the sample is not recorded')
        ck(e is not None and (eq(sub(a1['D'], a0['D']), e[2]) or empty and eq(a1['D'], e[2])), 'durations add up', w0, 'the duration of the segment does not grow by the duration of the sample')
        ints = ints[1:]
    if empty:
        ck(eq(a1['T'], pts), 'a segment starts at its first sample', w0, 'the time of the segment is not that of its first sample')
        ck(bool(ints) and eq(a1['Q'], A(ints[0])), 'a segment has the number given', w0, 'the segment does not have the sequence number given')
    else:
        ck(eq(a1['T'], a0['T']) and eq(a1['Q'], a0['Q']), 'a segment starts at its first sample', w0, 'the time or the number of the segment changes with a later sample')
    ck(eq(a1['M'], C(0)) and eq(a1['R'], C(0)), 'reset is complete', w0, 'positions of boxes are set before the segment is generated')
    if v is not None: ck(eq(v, C(K.get('I2OK', 0))), 'refusals are reported', w0, 'a sample was added but failure is reported')
    # the segment fits in the buffers it is generated into
    b = size.get('size %s' % media)
    if b is None: raise AnalysisBroken('no size of segments of %s' % media)
    tot = add(add(a1['S'], mulc(a1['N'], b[1])), C(b[0]))
    ck(eng.ent_le(st, tot, C(eval_(K, 'MAX_DAT'))), 'a segment fits in its file buffer', w0, 'a segment of the samples accepted may be larger than the buffer it is generated into')


def emit(rep, eng, st, K, F, media, kind, a0, a1, p, m, s, V, data, tab, sets, copies, gen, v, tag, w0, zero, cnt, empty):
    cnt[kind + ' emit'] = cnt.get(kind + ' emit', 0) + 1
    eq = lambda x, y: eng.ent_eq(st, eng.num(x), eng.num(y))

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    a, at, npos, w = gen
    at = dict(at)
    vid = kind == 'video'
    if not empty:
        ck(under(a[0], data) is not None and eq(under(a[0], data), C(0)) and eq(a[1], at['S']) and eq(at['S'], a0['S']), 'a segment holds all its samples', w, 'the segment is not generated from exactly the data collected')
        ck(eq(at['N'], a0['N']), 'a segment holds all its samples', w, 'the number of samples changes before the segment is generated')
        ck(eq(at['T'], a0['T']) and eq(at['Q'], a0['Q']), 'a segment starts at its first sample', w, 'the time or number of the segment changes before it is generated')
        ck(eq(at['M'], C(0)) and eq(at['R'], C(0)), 'reset is complete', w, 'positions of boxes are set before the segment is generated')
    ck(eq(a[3], C(K[media])), 'a segment is generated for its medium', w, 'the segment is generated for another medium')
    outp = next((i for i, q in enumerate(F.params) if q['t'] == 'unsigned char *'), None)
    ck(outp is not None and a[2] == ('arg', F.params[outp]['name'], outp), 'a segment is generated where asked', w, 'the segment is not generated into the buffer given')
    ck(not copies, 'a segment holds all its samples', w, 'data is added while the segment is generated')
    if sets:
        e = sets[-1]
        idx = e[1][1][2]
        ok = vid and not empty and len({x[1] for x in sets}) == 1 and e[1][2].endswith('::duration') and eq(idx, sub(a0['N'], C(1)))
        ck(ok, 'samples are described in their own entry', e[3], 'the description of a sample is changed while the segment is generated')
        ck(eq(mod32(sub(at['D'], a0['D'])), mod32(eng.num(e[2]))), 'durations add up', e[3], 'the duration of the segment does not grow by the duration of its last sample')
        pa = ('init', ('m', ('i', tab, sub(a0['N'], C(1))), 'mdat_sample::presentation_timestamp'), 0)
        da = ('init', ('m', ('i', tab, sub(a0['N'], C(1))), 'mdat_sample::decode_timestamp'), 0)
        x = mod32(eng.num(e[2]))
        nxt = [('arg', q['name'], i) for i, q in enumerate(F.params) if q['t'] in ('unsigned int', 'unsigned long')]
        ck(any(x == mod32(sub(q, z)) for q in nxt for z in (pa, da)), 'durations are distances of decode times', e[3], 'the duration of the last sample is not the distance to the sample that follows it')
    elif not empty:
        ck(eq(at['D'], a0['D']), 'durations add up', w, 'the duration of the segment changes without a sample')
        if vid and F.name.startswith('generate'): ck(False, 'durations add up', w, 'the last sample of the segment gets no duration')
    ck(zero, 'reset is complete', w, 'after a segment was generated some of the counters of the segment are not reset')
    if v is not None: ck(eng.ent_le(st, C(K['I2ERROR_MAX'] + 1), v), 'a length only for a segment', w, 'a segment was generated but no length is returned')
    outs = {}
    for L, x in tg(st)['out']: outs[L] = x
    tp = [i for i, q in enumerate(F.params) if q['t'] == 'unsigned long *']
    dp = [i for i, q in enumerate(F.params) if q['t'] == 'unsigned int *']
    if not empty:
        for i, k in [(i, 'T') for i in tp] + [(i, 'D') for i in dp]:
            x = outs.get(('d', ('arg', F.params[i]['name'], i)))
            ck(x is not None and eq(x, at[k]), 'time and duration of a segment are reported', w, 'the %s reported is not that of the segment generated' % NAMES[k])


def eval_(K, n):
    import re, os
    from ..facts import SRC
    for f in ('i2context.h', 'i2libisoff.h', 'i2libdash.h'):
        p = os.path.join(SRC, 'modules/dasher', f)
        if os.path.exists(p):
            m = re.search(r'^\s*#define\s+%s\s+([0-9*+()x\sa-fA-F]+?)\s*(//.*|/\*.*)?$' % n, open(p, errors='replace').read(), re.M)
            if m: return int(eval(m.group(1), {'__builtins__': {}}))
    raise AnalysisBroken('no value of %s' % n)


# ---------------------------------------------------------------- segmenters
def micros(eng, st, p, v, what, tb):
    """None if v is the time of frame p ('getPresentationTime'/'getDecodeTime') in the time base, else what is wrong"""
    lossy = has_narrow(v)
    if lossy: return 'loses its high bits'
    t = time_of(p, what)
    off = eng.load(st, ('m', THIS(eng), 'DashSegmenter::tsOffset'))
    want = ('op', '/', ('op', '*', sub(t, off), tb), C(1000000))
    if not same(strip(v), want): return 'is not its %s time in units of the time base' % ('presentation' if 'Pres' in what else 'decode')
    w = strip(v)
    if not (w[0] == 'op' and w[1].rstrip('?') == '/' and not mentions_op(w[2], '/')): return 'is rounded before it is converted'
    return None


def THIS(eng): return ('d', ('arg', 'this', -1))


def time_of(p, what): return ('frame', what, p)


def strip(v):
    while v[0] == 'op' and v[1] in ('u', 'cast', 's'): v = v[2]
    return v


def mentions_op(v, o):
    if isinstance(v, tuple):
        if v[:1] == ('op',) and isinstance(v[1], str) and v[1].rstrip('?') == o: return True
        return any(mentions_op(x, o) for x in v)
    return False


def has_narrow(v): return mentions_op(v, 'narrow')


GETTERS = {'getPresentationTime', 'getDecodeTime', 'getLength', 'getDataBuf', 'getFrameTime', 'getMaxLength'}


class Seg(Narrow):
    max_depth = 10

    def __init__(self, lib):
        super().__init__()
        self.lib, self.exits = lib, []

    def init(self): return tuple(sorted(dict(call=None, log=()).items()))
    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file and not G.file.endswith('.c') and not G.file.endswith('i2libdash.h')

    def log(self, st, *x): settag(st, log=tg(st)['log'] + (x,))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        if short in GETTERS and obj is not None and cands and all(not self.inline(eng, st, c, ins) for c in cands):
            p = eng.ptr_of(st, obj) if hasattr(eng, 'ptr_of') else addr_of(obj)
            v = ('frame', short, p)
            if short in ('getLength', 'getMaxLength'): eng.note_type(v, 'unsigned int')
            return v
        if fn in self.lib:
            F = self.lib[fn][0]
            a = [eng.rvalue(st, x) for x in args]
            v = eng.fresh(st, ins); eng.note_type(v, 'unsigned int')
            outs = {}
            for i, q in enumerate(F.params):
                if q['t'] in ('unsigned long *', 'unsigned int *') and a[i][0] == 'addr':
                    x = ('out', fn, i, ins['id'] if 'id' in ins else 0, eng.frame); eng.note_type(x, q['t'][:-2])
                    eng.put(st, a[i][1], x); outs[i] = x
            self.log(st, 'lib', fn, tuple(a), v, tuple(sorted(outs.items())), eng.where(ins), st.copy())
            return v
        return NotImplemented

    def on_store(self, eng, st, ins, L, v):
        if L[0] == 'm' and L[2].startswith('DashSegment::'): self.log(st, 'set', L, v, eng.where(ins))

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def addr_of(obj):
    if obj[0] == 'lv' and obj[1][0] == 'd': return obj[1][1]
    return obj


def lib_functions(P):
    return {F.name: (F, {p['t'].replace('const ', ''): i for i, p in enumerate(F.params)}) for F in P.funcs.values() if F.file.endswith('i2libdash.c')}


SEGMENTERS = {'DashVideoSegmenterAVC': 'video', 'DashVideoSegmenterHEVC': 'video', 'DashAudioSegmenter': 'audio'}


def method(P, cls, name):
    """the function that runs for name on an object of exactly this class"""
    c = cls
    while c:
        for F in P.funcs.values():
            if F.cls == c and F.name.split('::')[-1] == name: return F
        b = P.classes[c].get('bases') if c in P.classes else None
        c = (b[0] if isinstance(b[0], str) else b[0].get('n') or b[0].get('t')) if b else None
    raise AnalysisBroken('no %s::%s' % (cls, name))


def run_seg(rep, P, tier, roles):
    K = iso.consts(P)
    lib = lib_functions(P)
    for cls in sorted(SEGMENTERS):
        kind = SEGMENTERS[cls]
        seg_generate(rep, P, K, lib, roles, cls, kind)
        seg_append(rep, P, K, lib, roles, cls, kind)
        seg_init(rep, P, K, lib, roles, cls, kind)


def start(P, cls, name, lib):
    F = method(P, cls, name)
    cl = Seg(lib)
    eng = Engine(P, cl, {('arg', 'this', -1): cls})
    this = ('arg', 'this', -1)
    eng.root_this = this; eng.atype[this] = F.cls + ' *'
    st = State(); st.client = cl.init()
    return F, cl, eng, st


def seg_generate(rep, P, K, lib, roles, cls, kind):
    F, cl, eng, st = start(P, cls, 'generateSegment', lib)
    w0 = '%s:%d' % (F.file, F.line)
    sp = next(i for i, p in enumerate(F.params) if 'DashSegment *' in p['t'])
    fp = next(i for i, p in enumerate(F.params) if 'Frame *' in p['t'])
    A = lambda i: ('arg', F.params[i]['name'], i)
    S = ('d', A(sp))
    m = lambda st, f: eng.load(st, ('m', S, 'DashSegment::' + f))
    seq = lambda st: eng.load(st, ('m', THIS(eng), 'DashSegmenter::sequenceNumber'))
    f0 = {k: m(st, k) for k in ('complete', 'data', 'timestamp', 'duration', 'dataLength', 'seqNumber')}
    q0 = seq(st)
    st.facts = frozenset({('ne', A(sp))} | ({('ne', A(fp))} if kind == 'video' else set()))
    eng.run(F, this=('arg', 'this', -1), st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    tag = '%s of %s' % (F.name, cls)
    n = 0

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    for st, val in cl.exits:
        log = tg(st)['log']
        calls = [e for e in log if e[0] == 'lib' and e[1] in roles]
        eq = lambda x, y: eng.ent_eq(st, eng.num(x), eng.num(y))
        r = eng.truth(st, eng.num(val))
        if not calls:
            ck(not any(e[0] == 'set' and e[1][2].split('::')[1] in f0 for e in log) and eq(seq(st), q0), 'a segment is finished once', w0, 'the segment changes without a segment being generated')
            ck(r is False, 'a segment is finished once', w0, 'no segment was generated but success is reported')
            continue
        c = calls[0]
        w = c[5]
        q = c[6]
        ck(len(calls) == 1, 'a segment is finished once', w, 'several segments are generated')
        ck(all(roles[x[1]] == kind for x in calls), 'a segment is generated for its medium', w, 'the generator of another medium is used')
        pr = lib[c[1]][1]
        a = c[2]
        ck(eng.truth(q, eng.num(f0['complete'])) is False and not any(e[0] == 'set' and e[1][2] == 'DashSegment::complete' for e in log[:log.index(c)]), 'a finished segment is not overwritten', w, 'a segment may be generated into one that is finished but not written yet')
        ck(a[pr['unsigned char *']] == f0['data'], 'a segment is generated where asked', w, 'the segment is not generated into the buffer of the segment')
        ck(a[pr['i2ctx **']] == ('addr', ('m', THIS(eng), 'DashSegmenter::dashContext')), 'a segment is generated from its own samples', w, 'another context is used')
        if kind == 'video':
            key = eng.load(q, ('m', THIS(eng), 'DashVideoSegmenter::previousIntra'))
            ck(eng.num(a[pr['unsigned char']]) == eng.num(key) if 'unsigned char' in pr else False, 'segments start at key frames', w, 'the key flag of the frame is not what decides about the end of the segment')
            t = next((i for i, p in enumerate(lib[c[1]][0].params) if p['t'] in ('unsigned int', 'unsigned long')), None)
            tb = eng.load(q, ('m', THIS(eng), 'DashSegmenter::timeBase'))
            x = a[t] if t is not None else C(0)
            if x[0] == 'op' and x[1] == 'narrow' and x[3][1] >= 32: x = x[2]       # only differences modulo 2^32 are taken of it
            bad = micros(eng, q, A(fp), x, 'getPresentationTime', tb) if t is not None else 'is not given'
            if bad and micros(eng, q, A(fp), x, 'getDecodeTime', tb) is None: bad = None
            ck(not bad, 'times are exact', w, 'the time of the next frame %s' % bad)
        size = c[3]
        okk = eng.ent_le(st, C(K['I2ERROR_MAX'] + 1), size)
        fail = eng.ent_le(st, size, C(K['I2ERROR_MAX']))
        ck(okk or fail, 'a length only for a segment', w, 'error codes of the generator are not told from lengths')
        if okk:
            n += 1
            outs = dict(c[4])
            pl = {lib[c[1]][0].params[i]['t']: x for i, x in outs.items()}
            for f, want, name in (('timestamp', pl.get('unsigned long *'), 'time'), ('duration', pl.get('unsigned int *'), 'duration'), ('dataLength', size, 'length')):
                ck(want is not None and eq(m(st, f), want), 'a finished segment carries its data', w, 'the %s of the segment is not that of the segment generated' % name)
            ck(eng.truth(st, eng.num(m(st, 'complete'))) is True, 'a finished segment carries its data', w, 'the segment is not marked complete')
            ck(eq(seq(st), add(q0, C(1))), 'segments are numbered without gaps', w, 'the sequence number is not advanced by one')
            ck(r is True, 'a segment is finished once', w, 'a segment was generated but failure is reported')
        elif fail:
            ck(eng.truth(st, eng.num(m(st, 'complete'))) is False, 'a finished segment carries its data', w, 'the segment is marked complete but none was generated')
            ck(eq(seq(st), q0), 'segments are numbered without gaps', w, 'the sequence number is advanced without a segment')
            ck(r is False, 'a segment is finished once', w, 'no segment was generated but success is reported')
    rep.floor('segment generation of ' + cls, n, 1)


def seg_append(rep, P, K, lib, roles, cls, kind):
    F, cl, eng, st = start(P, cls, 'appendFrameToDashSegment', lib)
    w0 = '%s:%d' % (F.file, F.line)
    fr = ('arg', F.params[0]['name'], 0)
    seq0 = eng.load(st, ('m', THIS(eng), 'DashSegmenter::sequenceNumber'))
    eng.run(F, this=('arg', 'this', -1), st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    tag = '%s of %s' % (F.name, cls)
    n = 0
    G = lambda k: ('frame', k, fr)

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    for st, val in cl.exits:
        log = tg(st)['log']
        calls = [e for e in log if e[0] == 'lib' and e[1] in roles and lib[e[1]][1].get('unsigned long *') is None]
        r = eng.truth(st, eng.num(val))
        others = [e for e in log if e[0] == 'lib' and e not in calls]
        ck(not others, 'a sample is stored once', others[0][5] if others else w0, 'appending a frame does something else to the segment')
        if not calls:
            ck(r is False, 'refusals are reported', w0, 'no sample was added but success is reported')
            continue
        n += 1
        c = calls[0]; w = c[5]; q = c[6]; a = c[2]; L = lib[c[1]][0]
        eqq = lambda x, y: eng.ent_eq(q, eng.num(x), eng.num(y))
        ck(len(calls) == 1, 'a sample is stored once', calls[-1][5], 'a frame is stored %d times' % len(calls))
        ck(roles[c[1]] == kind, 'a sample is stored in its medium', w, 'the frame is stored as another medium')
        d = next(i for i, p in enumerate(L.params) if p['t'].replace('const ', '') == 'unsigned char *')
        ints = [i for i, p in enumerate(L.params) if p['t'] == 'unsigned int']
        lg = [i for i, p in enumerate(L.params) if p['t'] == 'unsigned long']
        ck(a[next(i for i, p in enumerate(L.params) if 'i2ctx **' in p['t'])] == ('addr', ('m', THIS(eng), 'DashSegmenter::dashContext')), 'a sample is stored in its medium', w, 'another context is used')
        h = C(0 if kind == 'video' else 7)
        ck(eqq(a[d], add(G('getDataBuf'), h)), 'a sample is stored whole', w, 'the data is not that of the frame%s' % ('' if kind == 'video' else ' after its ADTS header'))
        ck(eqq(a[ints[0]], sub(G('getLength'), h)), 'a sample is stored whole', w, 'the length is not that of the frame%s' % ('' if kind == 'video' else ' after its ADTS header'))
        ck(eng.ent_le(q, add(h, C(1)), G('getLength')), 'a sample is stored whole', w, 'a frame too short to hold anything is appended (its length may wrap)')
        tb = eng.load(q, ('m', THIS(eng), 'DashSegmenter::timeBase'))
        whats = ('getPresentationTime', 'getDecodeTime') if kind == 'video' else ('getPresentationTime', 'getPresentationTime')
        for i, what in zip(lg, whats):
            bad = micros(eng, q, fr, a[i], what, tb)
            ck(not bad, 'times are exact', w, 'the %s time of the sample %s' % ('presentation' if i == lg[0] else 'decode', bad))
        ck(eqq(a[ints[-1]], seq0), 'segments are numbered without gaps', w, 'the sample does not carry the number of the segment under construction')
        if kind == 'video':
            k = next((i for i, p in enumerate(L.params) if p['t'] == 'unsigned char'), None)
            key = eng.load(q, ('m', THIS(eng), 'DashVideoSegmenter::previousIntra'))
            ck(k is not None and eng.num(a[k]) == eng.num(key), 'segments start at key frames', w, 'the sample does not carry the key flag of the frame')
        else:
            dur = eng.load(q, ('m', THIS(eng), 'DashSegmenter::frameDuration'))
            ck(len(ints) == 3 and eqq(a[ints[1]], dur), 'durations add up', w, 'the sample does not carry the duration of the frame')
        v = c[3]
        zero, nz = eng.ent_eq(st, v, C(K['I2OK'])), eng.truth(st, ('cmp', '!=', v, C(K['I2OK']))) is True
        if zero: ck(r is True, 'refusals are reported', w, 'a sample was added but failure is reported')
        elif nz: ck(r is False, 'refusals are reported', w, 'a refused sample is reported as added')
        else:
            s1 = st.copy()
            x = eng.num(val)
            ck(x == ('cmp', '==', v, C(K['I2OK'])) or x == ('not', v), 'refusals are reported', w, 'the answer does not tell whether the sample was added')
    rep.floor('append of ' + cls, n, 1)


# ---------------------------------------------------------------- the filter: frames to segments, segments to files, files to the manifest
def seg_init(rep, P, K, lib, roles, cls, kind):
    F, cl, eng, st = start(P, cls, 'generateInitSegment', lib)
    w0 = '%s:%d' % (F.file, F.line)
    S = ('d', ('arg', F.params[0]['name'], 0))
    m = lambda st, f: eng.load(st, ('m', S, 'DashSegment::' + f))
    X = ('m', THIS(eng), 'DashSegmenter::extradata')
    f0 = {k: m(st, k) for k in ('data', 'dataLength')}
    v0 = eng.ver(st, X)
    eng.run(F, this=('arg', 'this', -1), st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    tag = '%s of %s' % (F.name, cls)
    n = 0

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    for st, val in cl.exits:
        log = tg(st)['log']
        calls = [e for e in log if e[0] == 'lib']
        sets = [e for e in log if e[0] == 'set' and e[1][2] == 'DashSegment::dataLength']
        r = eng.truth(st, eng.num(val))
        cleared = eng.ver(st, X) != v0
        size = calls[-1][3] if calls else None
        got = size is not None and eng.ent_le(st, C(K['I2ERROR_MAX'] + 1), size)
        lost = size is None or eng.ent_le(st, size, C(K['I2ERROR_MAX']))
        w = calls[-1][5] if calls else w0
        ck(got or lost, 'a length only for initialisation data', w, 'error codes of the generator are not told from lengths')
        ck(r is not None, 'initialisation data is reported when generated', w, 'the result does not say whether initialisation data was generated')
        if got:
            n += 1
            c = calls[-1]
            pr = lib[c[1]][0].params
            bufs = [i for i, p in enumerate(pr) if p['t'] == 'unsigned char *']
            cx = next((i for i, p in enumerate(pr) if p['t'] == 'i2ctx **'), None)
            ck(c[2][bufs[-1]] == f0['data'], 'initialisation data is generated where asked', w, 'it is not generated into the buffer of the segment')
            ck(cx is not None and c[2][cx] == ('addr', ('m', THIS(eng), 'DashSegmenter::dashContext')), 'initialisation data is generated where asked', w, 'another context is used')
            ck(under_cont(c[2][bufs[0]], X), 'initialisation data is generated where asked', w, 'it is not made from the codec data of the segmenter')
            ck(mod32(eng.num(m(st, 'dataLength'))) == mod32(size) or eng.ent_eq(st, eng.num(m(st, 'dataLength')), size), 'a length only for initialisation data', w, 'the length of the segment is not that of the initialisation data')
            ck(r is True, 'initialisation data is reported when generated', w, 'it was generated but failure is reported')
        elif lost:
            ck(not sets and r is False, 'initialisation data is reported when generated', w, 'none was generated but success is reported or a length is set')
            ck(not cleared, 'codec data is kept until it was used', w, 'the codec data is dropped though no initialisation data was made from it')
    rep.floor('initialisation data of ' + cls, n, 1)


def under_cont(v, L): return under(v, L) == C(0) or v[0] == 'pcall' and v[1].endswith('::data') and mentions(v, L)


class Out(Narrow):
    """what is done to the file"""
    def __init__(self):
        super().__init__()
        self.exits, self.good = [], {}

    def init(self): return tuple(sorted(dict(opened=None, wr=(), closed=False).items()))

    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.split('::')[-1]
        t = tg(st)
        A = lambda i: eng.rvalue(st, args[i])
        w = eng.where(ins)
        if short in ('basic_ofstream', 'basic_fstream', 'open', 'fopen') and args and ('stream::' in fn or short == 'fopen') and len(args) >= 1:
            mode = A(1) if len(args) > 1 else C(16)
            settag(st, opened=(parts(A(0)) and tuple(parts(A(0))), mode, t['opened'] is not None, w))
            if short == 'fopen': return eng.fresh(st, ins)
            return NotImplemented
        if fn == 'std::operator|' and len(args) == 2:
            a, b = eng.num(A(0)), eng.num(A(1))
            if a[0] == b[0] == 'c': return C(a[1] | b[1])
        if short in ('write', 'fwrite') and ('stream::' in fn or short == 'fwrite'):
            a = [A(i) for i in range(len(args))]
            v = eng.fresh(st, ins)
            settag(st, wr=t['wr'] + ((a[0], a[1] if short == 'write' else ('mul', a[1], a[2]), v, w),))
            if short == 'fwrite': return v
            return NotImplemented
        if short in ('close', 'fclose') and ('stream::' in fn or short == 'fclose'):
            v = eng.fresh(st, ins)
            settag(st, closed=True)
            if short == 'fclose': self.good[v] = (-1, True); return v
            return v
        if short in ('good', 'fail', 'bad', 'operator!', 'operator bool', 'operator void *') and 'ios' in fn:
            v = eng.fresh(st, ins)
            st.facts = st.facts | {('ge', v), ('ge', sub(C(1), v))}
            self.good[v] = (1 if short in ('good', 'operator bool', 'operator void *') else -1 if short in ('fail', 'operator!') else 0, t['closed'])
            return v
        return NotImplemented

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def run_out(rep, P):
    F = P.fn('DashSegment::writeToDisk')
    if not F: raise AnalysisBroken('DashSegment::writeToDisk is gone')
    F = F[0]
    w = '%s:%d' % (F.file, F.line)
    cl = Out()
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    m = lambda f: eng.load(st, ('m', ('d', ('sym', 'this', 'DashSegment')), 'DashSegment::' + f))
    data, n = m('data'), m('dataLength')
    eng.run(F, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    tag = F.name
    k = 0

    def ck(ok, rule, w, text): rep.check(ok, rule, tag, w, '%s: %s' % (tag, text))
    for st, val in cl.exits:
        if eng.truth(st, eng.num(val)) is False: continue
        k += 1
        t = tg(st)
        o = t['opened']
        ck(o is not None and not o[2], 'a segment is written whole', w, 'success is reported but no file, or more than one, was opened')
        if o is not None:
            ck(len(o[0]) == 1 and o[0][0][:2] in (('arg', 'path'), ('copyof', ('v', 'r', F.params[0].get('vid')))) or o[0][0] == ('arg', F.params[0]['name'], 0), 'a segment is written where asked', o[3], 'another file is written')
            md = o[1]
            ck(md[0] == 'c' and md[1] & 4 and not md[1] & 1 and not (md[1] & 8 and not md[1] & 32) or md[0] == 'str' and md[1] in ('wb', 'wb+', 'w+b', 'w'), 'a segment is written whole', o[3], 'the file is not opened to be replaced, byte by byte')
        a = t['wr']
        ck(len(a) == 1, 'a segment is written whole', w, 'the data is not written exactly once')
        if len(a) == 1:
            ok = a[0][0] == data and (eng.ent_eq(st, eng.num(a[0][1]), n) if a[0][1][0] != 'mul' else any(eng.ent_eq(st, eng.num(a[0][1][i]), n) and eng.ent_eq(st, eng.num(a[0][1][3 - i]), C(1)) for i in (1, 2)))
            ck(ok, 'a segment is written whole', a[0][3], 'not exactly the data of the segment is written')
        facts = [v for v, (sgn, closed) in cl.good.items() if closed and sgn and (eng.truth(st, v) is (sgn > 0) or value_says(eng, st, val, v, sgn))]
        ck(bool(facts), 'a failing write is reported', w, 'success is reported without looking at the outcome of writing and closing the file')
    rep.floor('successful writes of a segment', k, 1)


def value_says(eng, st, val, v, sgn):
    """val is only true when the outcome v is good"""
    x = val
    while x[0] == 'op' and x[1] in ('u', 'cast', 's', 'b'): x = x[2]
    while x[0] == 'not': x = x[1]; sgn = -sgn
    if x == v: return sgn > 0
    if x[0] == 'cmp' and x[1] in ('==', '!='):
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            if a == v and b == C(0): return (x[1] == '!=') == (sgn > 0)
    return False


def parts(v):
    """the parts a string is concatenated from"""
    if v[0] == 'pcall' and v[1] == 'std::operator+': return parts(v[3][0]) + parts(v[3][1])
    if v[0] == 'pcall' and v[1] in ('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string::basic_string') and v[2] is not None: return parts(v[2])
    if v[0] == 'pcall' and v[1] == 'std::basic_string::basic_string': return parts(v[3][0])
    if v[0] == 'cat': return [y for x in v[1] for y in parts(x)]
    if v[0] == 'pcall' and v[1] == 'std::to_string': return [('num', nocast(v[3][0]))]
    if v[0] == 'str': return [v[1]] if v[1] else []
    return [v]


def nocast(v):
    while v[0] == 'op' and v[1] in ('u', 'cast', 's'): v = v[2]
    return v


def joined(ps):
    """neighbouring literals merged"""
    r = []
    for x in ps:
        if isinstance(x, str) and r and isinstance(r[-1], str): r[-1] += x
        elif x != '': r.append(x)
    return r


def template(ps, ident, time):
    """the parts of a template with the identifiers the players replace"""
    r = []
    for x in ps:
        if not isinstance(x, str): r.append(x); continue
        while x:
            k = min((x.index(t), t) for t in ('$RepresentationID$', '$Time$', '\0') if t in x + '\0' and (t != '\0')) if any(t in x for t in ('$RepresentationID$', '$Time$')) else None
            if k is None: r.append(x); break
            r += [x[:k[0]], ident if 'Rep' in k[1] else time]
            x = x[k[0] + len(k[1]):]
    return joined(r)


class Strings(Narrow):
    """strings are lists of parts"""
    def text(self, eng, st, fn, obj, args):
        short = fn.split('::')[-1]
        if fn.startswith('std::basic_string::') and short in ('append', 'operator+=', 'push_back') and obj is not None and obj[0] == 'lv' and len(args) == 1:
            old = eng.load(st, obj[1], 'std::string')
            a = eng.rvalue(st, args[0])
            if a[0] == 'copyof': a = eng.load(st, a[1], 'std::string')
            if short == 'push_back' and a[0] == 'c': a = ('str', chr(a[1]), 1)
            eng.put(st, obj[1], ('cat', (old, a)))
            return obj
        return NotImplemented


class Disp(Strings, Scan):
    max_depth = 9
    K = 64

    def __init__(self, rep, P):
        super().__init__()
        Scan.__init__(self)
        self.rep, self.P = rep, P
        self.inv = {}            # loop -> flags that hold at the end of every round
        self.roots = {}          # loop -> container
        self.later = []          # (loops, flag, rule, subject, where, text)
        self.names = []          # (kind, container, parts, element, ...)
        self.sets = {}           # container -> ids of adaptation sets
        self.count = {}
        self.via = {}            # loop -> for every round, the loops completed in it
        self.outer = {}          # loop that deletes a file -> loops around it

    ROUND = dict(man=None, ini=None, iniw=None, gen=None, app=None, aset=None, repr=None, wr=None, cl=None, rm=None)

    def init(self): return tuple(sorted(dict(self.ROUND, it=(), done=(), wname=None, stale=(), ann=None, pub=True).items()))

    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file and not G.file.endswith('.c') and (not G.cls or G.cls in ('Dasher', 'DashSegment', 'DashSegmenter', 'MpdManager')) and (G.cls == 'Dasher' or G.name.split('::')[-1] not in EVENTS)

    def ck(self, ok, rule, subj, w, text): self.rep.check(ok, rule, subj, w, text)

    def elem(self, st):
        t = tg(st)
        return t['it'][-1] if t['it'] else None

    def root(self, it):
        L, ver = it[1], it[2]
        while isinstance(ver[1], tuple) and ver[1][:1] == ('copyof',): L = ver[1][1]; ver = (0, None)
        if L[0] == 'v' and isinstance(ver[1], tuple) and ver[1][:1] in (('arg',), ('ret',)): return ('val', ver[1])
        return L

    def cname(self, L):
        if L is None: return '?'
        if L[0] == 'm': return L[2].split('::')[1]
        if L[0] == 'val': return 'newFrames' if L[1][0] == 'arg' else 'segments removed'
        return 'newFrames' if L[0] == 'd' else '?'

    def where_is(self, p):
        """(container, key) of a pointer loaded from a container"""
        if p[0] == 'init' and p[1][0] == 'i':
            L, k = p[1][1], nocast(p[1][2])
            if k[0] == 'key' and k[1][0] == 'iter': return self.root(k[1]), k
            if L[0] == 'm': return L, k
        return None, None

    def canon(self, k):
        return nocast(k)

    def on_branch(self, eng, st, ins, v, taken):
        r = self.scan_loop(eng, st, v, taken)
        if r is None: return
        end, lp, a = r[0], r[1], r[4]
        self.roots[lp] = self.root(a)
        t = tg(st)
        it = tuple(x for x in t['it'] if x[0] != lp)
        if end: settag(st, it=it, done=tuple(sorted(set(t['done']) | {lp})))
        else:
            mine = set()
            if t['ann'] and t['pub']:
                rs = (t['ann'][0], ('val', t['ann'][1]))
                if self.roots[lp] in rs: mine = {x for x in t['done'] if self.roots.get(x) in rs}
            settag(st, it=it + ((lp, self.root(a), a),), done=tuple(x for x in t['done'] if x not in mine))

    def on_backedge(self, eng, st, F, h):
        lp = ('lp', eng.frame, h)
        t = tg(st)
        e = next((x for x in t['it'] if x[0] == lp), None)
        if e is None: return
        c = self.cname(e[1])
        flags = set()
        if e[2][0] == 'idx': self.ck(self.scan_step_ok(eng, st, F, h), 'loops cover their container', c, '%s:%d' % (F.file, F.line), 'the loop may skip elements')
        p = eng.load(st, ('i', e[2][1], ('key', e[2])), 'DashSegment *') if c.endswith('Segments') and e[2][0] == 'iter' else None
        if p is not None:
            if eng.truth(st, eng.num(eng.load(st, ('m', ('d', p), 'DashSegment::complete'), 'bool'))) is True: flags.add('complete')
            if t['wr'] and t['wr'][0] == p and eng.truth(st, t['wr'][1]) is True: flags.add('written')
            if t['cl'] and p in t['cl']: flags.add('cleared')
        if t['rm'] and lp in t['rm']: flags.add('deleted')
        else: self.via.setdefault(lp, []).append(frozenset(t['done']))
        self.inv[lp] = self.inv[lp] & flags if lp in self.inv else flags
        self.round_end(eng, st, F, c, e)
        if t['wr'] and eng.truth(st, t['wr'][1]) is True: t['wname'] = t['wr'][2]
        settag(st, it=tuple(x for x in t['it'] if x[0] != lp), wname=t['wname'], **self.ROUND)

    def on_loop_enter(self, eng, st, F, h):
        Scan.on_loop_enter(self, eng, st, F, h)
        f = eng.frame
        t = tg(st)
        it = tuple(x for x in t['it'] if f == x[0][1] and h in F.loops[x[0][2]] or f != x[0][1] and f.startswith(x[0][1] + '/'))
        if it != t['it']: settag(st, it=it)

    # -- one frame, or one forced segment
    def round_end(self, eng, st, F, c, e):
        t = tg(st)
        w = '%s:%d' % (F.file, F.line)
        subj = 'round over ' + c
        T = lambda v: eng.truth(st, v)
        if c == 'newFrames':
            self.count['frames'] = self.count.get('frames', 0) + 1
            id_ = nocast(eng.load(st, ('ielem', e[2]), 'int'))
            SG = ('m', ('d', ('sym', 'this', 'Dasher')), 'Dasher::segmenters')
            if t['man'] is None:
                sg = {a for f in st.facts for a in atoms(f[1]) if self.about(a, SG, id_)}
                self.ck(any(eng.ent_eq(st, a, C(0)) or eng.truth(st, a) is False for a in sg), 'every frame reaches its segmenter', subj, w, 'a frame of a stream that has a segmenter is passed over')
            else:
                p, fr, M, n, w1 = t['man']
                L, k = self.where_is(p)
                self.ck(n == 1, 'every frame reaches its segmenter once', subj, w1, 'a frame is given to its segmenter more than once')
                self.ck(L == SG and k == id_, 'every frame reaches its segmenter', subj, w1, 'the frame is given to the segmenter of another stream')
                fl, fk = (fr[1][1], nocast(fr[1][2])) if fr[0] == 'init' and fr[1][0] == 'i' else (None, None)
                self.ck(fl is not None and fl[0] == 'd' and fk == id_, 'every frame reaches its segmenter', subj, w1, 'the segmenter is given a frame of another stream')
                if T(M) is not False:
                    neither = T(('dyn', p, 'DashVideoSegmenter')) is False and T(('dyn', p, 'DashAudioSegmenter')) is False
                    if neither: return
                    lost = t['iniw'] is not None and T(t['iniw'][0]) is False
                    a = t['app']
                    self.ck(a is not None or lost, 'every frame is appended once', subj, w, 'a coded frame is not appended to the segment of its stream')
                    if a is not None:
                        self.ck(a[2] == 1, 'every frame is appended once', subj, a[3], 'a coded frame is appended more than once')
                        self.ck(a[0] == p and a[1] == M, 'every frame is appended once', subj, a[3], 'what is appended is not the frame the segmenter has made, or goes to another stream')
                        g = t['gen']
                        vid = T(('dyn', p, 'DashVideoSegmenter')) is True
                        hv = T(eng.num(eng.load(st, ('m', ('d', ('sym', 'this', 'Dasher')), 'Dasher::hasVideo'), 'bool')))
                        if g is None: self.ck(not vid and hv is not False, 'segments are ended in time', subj, w, 'a frame is appended without looking whether it begins a new segment')
                    self.ck(t['ini'] is not None, 'initialisation data is published', subj, w, 'initialisation data is not looked for')
        g = t['gen']
        if g is not None:
            p, seg, fr, force, res, n, before, w1 = g
            L, k = self.where_is(p)
            self.ck(n == 1, 'segments are ended in time', subj, w1, 'a segment is ended more than once for one frame')
            if c == 'newFrames' and t['man']:
                self.ck(p == t['man'][0] and fr == t['man'][2], 'segments are ended in time', subj, w1, 'the segment is ended by a frame of another stream')
                self.ck(before, 'segments are ended in time', subj, w1, 'the segment is ended after its first successor was appended to it')
            sl, sk = self.where_is(seg)
            self.ck(sl is not None and self.cname(sl) in ('vSegments', 'aSegments') and sk is not None and same_key(sk, k), 'streams do not share segments', subj, w1, 'the segment of another stream is used')
            if T(('dyn', p, 'DashVideoSegmenter')) is True: self.ck(self.cname(sl) == 'vSegments', 'streams do not share segments', subj, w1, 'a video segment is stored as an audio segment')
            elif T(('dyn', p, 'DashAudioSegmenter')) is True: self.ck(self.cname(sl) == 'aSegments', 'streams do not share segments', subj, w1, 'an audio segment is stored as a video segment')
            if T(res) is True:
                a, r = t['aset'], t['repr']
                self.ck(a is not None and r is not None, 'the manifest describes every stream', subj, w1, 'a segment is finished without its stream being described in the manifest')
                if a is not None and r is not None:
                    self.sets.setdefault(self.cname(sl), set()).update((a[0], r[0]))
                    self.names.append(('templ', self.cname(sl), a[2], a[3], a[4]))
                    self.ck(a[1] is not None and (a[1] == p or (self.where_is(a[1])[0], nocast(self.where_is(a[1])[1] or C(0))) == (L, nocast(k or C(1)))), 'the manifest describes every stream', subj, a[4], 'the time base in the manifest is not that of the segmenter')
                    x = parts(r[1])
                    self.ck(len(x) == 1 and x[0][0] == 'num' and same_key(x[0][1], k), 'the manifest describes every stream', subj, r[2], 'the representation in the manifest does not have the identifier of the stream')
            elif T(res) is None: self.ck(False, 'the manifest describes every stream', subj, w1, 'the outcome of ending a segment is not looked at')
        if t['ini'] is not None:
            p, seg, res, w1 = t['ini']
            sl, sk = self.where_is(seg)
            L, k = self.where_is(p)
            self.ck(sl is not None and self.cname(sl) == 'initSegments' and same_key(sk, k), 'initialisation data is published', subj, w1, 'the initialisation data goes to another stream')
            x = t['iniw']
            if T(res) is True:
                self.ck(x is not None and x[1] == seg, 'initialisation data is published', subj, w1, 'initialisation data was generated but is not written')
                if x is not None: self.names.append(('init', 'vSegments' if T(('dyn', p, 'DashVideoSegmenter')) is True else 'aSegments', x[2], k, x[3]))
            elif T(res) is None: self.ck(False, 'initialisation data is published', subj, w1, 'the outcome of generating initialisation data is not looked at')
            else: self.ck(x is None, 'initialisation data is published', subj, w1, 'initialisation data is written though none was generated')

    def about(self, v, SG, id_):
        if v[0] == 'op' and v[1] == 'has': return v[2] == SG and nocast(v[4]) == id_
        if v[0] == 'init' and v[1][0] == 'i': return v[1][1] == SG and nocast(v[1][2]) == id_
        return False

    # -- events
    def on_call(self, eng, st, ins, fn, obj, args, cands):
        r = self.text(eng, st, fn, obj, args)
        if r is not NotImplemented: return r
        short = fn.split('::')[-1]
        cls = {c.cls for c in cands} if cands else set()
        t = tg(st)
        w = eng.where(ins)
        A = lambda i: eng.rvalue(st, args[i])
        S = lambda i: self.string(eng, st, args[i])
        if cands and all(self.P.isa(c, 'DashSegmenter') or c == 'DashSegmenter' for c in cls) and short in ('manageFrame', 'generateInitSegment', 'generateSegment', 'appendFrameToDashSegment'):
            p = undyn(addr_of(obj))
            v = eng.fresh(st, ins)
            if short == 'manageFrame': settag(st, man=(p, A(0), v, (t['man'][3] if t['man'] else 0) + 1, w))
            elif short == 'generateInitSegment': settag(st, ini=(p, A(0), v, w))
            elif short == 'appendFrameToDashSegment': settag(st, app=(p, A(0), (t['app'][2] if t['app'] else 0) + 1, w))
            else:
                settag(st, gen=(p, A(0), A(1), A(2) if len(args) > 2 else C(0), v, (t['gen'][5] if t['gen'] else 0) + 1, t['app'] is None, w))
                for f in ('timestamp', 'duration', 'dataLength', 'complete', 'seqNumber', 'lastFrameTimestamp'): eng.havoc_field(st, 'DashSegment::' + f)
            return v
        if fn == 'DashSegment::writeToDisk':
            p = addr_of(obj); v = eng.fresh(st, ins)
            L, k = self.where_is(p)
            path = joined(parts(S(0)))
            if self.cname(L) == 'initSegments':
                settag(st, iniw=(v, p, tuple(path), w))
                return v
            self.count['write'] = self.count.get('write', 0) + 1
            subj = self.cname(L)
            roots = self.loops(t, L)
            self.later.append((roots, 'complete', 'only complete segments are written', subj, w, 'segments are written before all representations of the set are complete'))
            self.ck(not t['ann'] or t['pub'], 'announced means published', subj, w, 'segments are written before the manifest with those announced before')
            ts = self.time_in(path)
            self.names.append(('seg', subj, tuple(path), k, w))
            e = self.elem(st)
            settag(st, wr=(p, v, (L, ts)))
            return v
        if fn == 'MpdManager::updateAdaptationSetTimestamp':
            self.count['announce'] = self.count.get('announce', 0) + 1
            ts, dur = eng.num(A(1)), eng.num(A(2))
            L = self.field_of(ts, 'timestamp')
            v = eng.fresh(st, ins); eng.note_type(v, 'unsigned long')
            subj = self.cname(L)
            self.ck(L is not None, 'the time announced is that of the segment', subj, w, 'the time announced is not that of a segment')
            if L is not None:
                self.later.append((self.loops(t, L), 'written', 'announced means written', subj, w, 'segments are announced though writing one of them may have failed'))
                self.ck(self.field_of(dur, 'duration', ts) == L, 'the time announced is that of the segment', subj, w, 'the duration announced is not that of the segment whose time is announced')
                self.ck(ts not in t['stale'] and dur not in t['stale'], 'the time announced is that of the segment', subj, w, 'time or duration are read after the segment was cleared')
                self.ck(t['wname'] is None or t['wname'][0] != L or t['wname'][1] == nocast(ts), 'the time announced is that of the segment', subj, w, 'the time announced is not the time in the name of the file')
                self.sets.setdefault(subj, set()).add(S(0))
            self.ck(t['pub'], 'announced means published', subj, w, 'a segment is announced before the manifest with the one before is written')
            self.removed(t)
            settag(st, ann=(L, v, w), pub=False)
            return v
        if fn == 'MpdManager::writeToDisk':
            self.count['publish'] = self.count.get('publish', 0) + 1
            x = joined(parts(S(0)))
            MP = ('init', ('m', ('d', ('sym', 'this', 'Dasher')), 'Dasher::mpdPath'), 0)
            self.ck(len(x) == 1 and (x[0] == MP or x[0][:2] == ('objv', MP[1])), 'announced means published', 'manifest', w, 'the manifest is written elsewhere')
            settag(st, pub=True)
            return C(0)
        if fn in ('MpdManager::updateVideoAdaptationSet', 'MpdManager::updateAudioAdaptationSet'):
            tb = A(1)
            x = nocast(eng.num(tb))
            p = x[1][1][1] if x[0] == 'init' and x[1][0] == 'm' and x[1][2] == 'DashSegmenter::timeBase' and x[1][1][0] == 'd' else None
            settag(st, aset=(S(0), undyn(p) if p else None, tuple(joined(parts(S(2)))), tuple(joined(parts(S(3)))), w))
            return C(0)
        if fn in ('MpdManager::updateVideoRepresentation', 'MpdManager::updateAudioRepresentation'):
            settag(st, repr=(S(0), S(1), w))
            return C(0)
        if fn in ('std::remove', 'remove', 'unlink', '::remove') and len(args) == 1:
            path = joined(parts(S(0)))
            self.count['delete'] = self.count.get('delete', 0) + 1
            a = t['ann']
            e = next((x for x in t['it'] if a and x[1] == a[0]), None)
            e2 = next((x for x in t['it'] if a and x[1] == ('val', a[1])), None)
            subj = self.cname(a[0]) if a else '?'
            self.ck(a is not None and t['pub'], 'listed segments exist', subj, w, 'a file is deleted before the manifest that does not list it any more is written')
            ts = self.time_in(path)
            self.ck(e2 is not None and ts is not None and ts[0] == 'init' and ts[1] == elem_loc(e2[2]), 'listed segments exist', subj, w, 'the file deleted is not that of a segment removed from the manifest')
            self.ck(e is not None, 'listed segments exist', subj, w, 'files of another adaptation set are deleted')
            if e is not None and e2 is not None:
                self.names.append(('seg', subj, tuple(path), ('key', e[2]), w))
                n = t['it'][-1][0]
                self.outer.setdefault(n, set()).update(x[0] for x in t['it'][:-1])
                settag(st, rm=(n,))
            return eng.fresh(st, ins)
        return NotImplemented

    def string(self, eng, st, a):
        v = eng.rvalue(st, a)
        if v[0] == 'copyof': v = eng.load(st, v[1], 'std::string')
        if v[0] == 'lv': v = eng.load(st, v[1], 'std::string')
        return v

    def loops(self, t, L): return frozenset(lp for lp in t['done'] if self.roots.get(lp) == L)

    def time_in(self, path):
        n = [x[1] for x in path if isinstance(x, tuple) and x[0] == 'num']
        return n[-1] if len(n) == 2 else None

    def field_of(self, v, f, other=None):
        v = nocast(v)
        if v[0] == 'init' and v[1][0] == 'm' and v[1][2] == 'DashSegment::' + f and v[1][1][0] == 'd':
            if other is not None and nocast(other)[1][1] != v[1][1]: return None
            return self.where_is(v[1][1][1])[0]
        return None

    def on_load(self, eng, st, ins, L, v):
        if L[0] == 'm' and L[2] in ('DashSegment::timestamp', 'DashSegment::duration'):
            t = tg(st)
            if t['cl']: settag(st, stale=tuple(sorted(set(t['stale']) | {v}, key=repr)))

    def on_store(self, eng, st, ins, L, v):
        if L[0] != 'm' or not L[2].startswith('DashSegment::'): return
        t = tg(st)
        f = L[2].split('::')[1]
        p = L[1][1] if L[1][0] == 'd' else None
        R, k = self.where_is(p) if p is not None else (None, None)
        if f == 'complete':
            w = eng.where(ins)
            if eng.truth(st, eng.num(v)) is False:
                settag(st, cl=tuple(t['cl'] or ()) + (p,))
                self.count['clear'] = self.count.get('clear', 0) + 1
                mine = t['wr'] is not None and t['wr'][0] == p and eng.truth(st, t['wr'][1]) is True
                if not mine: self.later.append((self.loops(t, R), 'written', 'segments are kept until they are written', self.cname(R), w, 'a complete segment is dropped though it may not have been written'))
                else: self.ck(True, 'segments are kept until they are written', self.cname(R), w, '')
            else: self.ck(False, 'segments are kept until they are written', self.cname(R), w, 'a segment is marked complete outside its generator')

    def on_exit_root(self, eng, st, F, val):
        t = tg(st)
        w = '%s:%d' % (F.file, F.line)
        if eng.truth(st, val) is not False or any(self.cname(x[1]) == 'newFrames' for x in t['it']): self.ck(any(self.cname(self.roots.get(x)) == 'newFrames' for x in t['done']), 'every frame reaches its segmenter', 'the loop over newFrames', w, 'the loop over the frames may be left before its end')
        if t['ann'] is None: return
        L, v, w1 = t['ann']
        self.ck(t['pub'], 'announced means published', self.cname(L), w1, 'a segment is announced but the manifest is not written')
        self.removed(t)

    def removed(self, t):
        if t['ann'] is None: return
        L, v, w1 = t['ann']
        self.later.append((self.loops(t, L) | self.loops(t, ('val', v)), 'deleted', 'unlisted segments are deleted', self.cname(L), w1, 'the files of a segment removed from the manifest may stay'))

    def holds(self, lp, flag, seen=()):
        if lp in seen: return False
        if flag == 'deleted':
            if flag in self.inv.get(lp, {flag}): return True
            return all(any(self.holds(x, flag, seen + (lp,)) for x in r if lp in self.outer.get(x, ())) for r in self.via.get(lp, ()))
        return flag in self.inv.get(lp, {flag})

    def finish(self):
        for loops, flag, rule, subj, w, text in self.later:
            if flag == 'deleted': loops = [lp for lp in loops if not any(o in self.roots for o in self.outer.get(lp, ()))]
            self.ck(any(self.holds(lp, flag) for lp in loops), rule, subj, w, text)


EVENTS = {'generateSegment', 'manageFrame', 'generateInitSegment', 'appendFrameToDashSegment', 'writeToDisk', 'updateAdaptationSetTimestamp', 'updateVideoAdaptationSet', 'updateAudioAdaptationSet', 'updateVideoRepresentation', 'updateAudioRepresentation'}


def elem_loc(a): return ('ielem', a) if a[0] == 'iter' else ('i', a[1], a[3])


def undyn(p):
    while p is not None and p[0] == 'dyn': p = p[1]
    return p


def same_key(a, b): return a is not None and b is not None and nocast(a) == nocast(b)


def run_disp(rep, P, tier):
    cl = Disp(rep, P)
    F = P.fn('Dasher::doProcessFrame')
    if not F: raise AnalysisBroken('Dasher::doProcessFrame is gone')
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    eng.run(F[0], st=st)
    cl.finish()
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    for k in ('frames', 'write', 'announce', 'publish', 'delete', 'clear'): rep.floor('dasher: ' + k, cl.count.get(k, 0), 1)
    return cl


def run(rep, P, tier):
    roles = run_lib(rep, P, tier)
    run_seg(rep, P, tier, roles)
    run_out(rep, P)
    run_disp(rep, P, tier)
