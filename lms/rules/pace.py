"""F04: a paced filter takes each frame in its own interval, and synchronised inputs advance together."""
import itertools
from ..engine import Engine, State
from ..lin import C, add, sub
from ..scan import Scan
from . import images

RULE = ('path-sensitive symbolic dataflow (intervals and linear facts) over the two functions that decide when a filter takes its inputs, helpers inlined, with no, one and two connected inputs, each delivering nothing, an old frame or a new frame of any time: '
        'on every exit the answer and the clock of the filter must be the ones the times of the new frames call for (due: one interval forward; only later ones: forward to the earliest; only or also outdated ones and none due: wait, clock kept); '
        'the inputs chosen for a synchronised filter must be exactly those that lag or whose queue is full while any input is empty or lags, and all of them otherwise')
LEVEL = 'other'
ASSUME = ['up to two inputs per filter', 'registered inputs have a reader (F03)', 'the synchronisation margin is not negative', 'the time of an input does not change while the filter compares its inputs', 'time stamps are far from the limits of 64 bits']

SYNC, FT, TS = 'BaseFilter::sync', 'BaseFilter::frameTime', 'BaseFilter::syncTs'
READERS = 'BaseFilter::readers'
N = 2


class Peel:
    def get(self, k, d=None): return N + 1        # the head of a loop is passed once more than its body


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


class Cl(Scan):
    K = 100000
    max_depth = 8
    max_steps = 400000
    peel = Peel()
    split_minmax = True

    def __init__(self, rep, F, mode):
        super().__init__()
        self.rep, self.F0, self.mode = rep, F, mode
        self.kinds = {}

    def init(self): return tuple(sorted(dict(got=(), rd=(), gen=False, push=()).items()))

    def inline(self, eng, st, G, ins): return True

    def ck(self, ok, kind, eng, msg):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.rep.check(ok, kind, self.F0.name, '%s:%d' % (self.F0.file, self.F0.line), msg)

    def reader(self, eng, st, obj):
        if obj is None: return None
        return obj[1][1] if obj[0] == 'lv' and obj[1][0] == 'd' else eng.rvalue(st, obj)

    def of(self, eng, st, p):
        """what this input answers: (time or None, full)"""
        for x in tg(st)['rd']:
            if x[0] == p: return x
        return None

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        cls = fn.rsplit('::', 1)[0]
        if s == 'framesSync' and self.mode != 'sync': return eng.fresh(st, ins)
        if s == 'deleteReader': return eng.note_type(eng.fresh(st, ins), 'bool')
        if cls == 'Reader':
            p = self.reader(eng, st, obj)
            if s == 'getFrame' and len(args) == 2 and args[1][0] == 'lv':
                out = []
                f = ('op', 'frame', len(tg(st)['got']), 0)
                eng.atype[f] = 'Frame *'
                for kind in ('none', 'old', 'new'):
                    x = st.copy()
                    eng.assume(x, ('cmp', '!=', f, C(0)), kind != 'none')
                    eng.do_store(x, ins, args[1], C(1 if kind == 'new' else 0))
                    t = ('op', 'time', f, len(tg(st)['got']))
                    settag(x, got=tg(st)['got'] + ((kind, f, t),))
                    out.append((x, f if kind != 'none' else C(0)))
                return out
            if s == 'getCurrentTime':
                x = self.of(eng, st, p)
                if x is None:
                    n = len(tg(st)['rd'])
                    v = ('op', 'now', p, n)
                    full = eng.note_type(('op', 'full', p, n), 'bool')
                    st.facts = st.facts | {('ge', add(v, C(1)))}
                    x = (p, v, full)
                    settag(st, rd=tg(st)['rd'] + (x,))
                return x[1]
            if s == 'isFull':
                x = self.of(eng, st, p)
                if x is not None: return x[2]
            if s == 'isConnected': return eng.note_type(('op', 'connected', p, 0), 'bool')
            return eng.fresh(st, ins)
        if s == 'getFrameTime':
            p = self.reader(eng, st, obj)
            for g in tg(st)['got']:
                if g[1] == p or eng.ent_eq(st, g[1], p): return g[2]
        if self.mode == 'sync' and s in ('push_back', 'emplace_back') and obj is not None and obj[0] == 'lv' and len(args) == 1:
            settag(st, push=tg(st)['push'] + ((obj[1], eng.num(eng.rvalue(st, args[0]))),))
        if self.mode == 'sync' and s in ('empty', 'size') and cls == 'std::vector' and obj is not None and obj[0] == 'lv' and obj[1][0] == 'v' and not tg(st)['gen']:
            n = len([1 for L, _ in tg(st)['push'] if L == obj[1]])
            return C((1 if not n else 0) if s == 'empty' else n)
        return NotImplemented

    def on_load(self, eng, st, ins, loc, val):
        if loc[0] == 'i' and loc[1][0] == 'm' and loc[1][2] == READERS: st.facts = st.facts | {('ne', val)}

    def on_backedge(self, eng, st, F, head): settag(st, gen=True, got=(), rd=(), push=())
    def on_loop_enter(self, eng, st, F, head):
        super().on_loop_enter(eng, st, F, head)
        settag(st, gen=True, got=(), rd=(), push=())

    # ---- verdicts
    def cases(self, eng, st, preds):
        """the states in which every predicate is decided"""
        out = [(st, ())]
        for p in preds:
            nxt = []
            for s, vals in out:
                t = eng.truth(s, p)
                if t is not None: nxt.append((s, vals + (t,))); continue
                for v in (True, False):
                    x = s.copy()
                    if eng.assume(x, p, v) is None: continue
                    nxt.append((x, vals + (v,)))
            out = nxt
        return out

    def on_exit_root(self, eng, st, G, val):
        t = tg(st)
        if t['gen']: return
        {'paced': self.paced, 'free': self.free, 'sync': self.synced}[self.mode](eng, st, val)

    def clock(self, eng, st): return eng.num(eng.load(st, ('m', ('d', eng.root_this), TS), 'long'))

    def paced(self, eng, st, val):
        s0, ft = eng.s0, eng.ft
        new = [x for x in tg(st)['got'] if x[0] == 'new']
        preds = []
        for _, _, x in new:
            preds += [('cmp', '<', x, s0), ('cmp', '<', add(s0, ft), x)]
        for i, j in itertools.combinations(range(len(new)), 2): preds.append(('cmp', '<', new[i][2], new[j][2]))
        for s, v in self.cases(eng, st, preds):
            old = [v[2 * i] for i in range(len(new))]
            late = [v[2 * i + 1] for i in range(len(new))]
            if any(a and b for a, b in zip(old, late)): continue
            r = eng.truth(s, val)
            s1 = self.clock(eng, s)
            due = [not a and not b for a, b in zip(old, late)]
            if not new:
                self.ck(r is False, 'nothing new, nothing to do', eng, 'a paced filter works although no input delivered a new frame')
                self.ck(eng.ent_eq(s, s1, s0), 'the clock waits for frames', eng, 'the clock of a paced filter moves although no input delivered a new frame')
            elif any(due):
                self.ck(r is True, 'a due frame is processed', eng, 'a frame of the current interval does not make the filter work')
                self.ck(eng.ent_eq(s, s1, add(s0, ft)), 'one interval at a time', eng, 'after processing frames of the current interval the clock does not advance by exactly one interval')
            elif any(old):
                self.ck(r is False, 'outdated frames are not processed', eng, 'a filter works on an outdated frame with no frame of the current interval')
                self.ck(eng.ent_eq(s, s1, s0), 'the clock waits for outdated inputs', eng, 'the clock moves while an input still delivers outdated frames and none of the current interval')
            else:
                self.ck(r is True, 'the first later frame is processed', eng, 'every new frame is later than the current interval and the filter does not go on with the earliest')
                ts = [x[2] for x in new]
                low = ts[0] if len(ts) == 1 or v[4] else ts[1]
                ok = eng.ent_eq(s, s1, low) or (len(ts) == 2 and not v[4] and eng.ent_eq(s, s1, ts[0]) and eng.ent_eq(s, ts[0], ts[1]))
                self.ck(ok, 'the clock jumps to the earliest later frame', eng, 'every new frame is later than the current interval and the clock does not move to the earliest of them')

    def free(self, eng, st, val):
        new = [x for x in tg(st)['got'] if x[0] == 'new']
        r = eng.truth(st, val)
        self.ck(r is (len(new) > 0), 'an unpaced filter works on every new frame', eng, 'an unpaced filter does not work exactly when an input delivered a new frame')
        self.ck(eng.ent_eq(st, self.clock(eng, st), eng.s0), 'an unpaced filter has no clock', eng, 'the clock of an unpaced filter moves')

    def synced(self, eng, st, val):
        t = tg(st)
        rd = t['rd']
        if eng.truth(st, eng.sync) is False: return
        if any(eng.truth(st, x[0]) is False for x in tg(st)['rd']): return
        margin = eng.num(eng.load(st, ('m', ('d', eng.root_this), 'BaseFilter::syncMargin'), 'long'))
        vec = val[1] if val is not None and val[0] in ('copyof', 'lv', 'contv') else () if val is not None and val[0] == 'obj' else None
        if vec is None:
            self.ck(not rd, 'the inputs to take are told', eng, 'the answer is not one of the lists built')
            return
        pushed = [k for L, k in t['push'] if L == vec]
        now = [x[1] for x in rd]
        preds = [('cmp', '==', x, C(-1)) for x in now]
        for i, j in itertools.combinations(range(len(now)), 2): preds.append(('cmp', '<', now[i], now[j]))
        for s, v in self.cases(eng, st, preds):
            empty = list(v[:len(now)])
            if not now: self.ck(not pushed, 'inputs advance together', eng, 'an input is taken that is not connected'); continue
            wall = now[0] if len(now) == 1 or not v[2] else now[1]
            lag = [('cmp', '<', x, sub(wall, margin)) for x in now]
            full = [('cmp', '!=', x[2], C(0)) for x in rd]
            for s2, w in self.cases(eng, s, lag + full):
                l, f = w[:len(now)], w[len(now):]
                pick = [not e and (a or b) for e, a, b in zip(empty, l, f)]
                if not any(empty) and not any(pick): pick = [True] * len(now)
                keys = [self.key(eng, x[0]) for x in rd]
                want = [k for k, p in zip(keys, pick) if p]
                self.ck(len(pushed) == len(want) and all(k in pushed for k in want), 'inputs advance together', eng,
                        'the inputs taken are not those that lag or are full (while one is empty or lags), or all of them otherwise')

    def key(self, eng, p):
        """id of the input whose reader pointer is p"""
        if p[0] == 'init' and p[1][0] == 'i': return p[1][2]
        return None


def run(rep, P, tier):
    n = 0
    seen = {}
    for short, mode in (('demandOriginFrames', 'paced'), ('demandOriginFrames', 'free'), ('framesSync', 'sync')):
        G = images.method(P, 'BaseFilter', short)
        rep.funcs.add(G.name)
        cl = Cl(rep, G, mode)
        eng = Engine(P, cl)
        this = ('arg', 'this', -1)
        eng.root_this = this
        eng.atype[this] = 'BaseFilter *'
        st = State(); st.client = cl.init()
        eng.s0 = eng.num(eng.load(st, ('m', ('d', this), TS), 'long'))
        eng.ft = eng.num(eng.load(st, ('m', ('d', this), FT), 'long'))
        eng.sync = eng.load(st, ('m', ('d', this), SYNC), 'bool')
        mr = eng.num(eng.load(st, ('m', ('d', this), 'BaseFilter::maxReaders'), 'unsigned int'))
        st.facts = st.facts | {('ge', add(eng.s0, C(1))), ('ge', add(mr, C(-1)))}
        for i, q in enumerate(G.params):
            if q['ref']:
                z = ('op', 'size', ('d', ('argp', q['name'] or str(i), i)), (0, None))
                eng.dom.nonneg.add(z)
                st.facts = st.facts | {('eq', z)}        # handed over empty
        if mode == 'paced': st.facts = st.facts | {('ge', add(eng.ft, C(-1)))}
        if mode == 'sync': st.facts = st.facts | {('ge', eng.num(eng.load(st, ('m', ('d', this), 'BaseFilter::syncMargin'), 'long')))}
        if mode == 'free': st.facts = st.facts | {('ge', sub(C(0), eng.ft))}
        eng.run(G, this=this, st=st)
        for k, v in cl.kinds.items(): seen[k] = seen.get(k, 0) + v
        rep.stats[mode] = dict(steps=eng.steps, verdicts=sum(cl.kinds.values()))
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        n += 1
    rep.floor('decisions about inputs', n, 3)
    for k in ('nothing new, nothing to do', 'one interval at a time', 'outdated frames are not processed', 'the clock jumps to the earliest later frame', 'an unpaced filter works on every new frame', 'inputs advance together'):
        rep.floor('decided: ' + k, seen.get(k, 0), 1)
