"""R01: a frame shared by several consumers is released exactly once, after every attached consumer is done with it; each
consumer sees it as new exactly once; a leaving consumer strands nobody."""
from ..engine import Engine, Client, State
from ..lin import C, add, sub
from ..facts import AnalysisBroken

RULE = ('typestate over the consumer map of a reader: every path of every public reader operation is followed (all helpers inlined); a release of the '
        'queue slot needs a completed scan that proved both flags of every consumer false with no flag raised since, must be the only one on the path and '
        'must leave no current frame; flags may be cleared only for the calling consumer and raised only for all consumers at once on the first delivery; '
        'the new-frame answer is the consumer\'s own flag, cleared by the same call; a disconnect that leaves consumers behind must release or have proved one still pending')
LEVEL = 'other'
ASSUME = ['operations of one reader are serialised by its lock (property C01)']

FIL, FRAME, READY, QUEUE = 'Reader::filters', 'Reader::frame', 'Reader::ready', 'Reader::queue'
P1, P2 = 'std::pair::first', 'std::pair::second'


def tags(st):
    return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


class Cl(Client):
    K = 120

    def __init__(self, rep, F):
        self.rep, self.F0 = rep, F

    def init(self):
        return tuple(sorted(dict(scan='no', mark='no', pops=0, had=None, cleared=False, key=None, raised=False, reg=False).items()))

    def fil(self, eng): return ('m', ('d', eng.root_this), FIL)

    def flagloc(self, L):
        """(key, which) if L is one of the two flags of a consumer"""
        if L[0] == 'm' and L[2] in (P1, P2) and L[1][0] == 'i' and L[1][1][0] == 'm' and L[1][1][2] == FIL:
            return L[1][2], L[2]
        return None

    def flags(self, eng, st, key):
        B = ('i', self.fil(eng), key)
        return eng.load(st, ('m', B, P1), 'bool'), eng.load(st, ('m', B, P2), 'bool')

    def iter_cmp(self, v, taken):
        if v[0] == 'cmp' and v[1] in ('==', '!='):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if a[0] == 'iter' and b[0] == 'iterend' and a[1][0] == 'm' and a[1][2] == FIL and (len(a) < 4 or a[3] != 'find'):
                    return a, (v[1] == '==') == taken
        return None

    def on_branch(self, eng, st, ins, v, taken):
        t = tags(st)
        r = self.iter_cmp(v, taken)
        if r:
            it, atend = r
            if atend:
                # universal facts of a completed scan, instantiated for the caller's entry
                if eng.arg_id is not None and self.F0.short in ('getFrame', 'removeFrame', 'disconnect'):
                    val = C(1) if t['mark'] == 'ok' else (C(0) if t['scan'] == 'clean' else None)
                    if t['scan'] == 'no' and t['mark'] == 'no': val = C(1) if self.F0.short == 'getFrame' else C(0)   # no consumer at all: vacuous
                    if val is not None:
                        B = ('i', self.fil(eng), eng.arg_id)
                        st.store[('m', B, P1)] = val; st.store[('m', B, P2)] = val
                settag(st, scan={'clean': 'done', 'no': 'done', 'in': 'done'}.get(t['scan'], t['scan']),
                       mark='done' if t['mark'] in ('ok', 'no', 'in') else t['mark'])
            else:
                settag(st, scan=t['scan'] if t['scan'] in ('pending', 'dirty') else 'in', mark='in' if t['mark'] != 'bad' else 'bad', key=eng.iterkey(it))
            return
        if t['scan'] == 'in' and t['key'] is not None:
            a, b = self.flags(eng, st, t['key'])
            if eng.truth(st, a) is True or eng.truth(st, b) is True: settag(st, scan='pending')

    def on_loop_entry(self, eng, st, F, head):
        pass

    def on_backedge(self, eng, st, F, head):
        t = tags(st)
        if t['key'] is None: return
        a, b = self.flags(eng, st, t['key'])
        clear = eng.truth(st, a) is False and eng.truth(st, b) is False
        sett = eng.truth(st, a) is True and eng.truth(st, b) is True
        settag(st, scan='clean' if (clear and t['scan'] in ('in', 'clean')) else ('pending' if t['scan'] == 'pending' or t['scan'] in ('in', 'clean') and (eng.truth(st, a) is True or eng.truth(st, b) is True) else 'dirty'),
               mark='ok' if sett and t['mark'] in ('in', 'ok') else 'bad', key=None)

    def on_store(self, eng, st, ins, L, v):
        fl = self.flagloc(L)
        if fl:
            key, which = fl
            tv = eng.truth(st, v)
            t = tags(st)
            if tv is not False: settag(st, raised=True)
            if tv is not False and t['scan'] in ('done', 'clean'): settag(st, scan='dirty')
            name = self.F0.short
            if tv is False and name in ('getFrame', 'removeFrame'):
                own = eng.ent_eq(st, key, eng.arg_id)
                self.rep.check(own, 'only the caller\'s flag is cleared', self.F0.name, eng.where(ins), '%s clears the flag of a consumer other than the caller' % self.F0.name)
                if name == 'getFrame':
                    self.rep.check(which == P1, 'delivery does not count as release', self.F0.name, eng.where(ins), 'handing the frame to a consumer already marks it as removed by it')
                    settag(st, raised=True)
            if tv is True:
                self.rep.check(name == 'getFrame' and eng.truth(st, eng.ready0) is True, 'flags raised once per frame', self.F0.name, eng.where(ins),
                               'consumer flags are raised on a path where the current frame has already been announced')
        elif L == ('m', ('d', eng.root_this), QUEUE):
            if eng.truth(st, v) is not False: settag(st, reg=True)
        elif L == ('m', ('d', eng.root_this), FRAME):
            if eng.truth(st, v) is False:
                old = eng.load(st, L)
                settag(st, cleared=True, had=eng.truth(st, old))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.rsplit('::', 1)[-1]
        if short in ('operator[]', 'insert', 'emplace', 'try_emplace') and obj and obj[0] == 'lv' and obj[1] == self.fil(eng):
            ok = tags(st)['reg']
            if not ok and short == 'operator[]':
                k = eng.num(eng.rvalue(st, args[0]))
                ok = k[0] == 'key' or eng.ent_ge(st, add(('op', 'has', obj[1], (eng.ver(st, obj[1]), None), k), C(-1)))
            self.rep.check(ok, 'consumers are those registered with the queue', self.F0.name, eng.where(ins),
                           '%s may add a consumer that is not registered with the queue: it never reads, and the frames it is taken to hold are never released' % self.F0.name)
            return NotImplemented
        if short == 'addReaderCData':
            x = st.copy()
            settag(st, reg=True)
            return [(st, C(1)), (x, C(0))]
        if short == 'removeFrame' and cands and any(eng.P.isa(c.cls, 'FrameQueue') for c in cands):
            t = tags(st)
            self.rep.check(t['scan'] == 'done', 'release needs every consumer done', self.F0.name, eng.where(ins),
                           '%s releases the current frame on a path that has not established that every attached consumer is done with it' % self.F0.name)
            q = eng.load(st, ('m', ('d', eng.root_this), QUEUE))
            self.rep.check(eng.truth(st, q) is True, 'queue is there', self.F0.name, eng.where(ins), 'queue may be NULL when the frame is released')
            cur = eng.load(st, ('m', ('d', eng.root_this), FRAME))
            if not t['cleared']: settag(st, had=eng.truth(st, cur))
            settag(st, pops=min(2, t['pops'] + 1))
            return eng.fresh(st, ins)
        if cands and any(eng.P.isa(c.cls, 'FrameQueue') for c in cands) and short in ('getFront', 'forceGetFront', 'getElements', 'getLostBlocs', 'isFull'):
            v = eng.fresh(st, ins)
            settag(st, **{'call_' + short: v})
            return v
        return NotImplemented


def roots(P):
    return sorted([F for F in P.methods_of('Reader') if F.access == 'public' and F.kind not in ('ctor',) or (F.cls == 'Reader' and F.kind == 'dtor')], key=lambda F: F.name)


def run(rep, P, tier):
    rs = [F for F in P.methods_of('Reader') if F.kind != 'ctor' and not F.implicit and (F.access == 'public')]
    rep.floor('public reader operations', len(rs), 8)
    for F in rs:
        cl = Cl(rep, F)
        eng = Engine(P, cl)
        this = ('sym', 'this', 'Reader')
        eng.root_this = this
        eng.atype[this] = 'Reader *'
        T = ('d', this)
        st = State(); st.client = cl.init()
        eng.stack.append((F, 'r', this))
        eng.ready0 = eng.load(st, ('m', T, READY), 'bool')
        frame0 = eng.load(st, ('m', T, FRAME), 'Frame *')
        queue0 = eng.load(st, ('m', T, QUEUE), 'FrameQueue *')
        eng.stack.pop()
        eng.arg_id = ('arg', F.params[0]['name'] or '0', 0) if F.params else None
        outs = eng.run(F, this=this, st=st)
        rep.funcs |= {P.funcs[i].name for i in eng.visited_funcs}
        w = '%s:%d' % (F.file, F.line)
        npop = 0
        for s, v in outs:
            t = tags(s)
            f1 = eng.load(s, ('m', T, FRAME)); r1 = eng.load(s, ('m', T, READY)); q1 = eng.load(s, ('m', T, QUEUE))
            gone = eng.truth(s, q1) is False
            rep.check(t['pops'] <= 1, 'released at most once per call', F.name, w, '%s may release two frames in one call' % F.name)
            if t['pops']:
                npop += 1
                rep.check(t['had'] is True, 'something to release', F.name, w, '%s may release a queue slot although no frame was delivered' % F.name)
                rep.check(eng.truth(s, f1) is False and eng.truth(s, r1) is True, 'released frame is forgotten', F.name, w,
                          '%s releases the frame but keeps it as the current frame (or does not re-arm delivery)' % F.name)
            elif not gone:
                if t['cleared'] and t['had'] is not False and eng.truth(s, f1) is not True:
                    rep.violate('current frame only dropped with a release', F.name, w, '%s drops the current frame without releasing its slot' % F.name)
                else: rep.ob('current frame only dropped with a release', F.name, w)
            if F.short == 'getFrame':
                post_getframe(rep, P, eng, cl, F, s, v, t, f1, r1, frame0)
            elif F.short == 'removeFrame':
                # own flag is cleared, and if a release was due it happened
                filL = cl.fil(eng)
                a, b = cl.flags(eng, s, eng.arg_id)
                if not t['pops'] and eng.truth(s, q1) is not False:
                    due = not (t['scan'] == 'pending' or eng.truth(s, frame0) is False)
                    rep.check(not due, 'last consumer releases', F.name, w, '%s returns without releasing although no consumer was found still busy' % F.name)
                has = None
                if not t['pops'] and eng.truth(s, b) is not False and eng.truth(s, q1) is not False:
                    # caller unknown to the reader is the only excuse
                    rep.check(not known(eng, s, filL, eng.arg_id), 'caller is marked done', F.name, w, '%s may leave the caller marked as still holding the frame' % F.name)
                else: rep.ob('caller is marked done', F.name, w)
            elif F.short == 'disconnect':
                if not t['pops'] and not gone and eng.truth(s, v) is not False:
                    ok = t['scan'] == 'pending' or eng.truth(s, f1) is False or eng.truth(s, eng.ready0) is True
                    rep.check(ok, 'leaving consumer strands nobody', F.name, w,
                              '%s leaves a delivered frame that no remaining consumer is known to hold and does not release it' % F.name)
        if F.short in ('removeFrame', 'disconnect'):
            rep.check(npop > 0, 'a path releases', F.name, w, '%s never releases the current frame' % F.name)
    rep.floor('release sites checked', rep.count('release needs every consumer done'), 1)


def known(eng, st, L, k):
    """the consumer is known to be registered on this path (or nothing says it is not)"""
    for f in st.facts:
        if f[0] == 'eq' and f[1][0] == 'op' and f[1][1] == 'has' and f[1][2] == L and f[1][4] == k: return False
    return not any(eng.ent_eq(st, ('op', 'has', L, (n, None), k), C(0)) for n in range(3))


def post_getframe(rep, P, eng, cl, F, s, v, t, f1, r1, frame0):
    w = '%s:%d' % (F.file, F.line)
    np = ('d', ('argp', F.params[1]['name'], 1))
    nf = eng.load(s, np)
    a, b = cl.flags(eng, s, eng.arg_id)
    if eng.truth(s, v) is False: return
    if v == f1 or eng.ent_eq(s, v, f1):
        if eng.truth(s, f1) is True:
            rep.check(eng.truth(s, a) is False, 'delivered once', F.name, w, '%s may announce the same frame to the same consumer again' % F.name)
            was = t.get('was')
            rep.check(eng.truth(s, r1) is False, 'delivery is latched', F.name, w, '%s delivers a frame and does not latch that it was announced' % F.name)
            if eng.truth(s, eng.ready0) is True:
                rep.check(t['mark'] == 'done', 'every consumer is announced', F.name, w, 'the first delivery of a frame does not raise the flags of every attached consumer')
                rep.check(eng.truth(s, nf) is True, 'first delivery is new', F.name, w, 'the first delivery of a frame is not reported as new')
            else:
                a0 = ('init', ('m', ('i', cl.fil(eng), eng.arg_id), P1), 0)
                n = eng.truth(s, nf)
                if n is None and eng.ent_eq(s, nf, a0): n = eng.truth(s, a0); rep.ob('new means not yet seen', F.name, w)
                elif n is None: rep.violate('new means not yet seen', F.name, w, 'new-frame answer is not decided by the consumer\'s own flag')
                else:
                    x = eng.truth(s, a0)
                    rep.check(x is n, 'new means not yet seen', F.name, w, 'a frame is reported as %s to a consumer whose flag says otherwise' % ('new' if n else 'old'))
            if eng.truth(s, frame0) is not True:
                rep.check(eng.truth(s, frame0) is False and f1 == t.get('call_getFront'), 'delivers the oldest queued frame', F.name, w, 'the frame delivered is not the head of the queue')
            else: rep.check(f1 == frame0, 'current frame is kept', F.name, w, '%s replaces a frame that has not been released' % F.name)
            return
    rep.check(eng.truth(s, nf) is False, 'repeat is not new', F.name, w, 'a repeated or missing frame is reported as new')
    rep.check(eng.truth(s, f1) is False, 'repeat only when nothing queued', F.name, w, 'an old frame is returned although a current frame exists')
