"""C01 / C02: lock discipline over every public entry point and every thread body.

A typestate of held mutexes is carried along every path; helpers and virtual callees are analysed in their callers' context."""
from ..engine import Engine, Client, State, Bound
from ..lin import sub, C
from ..facts import AnalysisBroken

MTX, LCK, POOL, AUD = 'Runnable::mtx', 'Reader::lck', 'WorkersPool::mtx', 'AudioCircularBuffer::mtx'
GUARD = {'BaseFilter::readers': MTX, 'BaseFilter::writers': MTX, 'BaseFilter::seqNums': MTX, 'BaseFilter::eventQueue': MTX,
         'Reader::queue': LCK, 'Reader::frame': LCK, 'Reader::filters': LCK, 'Reader::ready': LCK, 'Reader::avgDelay': LCK, 'Reader::delay': LCK, 'Reader::frameCounter': LCK,
         'Reader::lastTs': LCK, 'Reader::timeCounter': LCK,
         'WorkersPool::runnables': POOL, 'WorkersPool::queue': POOL, 'WorkersPool::run': POOL,
         'AudioCircularBuffer::elements': AUD, 'AudioCircularBuffer::synchronized': AUD, 'AudioCircularBuffer::syncTimestamp': AUD, 'AudioCircularBuffer::orgTime': AUD}
AUDIO_BASE = {'FrameQueue::rear', 'FrameQueue::front'}      # only for the audio buffer: the frame rings are single producer / single consumer
OWNERS = {MTX: 'BaseFilter', LCK: 'Reader', POOL: 'WorkersPool', AUD: 'AudioCircularBuffer'}
BLOCKING = {'std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'std::thread::join'}

RULES = {
    'C01': ('lockset dataflow: each public operation of the classes that own a lock, each event handler and each thread body is followed path by path with the set of held mutexes as typestate '
            '(scope guards, explicit unlock/lock, helpers and virtual callees in their caller\'s context); an access to a guarded field needs the mutex of the same object to be held; objects under construction or '
            'destruction and freshly allocated ones are exempt; a function that touches guarded state and is reached from no entry point is analysed as an entry point itself'),
    'C02': ('lock-order dataflow on the same paths: no acquisition of a mutex that is held or that may be the held one under another name, one global order of lock kinds, processing threads hold one filter lock at a time '
            'and nest filter locks only in control operations, no sleeping or joining with a lock held, every acquired lock is released at exit'),
}
LEVEL = 'other'
ASSUMES = {
    'C01': ['the guard table (field -> mutex) in locks.py is the intended discipline', 'the frame rings (AVFramedQueue) are single-producer single-consumer and carry no lock',
            'event handlers of regular filters run inside processEvent, those of head and tail filters inside pushEvent'],
    'C02': ['control operations (connect, share, disconnect, events) are issued by one thread, the controller\'s', 'two parameters of filter type are distinct objects only when the path has established it'],
}


def relevant(P):
    """functions that (transitively) touch guarded fields or locks"""
    r = getattr(P, '_lock_relevant', None)
    if r is not None: return r
    base = set()
    callers = {}
    for F in P.funcs.values():
        hit = False
        for e in F.ins.values():
            if e['op'] == 'member':
                f = e['cls'] + '::' + e['f']
                if f in GUARD or (f in AUDIO_BASE and (F.cls == 'AudioCircularBuffer')) or 'mutex' in e['t']: hit = True
            if e['op'] == 'call':
                if e.get('fn') in BLOCKING: hit = True
            if e['op'] in ('call', 'ctor') and 'callee' in e:
                for H in P.resolve(e['callee'], e.get('virt')): callers.setdefault(H.id, set()).add(F.id)
            if e['op'] == 'lambda': callers.setdefault(e['callee'], set()).add(F.id)
        if hit: base.add(F.id)
    work = list(base); seen = set(base)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in seen: seen.add(c); work.append(c)
    P._lock_relevant = (seen, base)
    return P._lock_relevant


class Cl(Client):
    K = 1
    light = True
    max_depth = 14
    max_steps = 3000000

    def __init__(self, A): self.A = A

    def inline(self, eng, st, F, ins): return F.id in self.A.rel or len(F.blocks) <= 3

    def exempt(self, eng, L):
        # objects being built or torn down, or not yet published
        O = L[1]
        while O[0] in ('m', 'i'): O = O[1]
        if O[0] in ('v', 'tmpobj', 'obj'): return True
        if O[0] == 'd' and O[1][0] == 'new': return True
        for F, fr, th in eng.stack:
            if F.kind in ('ctor', 'dtor') and th is not None and O == eng.deref(th): return True
        return False

    def on_member(self, eng, st, ins, L):
        if L[0] != 'm': return
        m = GUARD.get(L[2])
        if m is None:
            if L[2] in AUDIO_BASE:
                c = eng.F.cls
                if c != 'AudioCircularBuffer': return
                m = AUD
            else: return
        self.A.touched.add(eng.F.id)
        if self.exempt(eng, L): return
        need = ('m', L[1], m)
        ok = need in st.locks
        F = eng.F
        if not self.A.c01: return
        root = eng.stack[0][0].name
        self.A.rep.check(ok, 'guarded access', '%s in %s (from %s)' % (L[2], F.name, root), eng.where(ins),
                         '%s accesses %s without holding %s of the same object (reached from %s%s)' % (F.name, L[2], m, root, '' if not st.locks else '; held: ' + ', '.join(sorted(lname(x) for x in st.locks))))

    def on_lock(self, eng, st, ins, m):
        A = self.A
        if A.c01: return
        F = eng.F
        root = eng.stack[0][0].name
        k = '%s in %s (from %s)' % (lname(m), F.name, root)
        w = eng.where(ins)
        bad = m in st.locks
        A.rep.check(not bad, 'no re-acquisition', k, w, '%s acquires %s which the thread already holds (reached from %s)' % (F.name, lname(m), root))
        for h in st.locks:
            if h == m: continue
            a, b = lname(h), lname(m)
            if a == b:
                d = self.apart(eng, st, h, m)
                A.rep.check(d, 'nested locks are of distinct objects', k, w, '%s acquires %s of an object that may be the one whose lock is held: self-deadlock (reached from %s)' % (F.name, b, root))
                A.rep.check(not A.processing, 'processing threads hold one filter lock at a time', k, w,
                            '%s acquires a second %s while one is held, on a path of a processing thread (%s): lock order inversion with connect' % (F.name, b, root))
            else:
                A.edges.setdefault((a, b), (w, F.name, root))

    def apart(self, eng, st, h, m):
        a = h[1]; b = m[1]
        if a[0] == 'd' and b[0] == 'd':
            if a[1][0] == 'new' or b[1][0] == 'new': return a != b
            if eng.nez(st, sub(a[1], b[1])): return True
            # different filter identifiers
            ia = ('m', a, 'Runnable::id'); ib = ('m', b, 'Runnable::id')
            va, vb = eng.load(st, ia), eng.load(st, ib)
            if eng.nez(st, sub(va, vb)): return True
            for f in st.facts:
                if f[0] == 'ne':
                    d = f[1]
                    for x in lin_atoms(d): pass
        return False

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        A = self.A
        if fn in BLOCKING and st.locks and not A.c01:
            A.rep.check(False, 'no blocking with a lock held', '%s in %s' % (fn, eng.F.name), eng.where(ins), '%s calls %s while holding %s' % (eng.F.name, fn, ', '.join(lname(x) for x in st.locks)))
        elif fn in BLOCKING and not A.c01: A.rep.ob('no blocking with a lock held', '%s in %s' % (fn, eng.F.name), eng.where(ins))
        if len(cands) > 1:
            rel = [F for F in cands if F.id in A.rel]
            if rel and len(eng.stack) <= self.max_depth:
                for F in rel:
                    if any(f[0] is F for f in eng.stack): continue
                    this = None
                    if obj is not None and obj[0] == 'lv': this = obj[1][1] if obj[1][0] == 'd' else ('addr', obj[1])
                    a2 = []
                    for a, p in zip(args, F.params):
                        if not p['ref'] and a[0] == 'lv': a = eng.rvalue_copy(st, a)
                        a2.append(a)
                    eng.exec(F, this, a2, st.copy(), eng.frame + '/%d.%s' % (ins['i'], F.name))
        return NotImplemented


def lin_atoms(d): return ()


def lname(m): return m[2] if m[0] == 'm' else str(m)


class Analysis:
    def __init__(self, rep, P, pid):
        self.rep, self.P = rep, P
        self.c01 = pid == 'C01'
        self.rel, self.base = relevant(P)
        self.touched = set()
        self.edges = {}
        self.processing = False
        self.visited = set()
        self.done = set()

    def closure(self, F, cls):
        # relevant functions reachable from F with a receiver of class cls
        from ..engine import on_this
        seen, work = {(F.id, True)}, [(F, True)]
        while work:
            G, own = work.pop()
            for e in G.ins.values():
                if e['op'] in ('call', 'ctor') and 'callee' in e:
                    ot = own and e['op'] == 'call' and on_this(G, e)
                    for H in self.P.resolve(e['callee'], e.get('virt'), cls if ot else None):
                        if H.id in self.rel and (H.id, ot) not in seen: seen.add((H.id, ot)); work.append((H, ot))
        return frozenset(seen)

    def go(self, F, this_cls, locked=None, processing=False):
        P = self.P
        k = (F.id, locked, processing, self.closure(F, this_cls))
        if k in self.done: return
        self.done.add(k)
        self.processing = processing
        cl = Cl(self)
        this = ('sym', 'this', this_cls)
        eng = Engine(P, cl, {this: this_cls})
        eng.root_this = this
        eng.atype[this] = this_cls + ' *'
        st = State(); st.client = None
        if locked: st.locks = (('m', ('d', this), locked),)
        outs = eng.run(F, this=this, st=st)
        self.visited |= eng.visited_funcs
        self.rep.funcs |= {P.funcs[i].name for i in eng.visited_funcs}
        if not self.c01 and F.kind != 'lambda':
            for s, v in outs:
                extra = [m for m in s.locks if m not in st.locks or s.locks.count(m) > st.locks.count(m)]
                want = (('m', ('d', this), locked),) if locked else ()
                self.rep.check(s.locks == want, 'balanced', F.name, '%s:%d' % (F.file, F.line), '%s returns with %s held' % (F.name, ', '.join(lname(m) for m in s.locks) or 'a caller\'s lock released'))
                break


def concrete_filters(P):
    out = []
    for c in sorted(P.all_derived('BaseFilter')):
        if P.derived.get(c) and c in ('HeadFilter', 'TailFilter', 'OneToOneFilter', 'OneToManyFilter', 'ManyToOneFilter'): continue
        if P.methods_of(c): out.append(c)
    return out


def handlers(P):
    """functions stored in an event map: every member function whose address is taken in initializeEventMap-like code"""
    out = []
    for F in P.funcs.values():
        if not (F.cls and P.isa(F.cls, 'BaseFilter')): continue
        touches = any(e['op'] == 'member' and e['f'] == 'eventMap' for e in F.ins.values())
        if not touches or F.short in ('processEvent', 'pushEvent'): continue
        for e in F.ins.values():
            if e['op'] == 'fnaddr' and e.get('cls') and P.isa(e['cls'], 'BaseFilter') and e['callee'] in P.funcs:
                out.append((F.cls, P.funcs[e['callee']]))
            if e['op'] == 'lambda' and e['callee'] in P.funcs: out.append((F.cls, P.funcs[e['callee']]))
    seen, r = set(), []
    for c, H in out:
        if (c, H.id) not in seen: seen.add((c, H.id)); r.append((c, H))
    return r


def run(rep, P, tier, pid=None):
    pid = pid or rep.pid
    A = Analysis(rep, P, pid)
    conc = concrete_filters(P)
    rep.floor('concrete filter classes', len(conc), 6)
    roots = 0
    # filters: public operations, once for the base class and, where virtual dispatch matters, for every concrete class
    done = set()
    for cls in ['BaseFilter', 'Runnable'] + sorted(P.all_derived('BaseFilter')):
        for F in P.methods_of(cls):
            if F.kind in ('ctor', 'dtor') or F.implicit or F.static or F.kind == 'lambda': continue
            if F.access == 'public' and F.id in A.rel:
                subs = [cls] if cls in conc else [c for c in conc if P.isa(c, cls) and (cls == 'BaseFilter' or not overridden(P, c, F))]
                if cls == 'BaseFilter' and not dispatches(P, A, F): subs = subs[:1]
                for c in subs:
                    if overridden(P, c, F): continue
                    proc = F.short == 'processFrame'
                    A.go(F, c, processing=proc); roots += 1
    # overridden virtuals called by the pool
    for F in P.fn('BaseFilter::pendingJobs'):
        A.go(F, conc[0], processing=True); roots += 1
    hs = handlers(P)
    rep.floor('event handlers', len(hs), 10)
    for c, H in hs:
        if H.id in A.rel:
            unlocked = P.isa(c, 'HeadFilter') or P.isa(c, 'TailFilter')
            A.go(H, c, locked=None if unlocked else MTX); roots += 1
    for cls in ('Reader', 'WorkersPool', 'AudioCircularBuffer', 'PipelineManager'):
        for F in P.methods_of(cls):
            if F.kind in ('ctor', 'dtor') or F.implicit or F.static or F.access != 'public' or F.id not in A.rel: continue
            A.go(F, cls); roots += 1
        if cls != 'PipelineManager':
            for F in P.methods_of(cls):
                if F.kind == 'dtor' and F.id in A.rel: A.go(F, cls); roots += 1
    # thread bodies
    nl = 0
    for F in P.funcs.values():
        if F.kind == 'lambda' and F.id in A.rel and F.name.startswith('WorkersPool::'):
            A.go(F, 'WorkersPool', processing=True); nl += 1
    rep.floor('thread bodies', nl, 1)
    rep.floor('entry points', roots, 20)
    # completeness: nobody touches guarded state outside the analysed call trees
    for i in sorted(A.base):
        F = P.funcs[i]
        if i in A.visited or F.kind in ('ctor', 'dtor') or F.implicit: continue
        if not (F.cls and (F.cls in P.classes)): continue
        if not any(e['op'] == 'member' and e['cls'] + '::' + e['f'] in GUARD for e in F.ins.values()): continue
        A.go(F, F.cls)
    if A.c01:
        rep.floor('guarded accesses', rep.count('guarded access'), 40)
        for m in OWNERS:
            n = len([k for k in rep.obl if k[0] == 'guarded access' and GUARD.get(k[1].split(' ')[0], AUD) == m])
            rep.floor('accesses guarded by ' + m, n, 3)
    else:
        rep.floor('acquisitions', rep.count('no re-acquisition'), 20)
        order(rep, A)


def dispatches(P, A, F):
    """does F (transitively, through this) call virtual functions with several relevant implementations"""
    seen, work = {F.id}, [F]
    while work:
        G = work.pop()
        for e in G.ins.values():
            if e['op'] == 'call' and 'callee' in e:
                c = P.resolve(e['callee'], e.get('virt'))
                if e.get('virt') and len(c) > 1 and any(x.id in A.rel for x in c): return True
                for x in c:
                    if x.id not in seen and x.id in A.rel: seen.add(x.id); work.append(x)
    return False


def overridden(P, c, F):
    """class c (or a class between) overrides F"""
    for k in [c] + P.all_bases(c):
        if k == F.cls: return False
        if any(G.short == F.short and G.id in P.overriders.get(F.id, ()) for G in P.methods_of(k)): return True
    return False


def order(rep, A):
    g = {}
    for (a, b), w in A.edges.items(): g.setdefault(a, set()).add(b)
    for (a, b), (w, fn, root) in sorted(A.edges.items()):
        # is there a way back from b to a?
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); work += list(g.get(x, ()))
        rep.check(a not in seen, 'one lock order', '%s -> %s' % (a, b), w, '%s acquires %s while holding %s (from %s), and elsewhere they are taken in the opposite order' % (fn, b, a, root))
    rep.stats['lock order edges'] = sorted('%s -> %s' % k for k in A.edges)
