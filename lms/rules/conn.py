"""F03: connecting and disconnecting are all-or-nothing."""
from ..engine import Engine, pairval
from ..lin import C, add, sub
from ..scan import Scan
from ..facts import AnalysisBroken

RULE = ('paired-update and typestate dataflow over every operation that changes the connection tables (helpers inlined, each possible answer of the queue allocation and of the per-connection configuration hooks taken): '
        'per touched table entry the net change on every exit must be one of {unchanged, registered after an accepted configuration within the limit with its own counter at zero, unregistered together with its counter and its configuration}; '
        'an allocated queue ends owned by a complete connection or freed; a connection reported as made is attached on both sides and described by the ids of its two ends; '
        'configuration hooks of every module leave per-connection state exactly when they accept, and the matching delete hooks drop all of it')
LEVEL = 'other'
ASSUME = ['table access is serialised as decided by C01', 'writers and counters agree on entry (the rule re-establishes it on every exit)']

READERS, WRITERS, SEQN = 'BaseFilter::readers', 'BaseFilter::writers', 'BaseFilter::seqNums'
TABLES = (READERS, WRITERS, SEQN)
HOOKS = ('specificWriterConfig', 'specificWriterDelete', 'specificReaderConfig', 'specificReaderDelete')


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def table_of(L): return L[2] if L[0] == 'm' and L[2] in TABLES else None


class Cl(Scan):
    K = 120
    max_depth = 10
    max_steps = 1000000

    def __init__(self, rep, F0, rel):
        super().__init__()
        self.rep, self.F0, self.rel = rep, F0, rel
        self.seen = set()
        self.n = 0

    def init(self): return tuple(sorted(dict(tab=(), ev=(), q=None, cd=(), scan='no', el=None).items()))

    def inline(self, eng, st, G, ins):
        if G.cls == 'Reader' or G.short in ('processEvent', 'runDoProcessFrame'): return False
        return G.id in self.rel or G.cls in ('Writer',) or len(G.blocks) <= 3

    def ck(self, ok, kind, eng, ins, msg):
        self.seen.add(kind)
        self.rep.check(ok, kind, self.F0.name, eng.where(ins) if ins is not None else '%s:%d' % (self.F0.file, self.F0.line), msg)

    # ---- shadow tables
    def find(self, eng, st, L, k):
        for n, e in enumerate(tg(st)['tab']):
            if e[0] == L and (e[1] == k or eng.ent_eq(st, e[1], k)): return n, e
        return None, None

    def put(self, eng, st, L, k, **kw):
        n, e = self.find(eng, st, L, k)
        tab = list(tg(st)['tab'])
        d = dict(zip(('L', 'k', 'init', 'now', 'val'), e))
        d.update(kw)
        tab[n] = tuple(d[x] for x in ('L', 'k', 'init', 'now', 'val'))
        settag(st, tab=tuple(tab))

    def ensure(self, eng, st, L, k):
        """states in which the presence of k in table L is known"""
        n, e = self.find(eng, st, L, k)
        if e is not None: return [st]
        twin = None
        if L[2] in (WRITERS, SEQN):
            T = ('m', L[1], SEQN if L[2] == WRITERS else WRITERS)
            _, twin = self.find(eng, st, T, k)
        if (k[0] == 'key' and k[1][0] == 'iter' and k[1][1] == L) or "'ielem'" in repr(k): opts = [True]
        elif twin is not None: opts = [twin[2]]
        else:
            has = ('op', 'has', L, (eng.ver(st, L), None), k)
            t = eng.truth(st, ('cmp', '!=', has, C(0)))
            opts = [True, False] if t is None else [t]
        out = []
        for o in opts:
            s = st.copy() if len(opts) > 1 else st
            val = eng.load(s, ('i', L, k)) if o else None
            settag(s, tab=tg(s)['tab'] + ((L, k, o, o, val),))
            out.append(s)
        return out

    def known(self, eng, st, L, k, now):
        has = ('op', 'has', L, (eng.ver(st, L), None), k)
        eng.dom.nonneg.add(has)
        eng.assume(st, ('cmp', '!=', has, C(0)), now)

    def ev(self, st, *e): settag(st, ev=tg(st)['ev'] + (e,))

    def base_of(self, obj):
        if obj is None: return None
        if obj[0] == 'lv': return obj[1]
        return ('d', obj)

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        cls = fn.rsplit('::', 1)[0]
        B = self.base_of(obj)
        if s in HOOKS:
            k = eng.num(eng.rvalue(st, args[0]))
            self.n += 1
            out = []
            for r in (True, False):
                x = st.copy()
                self.ev(x, s, B, k, r, eng.rvalue(x, args[1]) if len(args) > 1 else None)
                out.append((x, C(1 if r else 0)))
            return out
        if s == 'allocQueue':
            self.desc(eng, st, ins, args)
            a, b = st.copy(), st.copy()
            v = eng.fresh(a, ins)
            eng.assume(a, ('cmp', '!=', v, C(0)), True)
            settag(a, q=(v, 'loose'))
            return [(a, v), (b, C(0))]
        if s == 'processEvent': return ('void',)
        if cls == 'Reader' or (cands and cands[0].cls == 'Reader'):
            p = B[1] if B is not None and B[0] == 'd' else None
            vals = tuple(eng.num(eng.rvalue(st, a)) if a[0] != 'copyof' else a for a in args)
            v = eng.fresh(st, ins)
            if s == 'isConnected': eng.note_type(v, 'bool')
            self.ev(st, 'Reader.' + s, p, vals, v)
            return v
        if s == 'setConnected' and args:
            self.ev(st, 'setConnected', B[1] if B[0] == 'd' else None, (eng.rvalue(st, args[0]),), None)
            return ('void',)
        if s == 'isConnected' and cls == 'FrameQueue': return eng.note_type(eng.fresh(st, ins), 'bool')
        if s in ('runDoProcessFrame',): return eng.note_type(eng.fresh(st, ins), 'bool')
        if s in ('addFrame', 'getFrame', 'removeFrame', 'framesSync'): return eng.fresh(st, ins)
        if s == 'push_back' and B is not None and B[0] == 'm' and B[2] == 'ConnectionData::readers' and args and args[0][0] in ('lv', 'copyof'):
            R = args[0][1]
            settag(st, cd=tg(st)['cd'] + ((eng.load(st, ('m', R, 'ReaderData::rFilterId')), eng.load(st, ('m', R, 'ReaderData::readerId'))),))
            return NotImplemented
        L = B
        if L is not None and table_of(L) and cls.startswith('std::'):
            T = L
            if s in ('count', 'find', 'contains'):
                k = eng.num(eng.rvalue(st, args[0]))
                out = []
                for x in self.ensure(eng, st, T, k):
                    now = self.find(eng, x, T, k)[1][3]
                    if s == 'find':
                        ver = (eng.ver(x, T), None)
                        it = ('iter', T, ver, 'find', k)
                        self.known(eng, x, T, k, now)
                        out.append((x, it))
                    else: out.append((x, C(1 if now else 0)))
                return out
            if s in ('operator[]', 'at'):
                k = eng.num(eng.rvalue(st, args[0]))
                out = []
                for x in self.ensure(eng, st, T, k):
                    e = self.find(eng, x, T, k)[1]
                    if not e[3]:
                        self.limit(eng, x, ins, T)
                        eng.bump(x, eng.lockey(T))
                        self.put(eng, x, T, k, now=True, val=C(0))
                        x.store[('i', T, e[1])] = C(0)
                    out.append((x, ('lv', ('i', T, e[1]))))
                return out
            if s in ('insert', 'emplace'):
                k, v = None, None
                if s == 'emplace' and len(args) == 2: k, v = eng.rvalue(st, args[0]), eng.rvalue(st, args[1])
                elif len(args) == 1: k, v = pairval(eng.rvalue(st, args[0])) or (None, None)
                if k is None: raise AnalysisBroken('table update %s in %s' % (s, eng.F.name))
                k = eng.num(k)
                out = []
                for x in self.ensure(eng, st, T, k):
                    e = self.find(eng, x, T, k)[1]
                    new = not e[3]
                    if new:
                        self.limit(eng, x, ins, T)
                        eng.bump(x, eng.lockey(T))
                        self.put(eng, x, T, k, now=True, val=v)
                        x.store[('i', T, e[1])] = v
                    it = ('iter', T, (eng.ver(x, T), None), 'find', k)
                    self.known(eng, x, T, k, True)
                    out.append((x, ('pcall', 'std::pair::pair', '', (it, C(1 if new else 0)))))
                return out
            if s == 'erase':
                a = eng.rvalue(st, args[0])
                k = eng.iterkey(a) if a[0] == 'iter' else eng.num(a)
                out = []
                for x in self.ensure(eng, st, T, k):
                    was = self.find(eng, x, T, k)[1][3]
                    self.put(eng, x, T, k, now=False)
                    x.store.pop(('i', T, self.find(eng, x, T, k)[1][1]), None)
                    eng.bump(x, eng.lockey(T))
                    out.append((x, ('iter', T, (eng.ver(x, T), None), 'erase', eng.frame, ins['i']) if a[0] == 'iter' else C(1 if was else 0)))
                return out
            if s == 'clear':
                if T[2] == READERS:
                    self.ck(tg(st)['scan'] == 'done', 'inputs are released before they are dropped', eng, ins, 'the input table is dropped without every reader having been told that the filter leaves')
                return NotImplemented
        return NotImplemented

    def limit(self, eng, st, ins, T):
        f = {WRITERS: 'BaseFilter::maxWriters', READERS: 'BaseFilter::maxReaders'}.get(T[2])
        if f is None: return
        n = ('op', 'size', T, (eng.ver(st, T), None))
        eng.dom.nonneg.add(n)
        m = eng.num(eng.load(st, ('m', T[1], f), 'unsigned int'))
        self.ck(eng.ent_lt(st, n, m), 'connection limit', eng, ins, 'a connection is registered without having checked the number of connections the filter supports')

    def desc(self, eng, st, ins, args):
        """the connection data given to the queue names both ends"""
        if not args or args[0][0] not in ('lv', 'copyof', 'obj'): return
        L = args[0][1]
        w = eng.load(st, ('m', L, 'ConnectionData::wFilterId'))
        own = eng.load(st, ('m', ('d', eng.root_this), 'Runnable::id'))
        wi = eng.load(st, ('m', L, 'ConnectionData::writerId'))
        wk = [e[1] for e in tg(st)['tab'] if e[0][2] == WRITERS and e[3] and not e[2]]
        self.ck(eng.ent_eq(st, w, own) and len(wk) == 1 and eng.ent_eq(st, wi, wk[0]), 'a connection names its producing end', eng, ins, 'the queue is not told the filter and the output it belongs to')
        settag(st, cdq=tg(st)['cd'])

    def on_store(self, eng, st, ins, L, v):
        if L[0] == 'i' and table_of(L[1]):
            n, e = self.find(eng, st, L[1], L[2])
            if e is None: return
            if e[2] and L[1][2] != SEQN and e[3] and not eng.ent_eq(st, e[4], v):
                free = any(x[0] == 'Reader.isConnected' and x[1] is not None and self.same(eng, st, x[1], e[4]) and eng.truth(st, x[3]) is False for x in tg(st)['ev'])
                self.ck(free, 'a live connection is not replaced', eng, ins, 'a connection is replaced that was not known to be closed')
            self.put(eng, st, L[1], L[2], val=v)

    def on_delete(self, eng, st, ins, val):
        q = tg(st)['q']
        if q and eng.ent_eq(st, q[0], val):
            self.ck(q[1] == 'loose', 'a queue is freed once', eng, ins, 'a queue is freed that is still attached or already freed')
            settag(st, q=(q[0], 'freed'))

    # ---- verdicts
    def same(self, eng, st, a, b): 
        if a is None or b is None: return False
        if a[0] == 'init' and b[0] == 'init' and a[1] == b[1] and table_of(a[1][1]) if len(a) > 1 and isinstance(a[1], tuple) and len(a[1]) > 1 and isinstance(a[1][1], tuple) else False: return True
        return a == b or eng.ent_eq(st, a, b)

    def evs(self, eng, st, name, B, k): return [x for x in tg(st)['ev'] if x[0] == name and x[1] == B and self.same(eng, st, x[2], k)]

    def judge(self, eng, st, ins):
        t = tg(st)
        for L, k, i0, now, val in t['tab']:
            B = L[1]
            if L[2] in (WRITERS, READERS):
                W = L[2] == WRITERS
                cfg = self.evs(eng, st, 'specificWriterConfig' if W else 'specificReaderConfig', B, k)
                dele = self.evs(eng, st, 'specificWriterDelete' if W else 'specificReaderDelete', B, k)
                what = 'output' if W else 'input'
                if i0 and not now:
                    self.ck(len(dele) == 1, 'a removed connection drops its configuration', eng, ins, 'an %s is removed and its configuration is dropped %d times' % (what, len(dele)))
                    if not W:
                        own = eng.load(st, ('m', B, 'Runnable::id'))
                        r0 = ('init', ('i', L, k), 0)
                        told = [x for x in t['ev'] if x[0] == 'Reader.disconnect' and x[1] is not None and x[1][0] == 'init' and x[1][1][0] == 'i' and x[1][1][1] == L and self.same(eng, st, x[1][1][2], k) and x[2] and self.same(eng, st, x[2][0], own)]
                        null = val is not None and eng.truth(st, val) is False
                        self.ck(bool(told) or null, 'a removed reader is told', eng, ins, 'an input is removed without its reader being told that this filter leaves: the others wait for it for good')
                elif now and not i0:
                    ok = bool(cfg) and cfg[-1][3] and not dele
                    self.ck(ok, 'only accepted connections are registered', eng, ins, 'an %s is left registered that the filter did not accept' % what)
                    self.ck(val is not None and eng.truth(st, val) is not False, 'no empty entry is registered', eng, ins, 'an %s is left registered without a connection' % what)
                elif now and i0:
                    self.ck(not dele, 'a live connection keeps its configuration', eng, ins, 'the configuration of an %s is dropped although it stays registered' % what)
                else:
                    acc = bool(cfg) and cfg[-1][3]
                    self.ck(not acc or len(dele) == 1, 'a refused connection leaves nothing', eng, ins, 'an %s was configured and is not registered, and its configuration stays behind' % what)
                if W:
                    n, s = self.find(eng, st, ('m', B, SEQN), k)
                    if i0 != now or (s is not None):
                        if now: self.ck(i0 or (s is not None and s[3] and eng.truth(st, s[4]) is False), 'a new output starts its numbering', eng, ins, 'an output is registered without its frame counter at zero')
                        else: self.ck((s is None and not i0) or (s is not None and not s[3]), 'counters follow outputs', eng, ins, 'an output is unregistered and its frame counter stays behind')
                        if now and i0 and s is not None: self.ck(s[3], 'counters follow outputs', eng, ins, 'the frame counter of a live output is dropped')
            else:
                n, w = self.find(eng, st, ('m', B, WRITERS), k)
                if w is None: self.ck(i0 == now, 'counters follow outputs', eng, ins, 'a frame counter is created or dropped without its output')

    def on_branch(self, eng, st, ins, v, taken):
        e = self.scan_event(eng, st, v, taken)
        if e is None or table_of(e[1]) != READERS: return
        t = tg(st)
        if e[0]: settag(st, scan='done' if t['scan'] in ('no', 'ok') else t['scan'], el=None)
        else: settag(st, el=(e[1], e[3]))

    def on_backedge(self, eng, st, G, head):
        t = tg(st)
        if t['el']:
            L, k = t['el']
            own = eng.load(st, ('m', L[1], 'Runnable::id'))
            val = eng.load(st, ('i', L, k))
            told = any(x[0] == 'Reader.disconnect' and self.same(eng, st, x[1], val) and x[2] and self.same(eng, st, x[2][0], own) for x in t['ev'])
            skip = eng.truth(st, val) is False or eng.ent_lt(st, eng.num(k), C(0))
            settag(st, scan='ok' if (told or skip) and t['scan'] in ('no', 'ok') and self.scan_step_ok(eng, st, G, head) else 'bad', el=None)
        self.judge(eng, st, None)
        settag(st, tab=(), ev=())

    def on_exit_root(self, eng, st, G, val):
        self.judge(eng, st, None)
        t = tg(st)
        r = eng.truth(st, val) if val is not None and val[0] != 'void' else None
        q = t['q']
        addw = [e for e in t['tab'] if e[0][2] == WRITERS and e[3] and not e[2]]
        addr = [e for e in t['tab'] if e[0][2] == READERS and e[3] and not e[2]]
        if 'cdq' in t or q is not None:
            # a connection attempt
            if r is True:
                ok = len(addw) == 1 and len(addr) == 1 and q is not None and addw[0][0][1] == ('d', eng.root_this) and addr[0][0][1] != addw[0][0][1]
                self.ck(ok, 'a connection reported as made exists on both sides', eng, None, 'the connection is reported as made on a path that did not register both of its ends')
                if ok:
                    w, rd, qq = addw[0][4], addr[0][4], q[0]
                    wq = eng.load(st, ('m', ('d', w), 'Writer::queue'))
                    self.ck(self.same(eng, st, wq, qq), 'the output feeds the queue of the connection', eng, None, 'the registered output is not given the queue of the connection')
                    sc = [x for x in t['ev'] if x[0] == 'Reader.setConnection' and self.same(eng, st, x[1], rd) and x[2] and self.same(eng, st, x[2][0], qq)]
                    self.ck(len(sc) == 1, 'the input drains the queue of the connection', eng, None, 'the registered input is not attached to the queue of the connection')
                    on = [x for x in t['ev'] if x[0] == 'setConnected' and self.same(eng, st, x[1], qq)]
                    self.ck(bool(on) and eng.truth(st, on[-1][2][0]) is True, 'a made connection is live', eng, None, 'the connection is reported as made and its queue is not marked as connected')
                    cd = t.get('cdq', ())
                    rid = eng.load(st, ('m', addr[0][0][1], 'Runnable::id'))
                    self.ck(len(cd) == 1 and self.same(eng, st, cd[0][0], rid) and self.same(eng, st, cd[0][1], addr[0][1]), 'a connection names its consuming end', eng, None,
                            'the queue is not told which filter and input consume it: nobody wakes that filter when a frame is published')
            else:
                self.ck(not addw and not addr, 'a refused connection leaves nothing', eng, None, 'a connection is refused with one of its ends left registered')
                self.ck(q is None or q[1] == 'freed', 'a refused connection frees its queue', eng, None, 'a connection is refused and its queue is lost')
        share = [x for x in t['ev'] if x[0] == 'Reader.addReader']
        if share or (self.F0.short == 'shareReader'):
            chg = [e for e in t['tab'] if e[0][2] == READERS and e[0][1] != ('d', eng.root_this) and e[3] and (not e[2] or (e[4] is not None and not self.fromself(e, e[4])))]
            if r is True:
                ok = len(chg) == 1 and len(share) == 1
                self.ck(ok, 'a shared reader is registered on both sides', eng, None, 'sharing is reported as done on a path that did not register the reader with the sharing filter and the filter with the reader')
                if ok:
                    e, x = chg[0], share[0]
                    oid = eng.load(st, ('m', e[0][1], 'Runnable::id'))
                    self.ck(self.same(eng, st, x[1], e[4]) and self.same(eng, st, x[2][0], oid) and self.same(eng, st, x[2][1], e[1]), 'a shared reader is registered on both sides', eng, None,
                            'the reader is shared under other ids than those it was registered under')
                    live = [y for y in t['ev'] if y[0] == 'Reader.isConnected' and self.same(eng, st, y[1], e[4]) and eng.truth(st, y[3]) is True]
                    self.ck(bool(live), 'only live connections are shared', eng, None, 'a reader is shared without having checked that it is connected')
            else:
                self.ck(not chg and not share, 'a refused sharing leaves nothing', eng, None, 'sharing is refused with the reader already registered')

    def fromself(self, e, v): return v[0] == 'init' and v[1] == ('i', e[0], e[1])


def closure(P):
    """functions that change a connection table, and everything that leads to them inside the filter classes"""
    direct, looks = set(), set()
    for G in P.funcs.values():
        for e in G.ins.values():
            if e['op'] == 'call' and e.get('fn', '').startswith('std::') and e.get('obj') is not None and e['fn'].rsplit('::', 1)[-1] in ('find', 'count', 'at', 'contains'):
                o = G.ins.get(e['obj'])
                if o is not None and o['op'] == 'member' and o['cls'] + '::' + o['f'] in TABLES: looks.add(G.id)
            if e['op'] == 'call' and e.get('fn', '').startswith('std::') and e.get('obj') is not None and e['fn'].rsplit('::', 1)[-1] in ('operator[]', 'erase', 'clear', 'insert', 'emplace', 'operator=', 'swap'):
                o = G.ins.get(e['obj'])
                if o is not None and o['op'] == 'member' and o['cls'] + '::' + o['f'] in TABLES: direct.add(G.id)
    callers = {}
    for G in P.funcs.values():
        for e in G.ins.values():
            if e['op'] in ('call', 'ctor') and 'callee' in e:
                for H in P.resolve(e['callee'], e.get('virt')): callers.setdefault(H.id, set()).add(G.id)
    return direct, callers, looks


def run(rep, P, tier):
    direct, callers, looks = closure(P)
    rel, work = set(direct), list(direct)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            G = P.funcs.get(c)
            if c not in rel and G is not None and P.isa(G.cls or '', 'BaseFilter'): rel.add(c); work.append(c)
    rounds = ('processFrame', 'runProcessFrame')
    roots = []
    for x in rel:
        G = P.funcs[x]
        if G.cls != 'BaseFilter' and x not in direct: continue
        up = [c for c in callers.get(x, ()) if c in rel and P.funcs[c].cls == 'BaseFilter' and P.funcs[c].short not in ('regularProcessFrame', 'serverProcessFrame')]
        out = [c for c in callers.get(x, ()) if P.funcs[c].cls != 'BaseFilter']
        if G.short in ('processFrame', 'regularProcessFrame', 'serverProcessFrame', 'runProcessFrame', 'runDoProcessFrame'): continue
        if up and not (out and G.short.startswith(('connect', 'disconnect', 'share'))): continue
        if G.cls == 'BaseFilter' and G.short == 'BaseFilter': continue
        roots.append(G)
    kinds = set()
    n = 0
    for G in sorted(roots, key=lambda g: g.name):
        rep.funcs.add(G.name)
        cl = Cl(rep, G, rel | looks)
        eng = Engine(P, cl)
        this = ('arg', 'this', -1)
        eng.root_this = this
        eng.atype[this] = G.cls
        eng.run(G, this)
        kinds |= cl.seen
        n += 1
        rep.stats[G.name] = {'steps': eng.steps}
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    rep.floor('operations that change connections', n, 6)
    hooks(rep, P)
    for k in ('a connection reported as made exists on both sides', 'a refused connection frees its queue', 'a removed reader is told', 'counters follow outputs', 'connection limit',
              'a shared reader is registered on both sides', 'inputs are released before they are dropped'):
        rep.floor('decided: ' + k, 1 if k in kinds else 0, 1)


# ---------------------------------------------------------------- per-connection state of the modules
class Hook(Scan):
    K = 80
    max_depth = 6

    def __init__(self, cls, key, present=None, touch=None):
        super().__init__()
        self.c, self.key, self.present, self.touch = cls, key, present, touch
        self.exits = []        # (result, frozenset of present fields, pointers still to release, fields new)

    def init(self): return tuple(sorted(dict(tab=tuple((f, True) for f in sorted(self.present or ())), rel=()).items()))

    def inline(self, eng, st, G, ins):
        if G.cls != self.c: return len(G.blocks) <= 3
        return self.touch is None or G.id in self.touch

    def cont(self, eng, st, obj, args):
        """field when obj is a container of the module and the argument is the connection id"""
        if obj is None or obj[0] != 'lv' or obj[1][0] != 'm' or obj[1][1] != ('d', eng.root_this) or not args: return None, None
        v = eng.rvalue(st, args[0])
        if v[0] == 'iter':
            if v[1] != obj[1]: return None, None
            v = eng.iterkey(v)
        v = eng.num(v)
        if v == self.key or eng.ent_eq(st, v, self.key): return obj[1], obj[1][2]
        return None, None

    def states(self, eng, st, f):
        d = dict(tg(st)['tab'])
        if f in d: return [st]
        if self.present is None: opts = [False]
        else: opts = [f in self.present]
        for o in opts: settag(st, tab=tg(st)['tab'] + ((f, o),))
        return [st]

    def setp(self, st, f, v): settag(st, tab=tuple((g, v if g == f else o) for g, o in tg(st)['tab']))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        if fn.startswith('std::') and s in ('count', 'find', 'operator[]', 'at', 'erase'):
            L, f = self.cont(eng, st, obj, args)
            if f is not None:
                st = self.states(eng, st, f)[0]
                now = dict(tg(st)['tab'])[f]
                if s == 'count': return C(1 if now else 0)
                if s == 'find':
                    ver = (eng.ver(st, L), None)
                    it = ('iter', L, ver, 'find', self.key)
                    eng.assume(st, ('cmp', '!=', it, ('iterend', L, ver)), now)
                    return it
                if s == 'erase':
                    self.setp(st, f, False)
                    return eng.fresh(st, ins)
                if not now:
                    self.setp(st, f, True)
                    st.store[('i', L, self.key)] = C(0)
                return ('lv', ('i', L, self.key))
        if s in ('errorMsg', 'warningMsg'): return ('void',)
        for a in args:
            v = eng.rvalue(st, a)
            settag(st, rel=tuple(sorted(set(tg(st)['rel']) | {v}, key=repr))) if v[0] == 'init' and v[1][0] == 'i' and v[1][1][0] == 'm' else None
        return NotImplemented

    def on_delete(self, eng, st, ins, val):
        if val[0] == 'init' and val[1][0] == 'i' and val[1][1][0] == 'm': settag(st, rel=tuple(sorted(set(tg(st)['rel']) | {val}, key=repr)))

    def on_exit_root(self, eng, st, G, val):
        t = tg(st)
        held = frozenset(f for f, o in t['tab'] if o)
        new = frozenset(f for f in held if (st.store.get(('i', ('m', ('d', eng.root_this), f), self.key)) or ('?',))[0] == 'new')
        rel = frozenset(v[1][1][2] for v in t['rel'] if v[1][2] == self.key)
        self.exits.append((eng.truth(st, val), held, new, rel))


def touching(P, cls, fields):
    own = [G for G in P.funcs.values() if G.cls == cls]
    out = {G.id for G in own if any(e['op'] == 'member' and e['cls'] + '::' + e['f'] in fields for e in G.ins.values())}
    while True:
        more = {G.id for G in own if G.id not in out and any(e['op'] == 'call' and e.get('callee') in out for e in G.ins.values())}
        if not more: return out
        out |= more


def hooks(rep, P):
    n = 0
    for a, b, what in (('specificReaderConfig', 'specificReaderDelete', 'input'), ('specificWriterConfig', 'specificWriterDelete', 'output')):
        for G in sorted(P.funcs.values(), key=lambda g: g.name):
            if G.short != a or not P.isa(G.cls or '', 'BaseFilter') or len(G.blocks) < 4: continue
            D = P.fn(G.cls + '::' + b)
            D = D[0] if D else None
            rep.funcs.add(G.name)
            key = ('arg', G.params[0]['name'] or '0', 0)
            cl = Hook(G.cls, key)
            eng = Engine(P, cl); this = ('arg', 'this', -1); eng.root_this = this; eng.atype[this] = G.cls
            eng.run(G, this)
            sets = {}
            w = '%s:%d' % (G.file, G.line)
            for r, held, new, rel in cl.exits:
                if r is False: rep.check(not held, 'a refused connection leaves nothing', G.name, w, '%s refuses the connection and keeps state for it in %s' % (G.name, ', '.join(sorted(held))))
                else: sets.setdefault(held, frozenset()); sets[held] |= new
            if not any(sets): continue
            n += 1
            if not rep.check(D is not None, 'a removed connection drops its configuration', G.name, w, '%s keeps state per %s and has no %s to drop it' % (G.cls, what, b)): continue
            for held, new in sorted(sets.items(), key=repr):
                if not held: continue
                key = ('arg', D.params[0]['name'] or '0', 0)
                c2 = Hook(G.cls, key, present=held, touch=touching(P, G.cls, held))
                eng = Engine(P, c2); eng.root_this = this; eng.atype[this] = G.cls
                eng.run(D, this)
                w = '%s:%d' % (D.file, D.line)
                for r, left, _, rel in c2.exits:
                    rep.check(not left & held and any(True for _ in c2.exits), 'a removed connection drops its configuration', '%s: %s' % (D.name, ', '.join(sorted(x.rsplit('::', 1)[-1] for x in held))), w,
                              '%s can leave the state of a removed %s in %s' % (D.name, what, ', '.join(sorted(left & held))))
                    miss = held - left - rel
                    rep.check(not (new & miss), 'the state of a removed connection is freed', '%s: %s' % (D.name, ', '.join(sorted(x.rsplit('::', 1)[-1] for x in held))), w,
                              '%s drops the state of a removed %s without freeing it (%s)' % (D.name, what, ', '.join(sorted(new & miss))))
    rep.floor('modules with state per connection', n, 5)
