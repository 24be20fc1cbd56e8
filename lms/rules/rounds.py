"""F01: a processing round publishes exactly the frames its processing marked and then releases exactly the input frames it announced."""
from ..engine import Engine, State
from ..lin import C, add, sub
from ..scan import Scan
from ..facts import AnalysisBroken

RULE = ('typestate of one processing round (processFrame with every role, all helpers inlined): per input connection the delivery protocol (announced as new exactly when the reader said so, under the id of that connection, '
        'frame and flag handed to the processing), per output connection the slot protocol (slot of that writer, not yet marked), processing at most once and in a regular filter only with a new input and an output, '
        'then a complete scan of the output slots publishing exactly the marked ones, then a complete scan of the announced inputs releasing each exactly once; enabled task ids of every publication reach the caller')
LEVEL = 'other'
ASSUME = ['Reader and Writer operations behave as decided by R01 and Q01', 'processing (runDoProcessFrame) adds or removes no entry of the frame maps', 'field access is serialised as decided by C01']

READERS, WRITERS, CONS = 'BaseFilter::readers', 'BaseFilter::writers', 'Frame::consumed'
ROLE, PERIODIC, MAXR, MAXW = 'BaseFilter::fRole', 'Runnable::periodic', 'BaseFilter::maxReaders', 'BaseFilter::maxWriters'


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def key_of(p, table):
    """key k when p is the (shared) pointer stored in table[k]"""
    for _ in range(4):
        if p[0] == 'init': L = p[1]
        elif p[0] == 'copyof': L = p[1]
        else: return None
        if L[0] == 'i' and L[1][0] == 'm' and L[1][2] == table: return L[2]
        if p[0] != 'copyof': return None
        p = ('init', L, 0)
    return None


T0 = dict(cur=None, n=None, pushed=0, org=False, anynew=False, got=False, wcur=None, wst=False, anydst=False, proc=0, pub='no', rel='no',
          pel=None, padd=0, wcon=None, rel_el=None, rem=0, addv=None, jobs=True, selfp=False, at=None)


class Cl(Scan):
    K = 200
    max_depth = 12
    max_steps = 2000000

    def __init__(self, rep, F, nf, dst):
        super().__init__()
        self.rep, self.F0, self.nf, self.dst = rep, F, nf, dst
        self.seen = set()

    def init(self): return tuple(sorted(T0.items()))

    def inline(self, eng, st, F, ins):
        if F.short in ('processEvent', 'runDoProcessFrame'): return False
        return F.id in self.rel or len(F.blocks) <= 3

    def ck(self, ok, kind, eng, ins, msg):
        self.seen.add(kind)
        self.rep.check(ok, kind, eng.F.name, eng.where(ins), msg)
        return ok

    def objkey(self, eng, st, obj, table):
        if obj is None or obj[0] != 'lv': return None
        L = obj[1]
        if L[0] == 'd': return key_of(L[1], table)
        return None

    def consumed(self, eng, st, f): return eng.load(st, ('m', ('d', f), CONS), 'bool')

    # ---- per input connection
    def close_in(self, eng, st, ins=None):
        t = tg(st)
        if t['cur'] is None: return
        k, f = t['cur']
        n = t['n']
        if f is None:
            self.ck(t['pushed'] == 0, 'no frame, nothing announced', eng, ins, 'an input that delivered no frame is announced as new')
        else:
            isnew = eng.truth(st, n)
            self.ck(not (t['pushed'] and isnew is not True), 'only new frames are announced', eng, ins, 'an input frame is announced as new on a path where the reader did not say so: it will be released twice')
            self.ck(not (isnew is not False and t['pushed'] == 0), 'every new frame is announced', eng, ins, 'a new input frame is not announced: it will never be released')
            self.ck(t['pushed'] <= 1, 'announced once', eng, ins, 'an input frame is announced twice')
            self.ck(t['org'], 'input handed to processing', eng, ins, 'an input frame is not handed to the processing under the id of its connection')
            c = self.consumed(eng, st, f)
            self.ck(eng.ent_eq(st, c, n) or (c[0] == 'c' and eng.truth(st, n) is bool(c[1])), 'input flagged as new or repeated', eng, ins, 'the flag of an input frame does not say whether it is new')
        settag(st, cur=None, n=None, pushed=0, org=False, anynew=t['anynew'] or (f is not None and eng.truth(st, n) is True and t['pushed'] > 0))

    def close_dst(self, eng, st, ins=None):
        t = tg(st)
        if t['wcur'] is None: return
        k, f = t['wcur']
        self.ck(t['wst'], 'slot handed to processing', eng, ins, 'an output slot is not handed to the processing under the id of its connection')
        self.ck(eng.truth(st, self.consumed(eng, st, f)) is False, 'slot handed out unmarked', eng, ins, 'an output slot is handed out still marked: it would be published without having been filled')
        settag(st, wcur=None, wst=False, anydst=True)

    def close_pub(self, eng, st, ins=None):
        t = tg(st)
        if t['pel'] is None: return
        k, f = t['pel']
        c = eng.truth(st, self.consumed(eng, st, f))
        if t['padd']:
            self.ck(t['padd'] == 1, 'published once', eng, ins, 'a frame is published twice')
            self.ck(c is True, 'only filled frames are published', eng, ins, 'a frame is published that the processing did not mark as filled')
        else:
            gone = self.absent(eng, st, WRITERS, k) or (t['wcon'] is not None and eng.truth(st, t['wcon']) is False)
            self.ck(c is False or gone, 'every filled frame is published', eng, ins, 'a frame the processing marked as filled is not published although its output is connected')
        self.ck(t['jobs'], 'enabled tasks are reported', eng, ins, 'the tasks enabled by a publication are dropped: their filters are never woken')
        settag(st, pel=None, padd=0, wcon=None)

    def close_rel(self, eng, st, ins=None):
        t = tg(st)
        if t['rel_el'] is None: return
        k = t['rel_el']
        self.ck(t['rem'] <= 1, 'released once', eng, ins, 'an announced frame is released twice')
        if t['rem'] == 0:
            self.ck(self.absent(eng, st, READERS, k), 'every announced frame is released', eng, ins, 'an announced frame of a connected input is not released: the stream stalls')
        settag(st, rel_el=None, rem=0)

    def absent(self, eng, st, table, k):
        for f in st.facts:
            for a in has_atoms(f[1]):
                if a[2][0] == 'm' and a[2][2] == table and a[4] == k and eng.ent_le(st, a, C(0)): return True
            r = repr(f[1])
            if f[0] == 'eq' and 'find' in r and table in r and repr(k) in r: return True
        return False

    # ---- hooks
    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        cls = fn.rsplit('::', 1)[0]
        t = tg(st)
        if cls == 'Reader':
            k = self.objkey(eng, st, obj, READERS)
            if s == 'getFrame':
                self.close_in(eng, st, ins)
                self.ck(k is not None, 'reader of this filter', eng, ins, 'a frame is taken from something that is not a reader of this filter')
                fid = eng.rvalue(st, args[0])
                idv = eng.load(st, ('m', eng.deref(eng.root_this), 'Runnable::id'))
                self.ck(eng.ent_eq(st, fid, idv), 'frame taken in its own name', eng, ins, 'a frame is taken in the name of another filter')
                self.ck(t['proc'] == 0, 'inputs taken before processing', eng, ins, 'an input frame is taken after the processing')
                s0 = st.copy()
                f = eng.note_type(eng.fresh(st, ins), 'Frame *')
                n = ('ret', eng.frame, 'new', ins['i']); eng.purge(st, n); eng.purge(s0, n)
                eng.note_type(n, 'bool')
                if args[1][0] == 'lv': eng.put(st, args[1][1], n); eng.put(s0, args[1][1], n)
                settag(st, cur=(k, f), n=n, pushed=0, org=False, got=True)
                settag(s0, cur=(k, None), n=n, pushed=0, org=False, got=True)
                st = eng.assume(st, ('cmp', '!=', f, C(0)), True)
                # the new-flag is decided per path
                a = eng.assume(st.copy(), n, True); b = eng.assume(st.copy(), n, False)
                return [(x, f) for x in (a, b) if x is not None] + [(s0, C(0))]
            if s == 'removeFrame':
                idv = eng.load(st, ('m', eng.deref(eng.root_this), 'Runnable::id'))
                self.ck(eng.ent_eq(st, eng.rvalue(st, args[0]), idv), 'frame released in its own name', eng, ins, 'a frame is released in the name of another filter')
                self.ck(t['rel_el'] is not None and k is not None and eng.ent_eq(st, k, t['rel_el']), 'only announced frames are released', eng, ins, 'a frame is released that was not announced as new in this round')
                self.ck(t['proc'] == 0 or t['pub'] == 'done', 'outputs are published before inputs are released', eng, ins, 'input frames are released before the outputs of the round are published')
                settag(st, rem=min(2, t['rem'] + 1))
                return ('void',)
            if s in ('isConnected', 'isFull'): return eng.note_type(eng.fresh(st, ins), 'bool')
            return eng.fresh(st, ins)
        if cls == 'Writer':
            k = self.objkey(eng, st, obj, WRITERS)
            if s == 'getFrame':
                self.close_dst(eng, st, ins)
                self.ck(k is not None, 'writer of this filter', eng, ins, 'a slot is taken from something that is not a writer of this filter')
                f = eng.note_type(eng.fresh(st, ins), 'Frame *')
                force = eng.truth(st, eng.rvalue(st, args[0])) if args else False
                self.ck(force is True, 'a slot is always obtained', eng, ins, 'an output slot is asked for in a way that may fail, and the result is used unchecked') if t['proc'] == 0 else None
                settag(st, wcur=(k, f), wst=False)
                eng.put(st, ('m', ('d', f), CONS), ('init', ('m', ('d', f), CONS), -1))
                return f
            if s == 'addFrame':
                self.ck(t['pel'] is not None and k is not None and eng.ent_eq(st, k, t['pel'][0]), 'published on its own output', eng, ins, 'a frame is published on another output than the one its slot belongs to')
                self.ck(t['proc'] == 1, 'published after processing', eng, ins, 'frames are published before the processing')
                v = ('jobs', ins['i'])
                settag(st, padd=min(2, t['padd'] + 1), jobs=False, addv=v)
                return v
            if s == 'isConnected':
                v = eng.note_type(eng.fresh(st, ins), 'bool')
                if t['pel'] is not None and k is not None and eng.ent_eq(st, k, t['pel'][0]): settag(st, wcon=v)
                return v
            return eng.fresh(st, ins)
        if s == 'runDoProcessFrame':
            for fin in (self.close_in, self.close_dst): fin(eng, st, ins)
            t = tg(st)
            self.ck(t['proc'] == 0, 'processed once', eng, ins, 'a round processes its frames twice')
            T = eng.deref(eng.root_this)
            role = eng.load(st, ('m', T, ROLE))
            mr, mw = eng.load(st, ('m', T, MAXR)), eng.load(st, ('m', T, MAXW))
            if self.regular(eng, st, role):
                self.ck(t['anynew'] or eng.truth(st, mr) is False, 'a regular filter processes only new input', eng, ins, 'a regular filter processes a round without any new input frame')
                self.ck(t['anydst'] or eng.truth(st, mw) is False, 'a regular filter processes only with an output', eng, ins, 'a regular filter processes a round without any output connected: the input is lost and the processing writes through a missing slot')
            for a, name in zip(args, ('o', 'd')):
                if a[0] == 'lv': self.dst.add((name, a[1]))
            eng.havoc_field(st, CONS)
            if len(args) > 3 and args[3][0] == 'lv': eng.put(st, args[3][1], eng.fresh(st, ins, 'rv'))
            settag(st, proc=min(2, t['proc'] + 1), pub='no')
            return eng.note_type(eng.fresh(st, ins), 'bool')
        if s == 'processEvent': return ('void',)
        if s.startswith('specific') or fn == 'PipelineManager::getInstance': return eng.note_type(eng.fresh(st, ins), 'bool')
        if obj is not None and obj[0] == 'lv' and 'vector' in fn:
            L = self.base(st, obj[1])
            if s in ('push_back', 'emplace_back'):
                v = eng.rvalue(st, args[0])
                if t['cur'] is not None and t['cur'][0] is not None and eng.ent_eq(st, v, t['cur'][0]):
                    self.nf.add(L)
                    settag(st, pushed=min(2, t['pushed'] + 1))
                elif L in self.nf:
                    self.ck(False, 'announced under its own id', eng, ins, 'a frame is announced under an id that is not the one of the connection it came from')
                idv = eng.load(st, ('m', eng.deref(eng.root_this), 'Runnable::id'))
                if eng.ent_eq(st, v, idv): settag(st, selfp=True)
            if s in ('empty', 'size') and self.is_nf(st, L):
                self.close_in(eng, st, ins)
                t = tg(st)
                if s == 'empty': return C(0 if t['anynew'] else 1)
            if s in ('insert',) and len(args) == 3:
                a, b = eng.rvalue(st, args[1]), eng.rvalue(st, args[2])
                if a[0] == 'iter' and b[0] == 'iterend' and a[1] == b[1] and a[3] == 'begin':
                    src = st.store.get(a[1])
                    n = 0
                    while src is not None and src[0] == 'copyof' and n < 4: src = st.store.get(src[1]); n += 1
                    if t['addv'] is not None and src is not None and src == t['addv']: settag(st, jobs=True, addv=None)
            if s in ('clear', 'erase', 'pop_back') and L in self.nf:
                self.ck(t['rel'] == 'done', 'announced frames are kept until released', eng, ins, 'the list of announced frames is changed before they are released')
            if s == 'insert' or s == 'push_back':
                # element-wise copy of the reported tasks
                v = eng.rvalue(st, args[-1]) if args else None
                if t['addv'] is not None and v is not None and repr(t['addv']) in repr(v): settag(st, jobs=True)
        return NotImplemented

    def base(self, st, L):
        n = 0
        while n < 6:
            v = st.store.get(L)
            if v is None or v[0] not in ('copyof', 'lv'): return L
            L = v[1]; n += 1
        return L

    def is_nf(self, st, L):
        if L in self.nf: return True
        v = st.store.get(L)
        return v is not None and any(st.store.get(N) == v for N in self.nf)

    def regular(self, eng, st, role):
        return eng.ent_eq(st, role, C(self.REG))

    def on_store(self, eng, st, ins, L, v):
        t = tg(st)
        if L[0] == 'i':
            if t['cur'] is not None and t['cur'][1] is not None and v == t['cur'][1]:
                if self.ck(eng.ent_eq(st, L[2], t['cur'][0]), 'input handed over under its own id', eng, ins, 'an input frame is handed to the processing under the id of another connection'): settag(st, org=True)
            if t['wcur'] is not None and v == t['wcur'][1]:
                if self.ck(eng.ent_eq(st, L[2], t['wcur'][0]), 'slot handed over under its own id', eng, ins, 'an output slot is handed to the processing under the id of another output'): settag(st, wst=True)

    def on_branch(self, eng, st, ins, v, taken):
        t = tg(st)
        ev = self.scan_event(eng, st, v, taken)
        if ev is None: return
        end, L, eloc, key = ev
        L = self.base(st, L)
        if self.is_nf(st, L):
            if t['proc'] == 0 and t['cur'] is not None: self.close_in(eng, st, ins)
            if end: settag(st, rel='done' if t['rel'] in ('no', 'ok') else t['rel'])
            else: settag(st, rel_el=eng.load(st, eloc), rem=0, at=eng.frame)
        elif ('d', L) in self.dst and t['proc'] == 1:
            if end: settag(st, pub='done' if t['pub'] in ('no', 'ok') else t['pub'])
            else:
                f = eng.load(st, ('m', eloc, 'std::pair::second')) if eloc[0] == 'ielem' else None
                f = eng.load(st, eng.memloc(st, eloc, 'std::pair::second'), 'Frame *')
                settag(st, pel=(key, f), padd=0, wcon=None, at=eng.frame)

    def on_backedge(self, eng, st, F, head):
        t = tg(st)
        self.close_in(eng, st); self.close_dst(eng, st)
        if t['pel'] is not None or t['rel_el'] is not None:
            if not self.scan_step_ok(eng, st, F, head): settag(st, **({'pub': 'bad'} if t['pel'] is not None else {'rel': 'bad'}))
        self.close_pub(eng, st); self.close_rel(eng, st)

    def on_return(self, eng, st, F, val, ins):
        t = tg(st)
        if (t['pel'] is not None or t['rel_el'] is not None) and t['at'] == eng.frame:
            self.ck(False, 'complete scans', eng, ins, 'a loop over the frames of the round is left early')

    def on_exit_root(self, eng, st, F, val):
        t = tg(st)
        self.close_in(eng, st); self.close_dst(eng, st)
        t = tg(st)
        T = eng.deref(eng.root_this)
        if t['proc']:
            self.ck(t['pub'] == 'done', 'outputs examined after processing', eng, None, 'a processed round ends without examining every output slot')
        if t['got'] and t['anynew']:
            self.ck(t['rel'] == 'done', 'announced frames are released', eng, None, 'a round that announced new frames ends without releasing them: the stream stalls')
        per = eng.load(st, ('m', T, PERIODIC), 'bool')
        self.ck(t['selfp'] or eng.truth(st, per) is False, 'a periodic filter schedules itself again', eng, None, 'a periodic filter ends its round without asking to be scheduled again')


def has_atoms(v):
    out = []
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 5 and x[0] == 'op' and x[1] == 'has': out.append(x)
            for y in x: walk(y)
    walk(v)
    return out


def run(rep, P, tier):
    Fs = [F for F in P.funcs.values() if F.short == 'processFrame' and P.isa(F.cls or '', 'Runnable')]
    rep.floor('processing rounds', len(Fs), 1)
    REG = dict(P.enums['FilterRole']['values'])['REGULAR']
    rel = relevant(P)
    seen = set()
    for F in Fs:
        nf, dst = set(), set()
        for passno in (0, 1):
            r = rep if passno else Null(rep)
            cl = Cl(r, F, nf, dst)
            cl.REG, cl.rel = REG, rel
            eng = Engine(P, cl)
            this = ('sym', 'this', F.cls); eng.atype[this] = F.cls + ' *'
            eng.root_this = this
            eng.run(F, this)
        seen |= cl.seen
        rep.funcs |= set(eng.visited_funcs)
        rep.stats[F.name] = {'steps': eng.steps, 'joins': eng.joins}
    need = ['every new frame is announced', 'every announced frame is released', 'every filled frame is published', 'only filled frames are published', 'slot handed out unmarked', 'a regular filter processes only new input', 'announced frames are released', 'enabled tasks are reported']
    rep.floor('round obligations reached', len([n for n in need if n in seen]), len(need))


PROTO = ('Reader::getFrame', 'Reader::removeFrame', 'Writer::getFrame', 'Writer::addFrame', 'Frame::setConsumed', 'Frame::getConsumed')


def relevant(P):
    callers, base = {}, set()
    for F in P.funcs.values():
        for e in F.ins.values():
            if e['op'] in ('call', 'ctor') and 'callee' in e:
                if e.get('fn') in PROTO or e.get('fn', '').endswith('::runDoProcessFrame'): base.add(F.id)
                for H in P.resolve(e['callee'], e.get('virt')): callers.setdefault(H.id, set()).add(F.id)
            if e['op'] == 'member' and e['cls'] + '::' + e['f'] == CONS: base.add(F.id)
    work, seen = list(base), set(base)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in seen: seen.add(c); work.append(c)
    return seen


class Null:
    def __init__(self, rep): self.P = rep.P
    def check(self, ok, *a): return ok
