"""E01: a control event is carried out or refused as a whole, once, when it is due, and never brings the server down."""
from ..engine import Engine, Client, State
from ..lin import C, add, sub, mulc, mentions
from ..scan import Scan
from ..rat import same, op
from ..facts import AnalysisBroken

RULE = ('path analysis of every event handler (found through the event tables, helpers inlined): parameters are dereferenced only where they were proved present; on every path that refuses the event, also by an exception '
        'raised on a parameter of the wrong type, nothing that outlives the handler was written; a path that accepts it wrote or delivered something. Exception effects: every operation that can raise on the content of a message is proved '
        'guarded by a presence and type test of that same node and key, or enclosed by a handler on every call chain. Event queue: per event one dispatch of its own action with its own parameters and one removal, only when due, oldest first')
LEVEL = 'other'
ASSUME = ['handlers run one at a time (C01)', 'external codec, network and device libraries do not raise C++ exceptions', 'memory is not exhausted']

MUT = {'insert', 'emplace', 'push_back', 'push', 'push_front', 'pop', 'pop_back', 'pop_front', 'clear', 'resize', 'emplace_back', 'swap', 'assign', 'erase', 'operator=', 'operator+=', 'append'}
CONTAINED = ('...', 'std::exception', 'std::logic_error')
# conversions and the predicates that make them safe
NEEDS = {'ToInt': ('IsNumber', 'IsNull'), 'ToFloat': ('IsNumber', 'IsNull'), 'ToDouble': ('IsNumber', 'IsNull'), 'ToBool': ('IsBool', 'IsNull'),
         'ToString': ('IsValue', 'IsString', 'IsNumber', 'IsBool', 'IsNull'), 'AsArray': ('IsArray',), 'AsObject': ('IsObject',), 'AsValue': ('IsValue', 'IsString', 'IsNumber', 'IsBool', 'IsNull')}
PREDS = {'IsNumber', 'IsNull', 'IsBool', 'IsString', 'IsValue', 'IsArray', 'IsObject'}
STO = ('std::stoi', 'std::stol', 'std::stoul', 'std::stoull', 'std::stoll', 'std::stof', 'std::stod')
# refusing is releasing the device there: the state machine of the device is what a refusal is judged by, not its fields
DEVICE = ('V4LCapture', 'HeadDemuxerLibav')


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def contained(ins):
    return any(any(c in h for c in CONTAINED) for h in ins.get('try', ()))


def root_of(L):
    """'this' when the location outlives the handler, 'local' otherwise"""
    n = 0
    while n < 60:
        n += 1
        if L[0] in ('m', 'i'): L = L[1]; continue
        if L[0] == 'd':
            p = L[1]
            if p[0] in ('addr',): L = p[1]; continue
            if p[0] == 'init': L = p[1]; continue
            if p[0] in ('new', 'tmpobj', 'obj', 'str'): return 'local'
            if p[0] == 'arg': return 'param'
            if p[0] == 'sym': return 'this'
            if p[0] in ('ret', 'pcall', 'itp', 'jnode'): return 'ret'
            return 'ret'
        if L[0] in ('v', 'tmpobj', 'obj', 'ielem'): return 'local'
        if L[0] == 'iter': L = L[1]; continue
        if L[0] in ('g', 'glob', 'global'): return 'this'
        return 'ret'
    return 'ret'


def byvalue(L):
    """part of the filter itself, not of something of another library it points to"""
    while L[0] in ('m', 'i'): L = L[1]
    return L[0] == 'd' and L[1][0] == 'sym'


class Jz:
    """names of JSON nodes and what the path proved about them"""

    def jcall(self, eng, st, ins, fn, obj, args):
        short = fn.rsplit('::', 1)[-1]
        if not fn.startswith('Jzon::'): return NotImplemented
        cls = ins.get('cls') or ''
        if cls in ('Jzon::Writer', 'Jzon::Parser', 'Jzon::StandardWriter', 'Jzon::FileWriter'): return NotImplemented
        if ins['op'] == 'ctor': return NotImplemented
        L = obj[1] if obj is not None and obj[0] == 'lv' else ('x', obj)
        if short in ("Has", "Get") and args:
            k = eng.rvalue(st, args[0])
            if k[0] == 'copyof': k = eng.load(st, k[1])
            k = ('k', k[1]) if k[0] == 'str' else ('k?', k)
            if self.isobj(eng, st, ins, L) is not True and not cls.endswith('Object'):
                self.raises(eng, st, ins, '%s on a node that may not be an object' % short)
                st.facts = st.facts | {('ge', add(self.pred('IsObject', L), C(-1)))}
            h = self.pred(('has', k), L); eng.dom.nonneg.add(h)
            if short == 'Has':
                eng.note_type(h, 'bool'); return h
            if eng.truth(st, h) is not True: self.raises(eng, st, ins, 'Get of a parameter that may be missing')
            st.facts = st.facts | {('ge', add(h, C(-1)))}
            return ('lv', ('jget', L, k))
        if short in PREDS:
            if short == 'IsObject' and cls.endswith('Object'): return C(1)
            v = self.pred(short, L); eng.dom.nonneg.add(v); eng.note_type(v, 'bool')
            return v
        if short in NEEDS:
            if not any(eng.truth(st, self.pred(p, L)) is True for p in NEEDS[short]) and not (short == 'AsObject' and cls.endswith('Object')) and not (short == 'AsArray' and cls.endswith('Array')):
                self.raises(eng, st, ins, '%s of a parameter that may be of another type' % short)
            if short.startswith('As'):
                st.facts = st.facts | {('ge', add(self.pred('Is' + short[2:], L), C(-1)))}
                return ('lv', L)
            v = ('jval', short, L); eng.note_type(v, ins.get('t'))
            return v
        return NotImplemented

    def pred(self, p, L): return ('jis', p, L)

    def isobj(self, eng, st, ins, L):
        return eng.truth(st, self.pred('IsObject', L))


class Handler(Jz, Scan):
    K = 40
    max_depth = 9
    max_steps = 200000

    def __init__(self, rep, F0, device):
        super().__init__()
        self.rep, self.F0, self.device = rep, F0, device
        self.acc = self.ref = 0
        self.w0 = '%s:%d' % (F0.file, F0.line)

    def init(self): return tuple(sorted(dict(dirty=None).items()))

    def inline(self, eng, st, G, ins):
        return not self.device and not G.name.startswith(('Jzon::', 'utils::', 'Event::')) and G.short not in ('pushEvent',)

    def raises(self, eng, st, ins, what):
        d = tg(st)['dirty']
        self.rep.check(d is None or self.device, 'a refused event changes nothing', '%s' % self.F0.name, eng.where(ins),
                       '%s: %s after %s was changed: the event is refused half done' % (self.F0.name, what, d))

    def dirty(self, st, what):
        if tg(st)['dirty'] is None: settag(st, dirty=what)

    def on_deref(self, eng, st, ins, p):
        if p == self.par:
            self.rep.check(eng.truth(st, p) is True, 'missing parameters are refused', self.F0.name, eng.where(ins), '%s uses the parameters of an event that may have none' % self.F0.name)

    def on_store(self, eng, st, ins, L, v):
        if root_of(L) in ('this', 'ret') and self.locname(L) != 'state' and not (L[0] == 'd' and L[1] == self.par):
            old = st.store.get(L)
            if old is not None and old == v: return
            self.dirty(st, self.locname(L))

    def locname(self, L):
        n = 0
        while L[0] in ('i', 'd') and n < 9:
            L = L[1]; n += 1
            if L[0] == 'init': L = L[1]
        return L[2].split('::')[-1] if L[0] == 'm' else 'state'

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        r = self.jcall(eng, st, ins, fn, obj, args)
        if r is not NotImplemented: return r
        short = fn.rsplit('::', 1)[-1]
        cls = ins.get('cls') or ''
        if fn in STO:
            self.raises(eng, st, ins, '%s of a text that may be no number' % short)
            return NotImplemented
        if obj is not None and obj[0] == 'lv' and root_of(obj[1]) == 'this' and not ins.get('static'):
            L = obj[1]
            if cls.startswith('std::') and short in MUT:
                self.dirty(st, self.locname(L))
            elif cls in ('std::map', 'std::unordered_map') and short == 'operator[]':
                k = eng.num(eng.rvalue(st, args[0]))
                has = ('op', 'has', L, (eng.ver(st, L), None), k)
                if k[0] == 'jval' and not eng.ent_ge(st, add(has, C(-1))): self.dirty(st, self.locname(L))
            elif not cands and byvalue(L) and not ins.get('const') and not cls.startswith(('std::', '__gnu')) and not fn.startswith('Jzon'):
                self.dirty(st, self.locname(L))
        if short == 'pushEvent' or (not cands and cls == '' and ins['op'] == 'call' and fn and not fn.startswith(('std::', '__', 'str', 'mem', 'av_get')) and False):
            self.dirty(st, 'another filter')
        return NotImplemented

    def on_exit_root(self, eng, st, G, val):
        d = tg(st)['dirty']
        r = eng.truth(st, val)
        if r is not True:
            self.ref += 1
            self.rep.check(d is None or self.device or (r is None and self.unknown_ok(eng, st, val)), 'a refused event changes nothing', G.name, self.w0, '%s refuses the event on a path that already changed %s' % (G.name, d))
        if r is True:
            self.acc += 1
            self.rep.check(d is not None or self.device, 'an accepted event has an effect', G.name, self.w0, '%s reports success on a path that changed nothing' % G.name)

    def unknown_ok(self, eng, st, val): return False


def handlers(P):
    """(action, handler function) of every event table"""
    out = []
    for G in P.funcs.values():
        keys, fns = {}, {}
        for i, e in sorted(G.ins.items()):
            if e['op'] == 'ctor' and e.get('cls') == 'std::basic_string' and e['args']:
                x = G.ins.get(e['args'][0])
                while x is not None and x['op'] in ('decay', 'pass', 'cast', 'load'): x = G.ins.get(x['a'])
                if x is not None and x['op'] == 'str': keys[i] = x['v']
            if e['op'] == 'call' and e.get('fn') == 'std::function::operator=' and 'obj' in e:
                m = strip(G, e['obj'])
                if m is None or m['op'] != 'call' or m.get('fn') not in ('std::map::operator[]', 'std::unordered_map::operator[]'): continue
                b = strip(G, m['obj'])
                if b is None or b['op'] != 'member' or b['f'] != 'eventMap': continue
                k = strip(G, m['args'][0])
                key = lit(G, k)
                f = handler_fn(P, G, e['args'][0])
                out.append((G.cls, key, f, G))
    return out


def strip(G, i):
    x = G.ins.get(i)
    n = 0
    while x is not None and x['op'] in ('decay', 'pass', 'cast', 'load', 'addr') and n < 20: x = G.ins.get(x['a']); n += 1
    return x


def lit(G, x):
    n = 0
    while x is not None and n < 20:
        n += 1
        if x['op'] == 'str': return x['v']
        if x['op'] == 'ctor' and x['args']: x = strip(G, x['args'][0]); continue
        if x['op'] in ('decay', 'pass', 'cast', 'load'): x = G.ins.get(x['a']); continue
        return None
    return None


def handler_fn(P, G, i):
    """function an expression std::bind(&C::f, this, _1) or a lambda refers to"""
    work, seen = [i], set()
    while work:
        j = work.pop()
        if j in seen: continue
        seen.add(j)
        e = G.ins.get(j)
        if e is None: continue
        if e['op'] == 'fnaddr':
            c = [F for F in P.funcs.values() if F.name == e['fn']]
            if c: return c[0]
        if e['op'] == 'lambda' and e.get('fn') in P.funcs: return P.funcs[e['fn']]
        for k in ('a', 'b', 'obj'):
            if isinstance(e.get(k), int): work.append(e[k])
        work += [x for x in e.get('args', ()) if isinstance(x, int)]
    return None


def run_handlers(rep, P):
    hs = handlers(P)
    n = acc = 0
    for cls, key, F, G in sorted(hs, key=lambda h: (h[0] or '', h[1] or '')):
        rep.check(F is not None, 'every registered action has a handler', '%s: %s' % (cls, key), '%s:%d' % (G.file, G.line), 'no handler found for action %s of %s' % (key, cls))
        if F is None: continue
        n += 1
        rep.funcs.add(F.name)
        cl = Handler(rep, F, P and F.cls in DEVICE)
        eng = Engine(P, cl)
        idx = next((i for i, p in enumerate(F.params) if 'Jzon::Node' in p['t']), None)
        if idx is None: raise AnalysisBroken('handler %s takes no parameters node' % F.name)
        cl.par = ('arg', F.params[idx]['name'] or str(idx), idx)
        eng.run(F)
        rep.stats[F.name] = {'steps': eng.steps, 'accepting paths': cl.acc, 'refusing paths': cl.ref}
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        acc += bool(cl.acc)
    rep.floor('event handlers', n, 20)
    rep.floor('handlers with an accepting path', acc, 18)


# ---------------------------------------------------------------- dispatch
class Dispatch(Scan):
    K = 60
    max_depth = 6

    def __init__(self, rep, F0, qdriven):
        super().__init__()
        self.rep, self.F0, self.q = rep, F0, qdriven
        self.execs = self.pops = 0
        self.w0 = '%s:%d' % (F0.file, F0.line)

    def init(self): return tuple(sorted(dict(cur=None, n=0, pop=0, wrong=False, act=None, emp=None, due=()).items()))

    def inline(self, eng, st, G, ins): return not G.name.startswith('Jzon::')

    def ev(self, eng, st, L):
        v = st.store.get(L)
        n = 0
        while v is not None and v[0] == 'copyof' and n < 5: L = v[1]; v = st.store.get(L); n += 1
        return L

    def isq(self, L): return L[0] == 'm' and L[2] == 'BaseFilter::eventQueue'

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.rsplit('::', 1)[-1]
        t = tg(st)
        if fn == 'Event::getAction':
            e = self.ev(eng, st, obj[1]); settag(st, act=('evact', e), cur=t['cur'] or e)
            return ('evact', e)
        if fn == 'Event::getParams':
            return eng.note_type(('evpar', self.ev(eng, st, obj[1])), 'Jzon::Node *')
        if fn == 'Event::canBeExecuted':
            e = self.ev(eng, st, obj[1]); v = ('evdue', e)
            eng.dom.nonneg.add(v); eng.note_type(v, 'bool')
            now = eng.rvalue(st, args[0])
            self.rep.check('::now' in repr(now) or now[0] == 'ret', 'events wait for their delay', self.F0.name + ': asked at the present time', eng.where(ins), 'whether an event is due is not asked at the present time')
            return v
        if short == 'empty' and obj is not None and (ins.get('cls') or '') == 'std::basic_string':
            v = eng.rvalue(st, obj)
            if v[0] == 'evact':
                r = ('noact', v); eng.dom.nonneg.add(r); eng.note_type(r, 'bool'); return r
        if obj is not None and obj[0] == 'lv' and self.isq(obj[1]) and short == 'top':
            self.rep.check(t['pop'] == 0, 'no event is lost', self.F0.name, eng.where(ins), '%s takes the event after the one it removed' % self.F0.name)
        if obj is not None and obj[0] == 'lv' and self.isq(obj[1]) and short in ('pop', 'push', 'emplace'):
            if short == 'pop':
                self.pops += 1
                settag(st, pop=min(2, t['pop'] + 1))
            return NotImplemented
        if (ins.get('cls') or '') == 'std::function' and short == 'operator()' and obj is not None and obj[0] == 'lv':
            L = obj[1]
            if not (L[0] == 'i' and L[1][0] == 'm' and L[1][2].endswith('::eventMap')): return NotImplemented
            self.execs += 1
            w = eng.where(ins)
            n = self.F0.name
            k = L[2]
            self.rep.check(k[0] == 'evact', 'an event runs its own action', n, w, '%s runs a handler that is not the one of the action of the event' % n)
            a = eng.rvalue(st, args[0]) if args else ('?',)
            self.rep.check(a[0] == 'evpar' and k[0] == 'evact' and a[1] == k[1], 'an event runs with its own parameters', n, w, '%s runs the action of an event with other parameters than those of that event' % n)
            has = ('op', 'has', L[1], (eng.ver(st, L[1]), None), k)
            self.rep.check(eng.ent_ge(st, add(has, C(-1))), 'unknown actions are refused', n, w, '%s calls the handler of an action that is not in the event table' % n)
            self.rep.check(contained(ins), 'a wrong parameter is refused', n, w, '%s lets an exception raised by the parameters of an event escape' % n)
            if self.q:
                self.rep.check(any(eng.truth(st, ('evdue', d)) is True for d in ([k[1]] if k[0] == 'evact' else [])), 'events wait for their delay', n, w, '%s runs an event that was not found to be due' % n)
            self.rep.check(t['n'] == 0, 'an event runs once', n, w, '%s runs an event twice' % n)
            settag(st, n=min(2, t['n'] + 1))
            v = eng.fresh(st, ins); eng.note_type(v, 'bool')
            return v
        if (ins.get('cls') or '') in ('std::map', 'std::unordered_map') and short == 'operator[]' and obj is not None and obj[0] == 'lv' and obj[1][0] == 'm' and obj[1][2].endswith('::eventMap'):
            k = eng.rvalue(st, args[0])
            has = ('op', 'has', obj[1], (eng.ver(st, obj[1]), None), k)
            self.rep.check(eng.ent_ge(st, add(has, C(-1))), 'unknown actions are refused', self.F0.name, eng.where(ins), '%s looks up the handler of an action that is not in the event table' % self.F0.name)
        return NotImplemented

    def on_branch(self, eng, st, ins, v, taken):
        t = tg(st)
        if t['act'] is None: return
        if eng.truth(st, ('noact', t['act'])) is True: settag(st, wrong=True)
        for f in (v, ) + tuple(x for x in v if isinstance(x, tuple)):
            h = self.has_in(f, t['act'])
            if h is not None and eng.truth(st, h) is False: settag(st, wrong=True)

    def has_in(self, v, act):
        if not isinstance(v, tuple): return None
        if len(v) == 5 and v[:2] == ('op', 'has') and v[4] == act: return v
        for x in v:
            r = self.has_in(x, act)
            if r is not None: return r
        return None

    def judge(self, st, w):
        t = tg(st)
        n = self.F0.name
        self.rep.check(t['pop'] == 0 or t['n'] == 1 or t['wrong'], 'no event is lost', n, w, '%s removes an event that was neither dispatched nor refused' % n)
        if t['cur'] is None: return
        self.rep.check(t['n'] == 1 or t['wrong'], 'every due event is dispatched', n, w, '%s passes over an event with a known action' % n)
        if self.q: self.rep.check(t['pop'] == 1, 'an event runs once', n, w, '%s does not remove exactly one event for each one it handled' % n)

    def on_backedge(self, eng, st, G, head):
        if G is not self.F0: return
        self.judge(st, self.w0)
        st.client = self.init()

    def on_exit_root(self, eng, st, G, val): self.judge(st, self.w0)


class Small(Scan):
    """leaf functions of the event queue"""
    K = 40

    def __init__(self, rep, F0): super().__init__(); self.rep, self.F0 = rep, F0
    def inline(self, eng, st, G, ins): return not G.name.startswith('Jzon::')


class Due(Small):
    def on_exit_root(self, eng, st, G, val):
        this = ('d', ('sym', 'this', 'Event'))
        now = ('arg', G.params[0]['name'], 0)
        now = eng.num(now)
        ts = eng.num(eng.load(st, ('m', this, 'Event::timestamp'), 'std::chrono::time_point'))
        d = eng.num(eng.load(st, ('m', this, 'Event::delay'), 'std::chrono::duration'))
        for tr in (True, False):
            s = st.copy()
            s = eng.assume(s, val, tr)
            if s is None: continue
            lim = add(ts, mulc(d, 1000000))
            ok = eng.ent_le(s, lim, now) if tr else eng.ent_lt(s, now, lim)
            self.rep.check(ok, 'events wait for their delay', G.name, '%s:%d' % (G.file, G.line), '%s does not say exactly whether the delay of the event has elapsed since it was issued' % G.name)


class Older(Small):
    def on_exit_root(self, eng, st, G, val):
        this = ('d', ('sym', 'this', 'Event'))
        a = eng.num(eng.load(st, ('m', this, 'Event::timestamp'), 'std::chrono::time_point'))
        b = eng.num(eng.load(st, ('m', ('d', ('argp', G.params[0]['name'], 0)), 'Event::timestamp'), 'std::chrono::time_point'))
        for tr in (True, False):
            s = eng.assume(st.copy(), val, tr)
            if s is None: continue
            ok = eng.ent_lt(s, b, a) if tr else eng.ent_le(s, a, b)
            self.rep.check(ok, 'events run in the order they were issued', G.name, '%s:%d' % (G.file, G.line), '%s does not order events by the time they were issued, oldest first' % G.name)


class Made(Small):
    def on_exit_root(self, eng, st, G, val):
        this = ('d', ('sym', 'this', 'Event'))
        w = '%s:%d' % (G.file, G.line)
        for i, f in ((1, 'timestamp'), (2, 'delay')):
            v = st.store.get(('m', this, 'Event::' + f))
            k = 1
            ok = v is not None and mentions(eng.num(v), ('arg', G.params[i]['name'], i)) and same_arg(eng, st, v, ('arg', G.params[i]['name'], i))
            self.rep.check(ok, 'events keep what they were issued with', '%s: %s' % (G.name, f), w, 'an event does not keep the %s it was issued with' % f)
        v = st.store.get(('m', this, 'Event::inputRootNode'))
        self.rep.check(v is not None and v[0] == 'new', 'events keep what they were issued with', G.name + ': content', w, 'an event does not keep its own copy of its content')


def same_arg(eng, st, v, a):
    v = eng.num(v)
    return v == a or eng.ent_eq(st, v, a) or v == ('copyof', a)


class Push(Small):
    def init(self): return tuple(sorted(dict(n=0).items()))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        short = fn.rsplit('::', 1)[-1]
        if obj is not None and obj[0] == 'lv' and obj[1][0] == 'm' and obj[1][2] == 'BaseFilter::eventQueue' and short in ('push', 'emplace'):
            settag(st, n=min(2, tg(st)['n'] + 1))
        elif obj is not None and obj[0] == 'lv' and obj[1][0] == 'm' and obj[1][2] == 'BaseFilter::eventQueue' and short in ('pop',):
            settag(st, n=2)
        return NotImplemented

    def on_exit_root(self, eng, st, G, val):
        self.rep.check(tg(st)['n'] == 1, 'no event is lost', G.name, '%s:%d' % (G.file, G.line), '%s does not queue the event exactly once' % G.name)


def one(P, name):
    c = P.fn(name)
    if not c: raise AnalysisBroken('no function %s' % name)
    return c


def run_dispatch(rep, P):
    n = 0
    roots = [F for nm in ('BaseFilter::processEvent', 'HeadFilter::pushEvent', 'TailFilter::pushEvent') for F in one(P, nm)]
    for F in roots:
        cl = Dispatch(rep, F, F.short == 'processEvent')
        eng = Engine(P, cl)
        eng.run(F)
        rep.stats[F.name] = {'steps': eng.steps, 'dispatches': cl.execs, 'removals': cl.pops}
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        n += bool(cl.execs)
    rep.floor('dispatching functions', n, 3)
    for nm, K in (('Event::canBeExecuted', Due), ('Event::operator<', Older), ('Event::Event', Made), ('BaseFilter::pushEvent', Push)):
        for F in one(P, nm):
            if F.implicit or (nm == 'Event::Event' and len(F.params) < 2): continue
            rep.funcs.add(F.name)
            eng = Engine(P, K(rep, F))
            st = State(); st.client = eng.cl.init()
            if K is Due:        # an event is not looked at before it was issued
                st.facts = st.facts | {('ge', sub(('arg', F.params[0]['name'], 0), ('init', ('m', ('d', ('sym', 'this', 'Event')), 'Event::timestamp'), 0)))}
            eng.run(F, st=st)


# ---------------------------------------------------------------- exception effects
class Sites(Jz, Scan):
    """operations of one function that can raise on the content of a message"""
    K = 60
    max_steps = 60000

    def __init__(self): super().__init__(); self.sites = {}
    def inline(self, eng, st, G, ins): return False

    def raises(self, eng, st, ins, what):
        if not contained(ins): self.sites[(ins['i'])] = (what, ins.get('l'))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn in STO: self.raises(eng, st, ins, '%s of a text that may be no number' % fn)
        return self.jcall(eng, st, ins, fn, obj, args)


RAISERS = {'Has', 'Get'} | set(NEEDS)


def may_raise(F):
    for e in F.ins.values():
        if e['op'] == 'call':
            fn = e.get('fn', '')
            if fn in STO or (fn.startswith('Jzon::') and fn.rsplit('::', 1)[-1] in RAISERS): return True
            if fn.endswith('::at') and (e.get('cls') or '').startswith('std::'): return True
        if e['op'] == 'throw': return True
    return False


def run_escape(rep, P):
    hs = {F.id for _, _, F, _ in handlers(P) if F is not None}
    src = {}
    looked = 0
    for F in sorted(P.funcs.values(), key=lambda f: f.name):
        if F.name.startswith('Jzon::') or not may_raise(F): continue
        looked += 1
        rep.funcs.add(F.name)
        cl = Sites()
        Engine(P, cl).run(F)
        for i, e in F.ins.items():
            if e['op'] == 'throw' and not contained(e): cl.sites[i] = ('throw', e.get('l'))
            if e['op'] == 'call' and e.get('fn', '').endswith('::at') and (e.get('cls') or '').startswith('std::') and not contained(e): cl.sites[i] = ('at()', e.get('l'))
        # a constructor of a JSON container from a node of unknown type
        for i, e in F.ins.items():
            if e['op'] == 'ctor' and e.get('fn') in ('Jzon::Object::Object', 'Jzon::Array::Array') and (e.get('pt') or [''])[0].find('Jzon::Node') >= 0 and not contained(e):
                cl.sites[i] = ('conversion of a node of another type', e.get('l'))
        rep.ob('what a message can raise is contained', F.name, '%s:%d' % (F.file, F.line))
        if cl.sites: src[F.id] = sorted(cl.sites.values(), key=str)[0]
    callers, called = {}, set()
    for G in P.funcs.values():
        for e in G.ins.values():
            if e['op'] not in ('call', 'ctor'): continue
            if 'callee' in e: called |= {H.id for H in P.resolve(e['callee'], e.get('virt'))}
            if contained(e): continue
            if 'callee' in e:
                for H in P.resolve(e['callee'], e.get('virt')): callers.setdefault(H.id, set()).add(G.id)
            if e.get('fn') == 'std::function::operator()' and P.isa(G.cls or '', 'BaseFilter'):
                for h in hs: callers.setdefault(h, set()).add(G.id)
    for f, (what, line) in sorted(src.items(), key=lambda x: P.funcs[x[0]].name):
        seen, work = {f: None}, [f]
        bad = None
        while work:
            x = work.pop()
            c = callers.get(x, ())
            F = P.funcs[x]
            if not c and x not in hs and x not in called: bad = x; break
            for y in c:
                if y not in seen and not P.funcs[y].name.startswith('Jzon::'): seen[y] = x; work.append(y)
        if bad is not None:
            path, y = [], bad
            while y is not None: path.append(P.funcs[y].name); y = seen[y]
            F = P.funcs[f]
            rep.check(False, 'what a message can raise is contained', F.name, '%s:%s' % (F.file, line), '%s: %s raises an exception nobody handles (%s)' % (F.name, what, ' -> '.join(path)))
    rep.floor('functions that read messages', looked, 20)


def run(rep, P, tier):
    run_handlers(rep, P)
    run_dispatch(rep, P)
    run_escape(rep, P)
