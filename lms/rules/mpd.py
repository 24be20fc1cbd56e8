"""D04: the manifest lists exactly the announced segments and its templates name the files written."""
from ..engine import Engine, State, Client
from ..lin import C, add, sub, atoms
from ..facts import AnalysisBroken
from ..scan import Scan
from .dash import Strings, Narrow, parts, joined, template, nocast, method, tg, settag, run_disp

RULE = "symbolic evaluation of the manifest writer into a tree of nodes judged per loop round; names written = templates instantiated; window bounds per path"

NODE = 'tinyxml2::'


def member(v):
    """name of the member a value is read from"""
    v = nocast(v)
    if v[0] in ('init', 'objv', 'copyof') and v[1][0] == 'm': return v[1][2].split('::')[1]
    return None


def text_of(v):
    """what an attribute says: member names, numbers, literals"""
    r = []
    for x in joined(parts(v)):
        if isinstance(x, str): r.append(x)
        elif x[0] == 'num': r.append(('val', x[1]))
        elif member(x) and nocast(x)[1][1][0] == 'd' and nocast(x)[1][1][1][:2] == ('sym', 'this'): r.append(('mem', member(x)))
        else: r.append(('val', nocast(x)))
    return tuple(r)


class Null:
    """collects nothing"""
    def __init__(self): self.stats, self.funcs = {}, set()
    def check(self, *a): pass
    def ob(self, *a): pass
    def floor(self, *a): pass


# ---------------------------------------------------------------- trees
class Tree(Strings, Scan):
    """facts about the nodes of the document: name, attributes, parent; nodes made in a round of a loop are judged at its end"""
    def __init__(self, rep, tag, want, shown=()):
        super().__init__()
        Scan.__init__(self)
        self.rep, self.tag, self.want, self.shown = rep, tag, want, shown
        self.exits, self.rounds = [], {}
        self.saved = 0

    def init(self): return tuple(sorted(dict(nodes=(), attr=(), par=(), it=(), done=(), mpd=(), rev=False, saved=0).items()))

    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file and not G.file.endswith('.c') and G.name.split('::')[-1] != 'toMpd'

    def ck(self, ok, rule, w, text): self.rep.check(ok, rule, self.tag, w, '%s: %s' % (self.tag, text))

    def node(self, v):
        if v[0] == 'copyof': return ('doc', v[1])
        if v[0] == 'addr': return ('doc', v[1])
        if v[0] == 'lv': v = v[1]
        if v[0] == 'd': v = v[1]
        while v[0] == 'hv' and v[2][0] == 'v': return ('var', v[2])
        if v[0] == 'init' and v[1][0] == 'd' and v[1][1][0] == 'argp': return v[1][1]
        return v

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        r = self.text(eng, st, fn, obj, args)
        if r is not NotImplemented: return r
        short = fn.split('::')[-1]
        t = tg(st)
        w = eng.where(ins)
        A = lambda i: eng.rvalue(st, args[i])
        S = lambda i: self.str(eng, st, args[i])
        if fn.startswith(NODE):
            o = self.node(obj) if obj is not None else None
            if short == 'NewElement':
                v = eng.fresh(st, ins)
                settag(st, nodes=tuple(x for x in t['nodes'] if x[0] != v) + ((v, text_of(S(0)), w),), attr=tuple(x for x in t['attr'] if x[0] != v), par=tuple(x for x in t['par'] if x[0] != v))
                return v
            if short in ('SetAttribute', 'SetText'):
                k = text_of(S(0)) if short == 'SetAttribute' else ('#text',)
                x = text_of(S(1) if short == 'SetAttribute' else S(0))
                settag(st, attr=tuple(y for y in t['attr'] if (y[0], y[1]) != (o, k)) + ((o, k, x),))
                return C(0)
            if short in ('InsertEndChild', 'InsertFirstChild', 'InsertAfterChild', 'LinkEndChild'):
                c = self.node(A(len(args) - 1))
                settag(st, par=tuple(y for y in t['par'] if y[0] != c) + ((c, o, short, w),))
                return eng.rvalue(st, args[-1])
            if short in ('DeleteChild', 'DeleteChildren', 'Clear', 'DeleteAttribute', 'DeleteNode'):
                self.ck(False, 'the manifest is complete', w, 'nodes are removed again')
            if short == 'SaveFile':
                settag(st, saved=t['saved'] + 1)
                self.at_save(eng, st, o, S(0), w)
                return C(0)
            if short in ('NewText', 'NewComment', 'NewDeclaration'): return eng.fresh(st, ins)
            return NotImplemented
        if short == 'toMpd' and obj is not None:
            e = self.node(A(1))
            settag(st, mpd=t['mpd'] + ((self.node(obj), e, w),))
            return C(0)
        if short in ('rbegin', 'crbegin') and obj is not None and obj[0] == 'lv' and obj[1][0] == 'm' and obj[1][2].endswith('::timestamps'): self.ck(False, 'the timeline is in order', w, 'the timeline is written from the last segment to the first')
        return NotImplemented

    def str(self, eng, st, a):
        v = eng.rvalue(st, a)
        if v[0] == 'copyof': v = eng.load(st, v[1], 'std::string')
        if v[0] == 'lv': v = eng.load(st, v[1], 'std::string')
        return v

    def on_branch(self, eng, st, ins, v, taken):
        r = self.scan_loop(eng, st, v, taken)
        if r is None: return
        end, lp, L, ver, cur = r
        if L[0] == 'v' and isinstance(ver[1], tuple) and ver[1][:1] == ('copyof',): L = ver[1][1]
        t = tg(st)
        it = tuple(x for x in t['it'] if x[0] != lp)
        if end: settag(st, it=it, done=tuple(sorted(set(t['done']) | {self.cont(L)})))
        else: settag(st, it=it + ((lp, L, cur, tuple(x[0] for x in t['nodes'])),))

    def cont(self, L): return L[2].split('::')[1] if L[0] == 'm' else repr(L)

    def on_loop_enter(self, eng, st, F, h):
        Scan.on_loop_enter(self, eng, st, F, h)
        f, t = eng.frame, tg(st)
        it = tuple(x for x in t['it'] if f == x[0][1] and h in F.loops[x[0][2]] or f != x[0][1] and f.startswith(x[0][1] + '/'))
        if it != t['it']: settag(st, it=it)

    def on_backedge(self, eng, st, F, h):
        lp = ('lp', eng.frame, h)
        t = tg(st)
        e = next((x for x in t['it'] if x[0] == lp), None)
        if e is None: return
        if e[2][0] == 'idx': self.ck(self.scan_step_ok(eng, st, F, h), 'the manifest is complete', '%s:%d' % (F.file, F.line), 'the loop may skip entries')
        new = [x for x in t['nodes'] if x[0] not in e[3]]
        c = self.cont(e[1])
        self.rounds[c] = self.rounds.get(c, 0) + 1
        self.round(eng, st, c, e, new, '%s:%d' % (F.file, F.line))
        gone = {x[0] for x in new}
        settag(st, it=tuple(x for x in t['it'] if x[0] != lp), nodes=tuple(x for x in t['nodes'] if x[0] not in gone), attr=tuple(x for x in t['attr'] if x[0] not in gone), par=tuple(x for x in t['par'] if x[0] not in gone), mpd=())

    def attrs(self, t, n): return {''.join(x for x in k if isinstance(x, str)): v for o, k, v in t['attr'] if o == n}

    def name(self, t, n): return next((''.join(x for x in nm if isinstance(x, str)) for m, nm, w in t['nodes'] if m == n), 'the element given' if n[0] == 'argp' else '?')

    def parent(self, t, n): return next((p for c, p, how, w in t['par'] if c == n), None)

    def round(self, eng, st, c, e, new, w):
        t = tg(st)
        el, what, attrs, par = self.want.get(c, (None,) * 4)
        if el is None: return
        mine = [x for x in new if self.name(t, x[0]) == el]
        self.ck(len(mine) == 1, 'the manifest is complete', w, 'not exactly one %s is written for %s' % (el, what))
        for n, nm, w1 in mine:
            a = self.attrs(t, n)
            for k in sorted(attrs):
                x = a.get(k)
                self.ck(x is not None and len(x) == 1 and not isinstance(x[0], str) and attrs[k](eng, st, e, x[0]), 'entries say what they list', w1, 'attribute %s of %s is not that of %s' % (k, el, what))
            self.below(eng, st, t, c, e, n, w1)
            p = self.parent(t, n)
            self.ck(p is not None and self.name(t, p) == par, 'the manifest is complete', w1, '%s is not put into %s' % (el, par))
            how = next((h for cc, pp, h, ww in t['par'] if cc == n), None)
            if c == 'timestamps': self.ck(how in ('InsertEndChild', 'LinkEndChild'), 'the timeline is in order', w1, 'segments are not appended to the timeline in their order')
            if c == 'adaptationSets':
                m = [x for x in t['mpd'] if same_node(x[1], n, eng, st)]
                self.ck(len(t['mpd']) == 1 and len(m) == 1, 'the manifest is complete', w1, 'the adaptation set is not written exactly once into its own element')
                for o, x, w2 in t['mpd']: self.ck(o[0] == 'init' and o[1][0] == 'i' and o[1][1] == e[1] and (o[1][2] == ('key', e[2]) or o[1][2] == e[2][-1]), 'entries say what they list', w2, 'another adaptation set is written into the element')

    def below(self, eng, st, t, c, e, n, w):
        if c != 'representations' or not self.shown: return
        for el, k, f in self.shown:
            if el is None: v, at = self.attrs(t, n).get(k), w
            else:
                kids = [m for m, nm, w1 in t['nodes'] if self.name(t, m) == el and self.parent(t, m) == n]
                v, at = (self.attrs(t, kids[0]).get(k) if len(kids) == 1 else None), w
            v = v[0] if v is not None and len(v) == 1 and not isinstance(v[0], str) else None
            v = nocast(v[1]) if v is not None and v[0] == 'val' else None
            ok = v is not None and v[0] in ('init', 'objv', 'copyof') and v[1][0] == 'm' and v[1][2].split('::')[1] == f and self.of_entry(v[1][1], e)
            self.ck(ok, 'entries say what they list', at, 'attribute %s of %s is not the %s of the representation' % (k, el or 'Representation', f))

    def of_entry(self, B, e):
        """B is the object the current entry of the map points to"""
        if B[0] != 'd': return False
        p = nocast(B[1])
        return p[0] == 'init' and (p[1][0] == 'i' and p[1][1] == e[1] and (p[1][2] == ('key', e[2]) or p[1][2] == e[2][-1]) or field_of_elem(p, e, 'second'))

    def at_save(self, eng, st, doc, path, w):
        t = tg(st)
        self.saved += 1
        self.ck('adaptationSets' in t['done'], 'the manifest is complete', w, 'the document is saved before every adaptation set is in it')
        x = joined(parts(path))
        self.ck(len(x) == 1 and not isinstance(x[0], str) and x[0][0] == 'arg', 'the manifest is complete', w, 'the document is saved elsewhere')
        per = next((n for n, nm, w1 in t['nodes'] if self.name(t, n) == 'Period'), None)
        mpd = next((n for n, nm, w1 in t['nodes'] if self.name(t, n) == 'MPD'), None)
        self.ck(per is not None and mpd is not None and self.parent(t, per) == mpd and self.top(self.parent(t, mpd), doc), 'the manifest is complete', w, 'the document saved does not hold the period with the adaptation sets')
        if mpd is not None:
            a = self.attrs(t, mpd)
            self.ck(a.get('type') == ('dynamic',), 'the manifest is complete', w, 'the manifest is not said to be dynamic')
            for k in ('minimumUpdatePeriod', 'timeShiftBufferDepth'): self.ck(a.get(k) == (('mem', k),), 'entries say what they list', w, 'attribute %s of the manifest is not what was configured' % k)

    def top(self, p, doc): return p is not None and p == doc

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def same_node(a, n, eng, st):
    if a == n: return True
    return a[0] in ('doc', 'var') and st.store.get(a[1]) == n


def key_is(eng, st, e, x):
    """x is the key of the current entry"""
    k = x[1] if x[0] == 'val' else None
    if k is None: return False
    k = nocast(k)
    return k == ('key', e[2]) or e[2][0] == 'idx' and field_of_elem(k, e, 'first')


def val_is(eng, st, e, x):
    k = nocast(x[1]) if x[0] == 'val' else None
    if k is None: return False
    return k[0] == 'init' and k[1] == ('i', e[1], ('key', e[2])) or k == eng.load(st, ('i', e[2][1], ('key', e[2])), 'unsigned long') or e[2][0] == 'idx' and field_of_elem(k, e, 'second')


def field_of_elem(k, e, f):
    return k[0] == 'init' and k[1][0] == 'm' and k[1][2].endswith('::' + f) and k[1][1][0] == 'i' and k[1][1][1] == e[1] and k[1][1][2] == e[2][3]


# attribute of the Representation (or of an element in it) -> argument of update*Representation it shows
REPR = {'VideoAdaptationSet': ('Video', ((None, 'codecs', 'codec', 1), (None, 'width', 'width', 2), (None, 'height', 'height', 3), (None, 'bandwidth', 'bandwidth', 4))),
        'AudioAdaptationSet': ('Audio', ((None, 'codecs', 'codec', 1), (None, 'audioSamplingRate', 'sample rate', 2), (None, 'bandwidth', 'bandwidth', 3), ('AudioChannelConfiguration', 'value', 'channel count', 4)))}
SHOWN = {}


def run_tree(rep, P):
    subs = sorted(c for c in P.classes if P.isa(c, 'AdaptationSet') and c != 'AdaptationSet')
    for cls in subs:
        F = method(P, cls, 'toMpd')
        tag = F.name
        want = {'timestamps': ('S', 'a segment of the timeline', dict(t=key_is, d=val_is), 'SegmentTimeline'),
                'representations': ('Representation', 'a representation', dict(id=key_is), 'the element given')}
        cl = Tree(rep, tag, want, SHOWN.get(cls, ()))
        eng = Engine(P, cl)
        st = State(); st.client = cl.init()
        eng.run(F, st=st)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        w = '%s:%d' % (F.file, F.line)
        for s, val in cl.exits:
            t = tg(s)
            for c in ('timestamps', 'representations'): cl.ck(c in t['done'], 'the manifest is complete', w, 'not all %s are written' % c)
            tl = next((n for n, nm, w1 in t['nodes'] if cl.name(t, n) == 'SegmentTimeline'), None)
            tp = next((n for n, nm, w1 in t['nodes'] if cl.name(t, n) == 'SegmentTemplate'), None)
            cl.ck(tl is not None and tp is not None and cl.parent(t, tl) == tp, 'the manifest is complete', w, 'the timeline is not put into the segment template')
            top = cl.parent(t, tp) if tp is not None else None
            cl.ck(top is not None and top[0] == 'argp', 'the manifest is complete', w, 'the segment template is not put into the adaptation set')
            a = cl.attrs(t, tp) if tp is not None else {}
            for k, m in (('timescale', 'timescale'), ('media', 'segTemplate'), ('initialization', 'initTemplate')):
                cl.ck(a.get(k) == (('mem', m),), 'entries say what they list', w, 'attribute %s of the segment template is not the %s of the adaptation set' % (k, m))
        rep.floor('exits of ' + tag, len(cl.exits), 1)
        for c in want: rep.floor('rounds over %s of %s' % (c, cls), cl.rounds.get(c, 0), 1)
    F = P.fn('MpdManager::writeToDisk')
    if not F: raise AnalysisBroken('MpdManager::writeToDisk is gone')
    F = F[0]
    cl = Tree(rep, F.name, {'adaptationSets': ('AdaptationSet', 'an adaptation set', dict(id=key_is), 'Period')})
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    eng.run(F, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    for s, val in cl.exits: cl.ck(tg(s)['saved'] == 1, 'the manifest is complete', '%s:%d' % (F.file, F.line), 'the document is not saved exactly once')
    rep.floor('manifest saved', cl.saved, 1)
    rep.floor('rounds over adaptation sets', cl.rounds.get('adaptationSets', 0), 1)


# ---------------------------------------------------------------- the window
class Window(Strings):
    def __init__(self, rep, tag):
        super().__init__()
        self.rep, self.tag = rep, tag
        self.exits = []
        self.n = 0

    def init(self): return tuple(sorted(dict(pop=(), rep=(), push=(), to=()).items()))

    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file and not G.file.endswith('.c')

    def ck(self, ok, rule, w, text): self.rep.check(ok, rule, self.tag, w, '%s: %s' % (self.tag, text))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        r = self.text(eng, st, fn, obj, args)
        if r is not NotImplemented: return r
        short = fn.split('::')[-1]
        if obj is None or obj[0] not in ('lv', 'copyof'): return NotImplemented
        L = obj[1]
        t = tg(st)
        w = eng.where(ins)
        mine = L[0] == 'm' and L[2] == 'AdaptationSet::timestamps'
        if mine:
            if short in ('pop_front', 'erase'):
                ver = (eng.ver(st, L), None)
                front = True
                if short == 'erase':
                    a = [eng.rvalue(st, x) for x in args]
                    front = len(a) == 1 and a[0][0] == 'iter' and a[0][3] == 'begin'
                self.ck(front, 'the oldest segments leave the window', w, 'other entries than the oldest are removed from the timeline')
                settag(st, pop=t['pop'] + (('op', 'first', L, ver),))
            elif short in ('push_back', 'emplace_back'):
                a = [eng.rvalue(st, x) for x in args]
                if len(a) == 1 and a[0][0] == 'pcall' and len(a[0][3]) == 2: a = list(a[0][3])
                if len(a) == 1 and a[0][0] == 'copyof':
                    v = eng.load(st, a[0][1])
                    if v[0] == 'pcall' and len(v[3]) == 2: a = list(v[3])
                a = [st.store.get(x[1], x) if x[0] == 'copyof' else self.named(x) for x in a]
                settag(st, push=t['push'] + (tuple(a),))
            elif short in ('pop_back', 'push_front', 'emplace_front', 'clear', 'assign', 'resize', 'operator=', 'insert', 'emplace', 'swap'):
                self.ck(False, 'the timeline is in order', w, 'entries are put elsewhere than at the end of the timeline, or removed from it')
        elif short in ('push_back', 'emplace_back') and L[0] == 'v':
            settag(st, rep=t['rep'] + (eng.rvalue(st, args[0]),), to=tuple(sorted(set(t['to']) | {L})))
        return NotImplemented

    def named(self, x):
        """values handed over by forwarding references come back havocked"""
        return x

    def settle(self, eng, st, w):
        t = tg(st)
        ok = len(t['pop']) == len(t['rep']) and all(front_of(r, p) for r, p in zip(t['rep'], t['pop']))
        self.ck(ok, 'what leaves the window is reported', w, 'not exactly the times of the entries removed from the timeline are reported')

    def on_backedge(self, eng, st, F, h):
        if not F.name.startswith('AdaptationSet::'): return
        self.n += 1
        self.settle(eng, st, '%s:%d' % (F.file, F.line))
        self.ck(not tg(st)['push'], 'a segment is listed once', '%s:%d' % (F.file, F.line), 'entries are appended in a loop')
        settag(st, pop=(), rep=())

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def front_of(r, p):
    """r is the time in the entry p"""
    r = nocast(r)
    if r[0] == 'key' and r[1][0] == 'iter' and r[1][3] == 'begin': return (r[1][1], r[1][2]) == (p[2], p[3])
    return r[0] == 'init' and r[1][0] == 'm' and r[1][2].endswith('::first') and r[1][1][0] == 'i' and r[1][1][2] == p or r[0] == 'init' and r[1][0] == 'i' and r[1][2] == p


def run_window(rep, P):
    F = P.fn('AdaptationSet::updateTimestamp')
    if not F: raise AnalysisBroken('AdaptationSet::updateTimestamp is gone')
    F = F[0]
    cl = Window(rep, F.name)
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    A = lambda i: ('arg', F.params[i]['name'], i)
    st.facts = frozenset({('ge', sub(A(2), C(1)))})
    eng.run(F, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    w = '%s:%d' % (F.file, F.line)
    L = ('m', ('d', ('sym', 'this', 'AdaptationSet')), 'AdaptationSet::timestamps')
    for s, val in cl.exits:
        t = tg(s)
        cl.settle(eng, s, w)
        cl.ck(len(t['push']) == 1, 'a segment is listed once', w, 'a segment announced is not appended to the timeline exactly once')
        if t['push']:
            a = t['push'][0]
            cl.ck(len(a) == 2 and nocast(a[0]) == A(0) and nocast(a[1]) == A(1), 'entries say what they list', w, 'time and duration appended to the timeline are not those announced')
        n = ('op', 'size', L, (eng.ver(s, L), None))
        eng.dom.nonneg.add(n)
        cl.ck(eng.ent_le(s, n, A(2)), 'the window is bounded', w, 'the timeline may list more segments than configured')
        tos = set(t['to'])
        if not tos: tos = {val[2]} if val[0] == 'hv' and val[2][0] == 'v' else set()
        cl.ck(val is not None and (val[0] != 'c'), 'what leaves the window is reported', w, 'nothing is returned')
    rep.floor('announcements', len(cl.exits), 1)
    # the manager hands everything on
    G = P.fn('MpdManager::updateAdaptationSetTimestamp')
    if not G: raise AnalysisBroken('MpdManager::updateAdaptationSetTimestamp is gone')
    G = G[0]
    cl = Hand(rep, G.name, 'updateTimestamp')
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    eng.run(G, st=st)
    rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
    w = '%s:%d' % (G.file, G.line)
    B = lambda i: ('arg', G.params[i]['name'], i)
    S = ('m', ('d', ('sym', 'this', 'MpdManager')), 'MpdManager::adaptationSets')
    ms = ('init', ('m', ('d', ('sym', 'this', 'MpdManager')), 'MpdManager::maxSeg'), 0)
    n = 0
    for s, val in cl.exits:
        c = tg(s)['calls']
        if not c:
            gone = any(f[0] == 'eq' and f[1] == ('init', ('i', S, B(0)), 0) or f[0] in ('eq', 'ge') and any(a[0] == 'op' and a[1] == 'has' and a[2] == S for a in atoms(f[1])) and not eng.ent_le(s, C(1), next(a for a in atoms(f[1]) if a[0] == 'op' and a[1] == 'has' and a[2] == S)) for f in s.facts)
            cl.ck(gone, 'a segment is listed once', w, 'a segment announced is not listed though its adaptation set exists')
            continue
        n += 1
        o, a, r, w1 = c[0]
        cl.ck(len(c) == 1, 'a segment is listed once', w1, 'a segment is listed more than once')
        cl.ck(o == ('init', ('i', S, B(0)), 0) or o[0] == 'init' and o[1] == ('i', S, B(0)), 'entries say what they list', w1, 'the segment is listed in another adaptation set')
        cl.ck([nocast(x) for x in a] == [B(1), B(2), ms], 'entries say what they list', w1, 'time, duration or the size of the window are not those given')
        cl.ck(val == r or val is not None and r in (val,) or mention(val, r, s), 'what leaves the window is reported', w1, 'the times that left the window are not returned')
    rep.floor('announcements handed on', n, 1)


def mention(val, r, s):
    while val[0] in ('copyof',): val = s.store.get(val[1], ('void',))
    return val == r


class Hand(Strings):
    """calls handed on to an adaptation set"""
    def __init__(self, rep, tag, name):
        super().__init__()
        self.rep, self.tag, self.name = rep, tag, name
        self.exits = []

    def init(self): return (('calls', ()),)

    def inline(self, eng, st, G, ins): return 'modules/dasher/' in G.file and not G.file.endswith('.c') and G.name.split('::')[-1] != self.name

    def ck(self, ok, rule, w, text): self.rep.check(ok, rule, self.tag, w, '%s: %s' % (self.tag, text))

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        r = self.text(eng, st, fn, obj, args)
        if r is not NotImplemented: return r
        if fn.split('::')[-1] == self.name and obj is not None:
            o = obj[1] if obj[0] == 'lv' else obj
            o = o[1] if o[0] == 'd' else o
            v = eng.fresh(st, ins)
            settag(st, calls=tg(st)['calls'] + ((o, tuple(eng.num(eng.rvalue(st, a)) for a in args), v, eng.where(ins)),))
            return v
        return NotImplemented

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


# ---------------------------------------------------------------- descriptions
def run_sets(rep, P):
    for kind in ('Video', 'Audio'):
        F = P.fn('MpdManager::update%sAdaptationSet' % kind)
        if not F: raise AnalysisBroken('MpdManager::update%sAdaptationSet is gone' % kind)
        F = F[0]
        cl = Hand(rep, F.name, '-')
        eng = Engine(P, cl)
        st = State(); st.client = cl.init()
        eng.run(F, st=st)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        w = '%s:%d' % (F.file, F.line)
        S = ('m', ('d', ('sym', 'this', 'MpdManager')), 'MpdManager::adaptationSets')
        B = lambda i: ('arg', F.params[i]['name'], i)
        n = 0
        for s, val in cl.exits:
            p = eng.load(s, ('i', S, B(0)), 'AdaptationSet *')
            if eng.truth(s, p) is False: continue        # an entry without adaptation set is never made (below)
            n += 1
            for f, want in (('timescale', B(1)), ('segTemplate', B(2)), ('initTemplate', B(3))):
                v = eng.load(s, ('m', ('d', p), 'AdaptationSet::' + f))
                x = joined(parts(v))
                cl.ck(nocast(v) == want or x == [want], 'descriptions are current', w, 'the %s of the adaptation set is not the one given' % f)
            if p[0] == 'new': cl.ck(eng.atype.get(p, '').startswith(kind + 'AdaptationSet') or kind in str(eng.obj_class(p) if hasattr(eng, 'obj_class') else kind), 'descriptions are current', w, 'the adaptation set made is of another medium')
        rep.floor('adaptation sets described by ' + F.name, n, 2)
        # representations
        for cls in sorted(c for c in P.classes if P.isa(c, 'AdaptationSet') and c == kind + 'AdaptationSet'):
            G = method(P, cls, 'update%sRepresentation' % kind)
            cl = Hand(rep, G.name, '-')
            eng = Engine(P, cl)
            st = State(); st.client = cl.init()
            eng.run(G, st=st)
            rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
            w = '%s:%d' % (G.file, G.line)
            R = ('m', ('d', ('sym', 'this', cls)), cls + '::representations')
            D = lambda i: ('arg', G.params[i]['name'], i)
            n, kept = 0, {}
            for s, val in cl.exits:
                p = eng.load(s, ('i', R, D(0)), 'Representation *')
                has = ('op', 'has', R, (eng.ver(s, R), None), D(0))
                if p[0] == 'init' and eng.truth(s, p) is False: continue        # an entry without representation is never made
                cl.ck(eng.truth(s, p) is not False, 'descriptions are current', w, 'no representation is kept for the stream')
                rc = kind + 'Representation'
                fl = [f['name'] for f in P.classes[rc]['fields']]
                for el, k, what, i in REPR[cls][1]:
                    got = {f for f in fl if (lambda v: nocast(v) == D(i) or joined(parts(v)) == [D(i)])(eng.load(s, ('m', ('d', p), rc + '::' + f)))}
                    cl.ck(bool(got), 'descriptions are current', w, 'the %s of the representation is not the one given' % what)
                    kept[(el, k)] = kept.get((el, k), got) & got
                n += 1
            SHOWN[cls] = tuple((el, k, min(m)) for (el, k), m in kept.items() if len(m) == 1)
            for (el, k), m in kept.items(): rep.check(len(m) == 1, 'descriptions are current', G.name + ' ' + k, w, '%s: no one member of the representation keeps what attribute %s shows' % (G.name, k))
            rep.floor('representations described by ' + G.name, n, 2)


# ---------------------------------------------------------------- names
FIELDS = ('basePath', 'baseName', 'mpdPath', 'vSegTempl', 'aSegTempl', 'vInitSegTempl', 'aInitSegTempl')


class Conf(Strings):
    max_depth = 6

    def __init__(self):
        super().__init__()
        self.exits = []

    def init(self): return ()

    def inline(self, eng, st, G, ins): return G.file.endswith('modules/dasher/Dasher.cpp') and G.cls in ('Dasher', None, '')

    def on_call(self, eng, st, ins, fn, obj, args, cands): return self.text(eng, st, fn, obj, args)

    def on_exit_root(self, eng, st, F, val): self.exits.append((st, val))


def writers(P):
    """methods of Dasher after which the names differ, entered from outside"""
    R = []
    for F in P.funcs.values():
        if F.cls != 'Dasher' or F.name.endswith('::Dasher') or F.name.endswith('::~Dasher'): continue
        own = set()
        for b in F.blocks.values():
            for x in b.el:
                o = None
                if x['op'] in ('assign', 'cassign'): o = F.ins.get(x['a'])
                elif x['op'] == 'call' and x.get('fn', '').startswith('std::basic_string::') and x['fn'].split('::')[-1] in ('operator=', 'append', 'operator+=', 'assign', 'clear', 'insert', 'erase', 'replace', 'push_back', 'swap'): o = F.ins.get(x['obj']) if x.get('obj') else None
                if o and o['op'] == 'member' and o.get('f') in FIELDS and o.get('cls') == 'Dasher': own.add(o['f'])
        if own: R.append(F)
    return R


def run_names(rep, P):
    null = Null()
    cl0 = run_disp(null, P, 'quick')
    rep.funcs |= null.funcs
    THIS = ('sym', 'this', 'Dasher')
    W = writers(P)
    if not W: raise AnalysisBroken('nothing configures the names of Dasher')
    called = {}
    for F in P.funcs.values():
        if F.cls != 'Dasher': continue
        for b in F.blocks.values():
            for x in b.el:
                if x['op'] == 'call': called.setdefault(x.get('fn'), set()).add(F.name)
    cfg = P.fn('Dasher::configure')
    roots = []
    for F in W:
        while True:
            up = [c for c in called.get(F.name, ()) if c != F.name]
            if F.name == 'Dasher::configure' or len(up) != 1: break
            G = P.fn(up[0])
            if not G: break
            F = G[0]
        if F not in roots: roots.append(F)
    finals, n = [], 0
    for F in roots:
        cl = Conf()
        eng = Engine(P, cl)
        st = State(); st.client = cl.init()
        m = lambda s, f: eng.load(s, ('m', ('d', THIS), 'Dasher::' + f), 'std::string')
        before = {f: m(st, f) for f in FIELDS}
        eng.run(F, st=st)
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        w = '%s:%d' % (F.file, F.line)
        for s, val in cl.exits:
            after = {f: m(s, f) for f in FIELDS}
            if all(('m', ('d', THIS), 'Dasher::' + f) not in s.store or s.store[('m', ('d', THIS), 'Dasher::' + f)] == before[f] for f in FIELDS): continue
            r = eng.truth(s, eng.num(val)) if val is not None and val[0] != 'void' else True
            rep.check(r is not False, 'names change together', F.name, w, '%s changes the names of the files though it refuses' % F.name)
            t = {f: joined(parts(after[f])) for f in FIELDS}
            finals.append((F.name, w, t)); n += 1
            rep.check(t['mpdPath'] == joined(t['basePath'] + [x for x in t['mpdPath'][len(t['basePath']):]]) and len(t['mpdPath']) > len(t['basePath']), 'the manifest lies next to its segments', F.name, w, 'the manifest is not written to the folder of the segments its relative names refer to')
            rep.check(slash(eng, s, t['basePath']), 'the manifest lies next to its segments', F.name, w, 'the folder may not end with a slash, files would be named after it instead of lying in it')
    rep.floor('configured names', n, 1)
    mem = lambda x: member(x) if not isinstance(x, str) and x[0] != 'num' else None
    pairs = {}
    for e in cl0.names:
        if e[0] == 'templ':
            _, c, seg, ini, w = e
            fs = [mem(x[0]) if len(x) == 1 else None for x in (seg, ini)]
            rep.check(all(fs), 'templates are those configured', c, w, 'the templates given to the manifest are not those configured')
            pairs.setdefault(c, set()).add(tuple(fs))
    for c in ('vSegments', 'aSegments'):
        rep.check(len(pairs.get(c, ())) == 1, 'templates are those configured', c, 'modules/dasher/Dasher.cpp', 'the adaptation set of %s is given several templates' % c)
    cnt = {}
    for e in cl0.names:
        if e[0] == 'templ': continue
        kind, c, path, key, w = e
        fs = next(iter(pairs.get(c, {(None, None)})))
        f = fs[0 if kind == 'seg' else 1]
        if f is None: continue
        nums = [x for x in path if not isinstance(x, str) and x[0] == 'num']
        rep.check(len(nums) == (2 if kind == 'seg' else 1) and nocast(nums[0][1]) == nocast(key) if key is not None and nums else False, 'files are named as listed', '%s %s' % (kind, c), w, 'the name of the file does not have the identifier of its stream')
        if len(nums) != (2 if kind == 'seg' else 1): continue
        cnt[kind] = cnt.get(kind, 0) + 1
        for name, w1, t in finals:
            sub_ = []
            for x in path:
                mm = mem(x)
                sub_ += t[mm] if mm in t else [x]
            want = joined(t['basePath'] + template(t[f], nums[0], nums[1] if len(nums) > 1 else ('num', '?')))
            rep.check(joined(sub_) == want, 'files are named as listed', '%s %s' % (kind, c), w, 'the file written or deleted is not the one the template %s names' % f)
    for k in ('seg', 'init'): rep.floor('names: ' + k, cnt.get(k, 0), 1)
    ids = {}
    for c, s in sorted(cl0.sets.items()):
        x = {tuple(joined(parts(v))) for v in s}
        rep.check(len(x) == 1, 'one adaptation set per medium', c, 'modules/dasher/Dasher.cpp', 'segments of %s go to several adaptation sets' % c)
        for v in x: ids.setdefault(v, set()).add(c)
    for v, cs in ids.items(): rep.check(len(cs) == 1, 'one adaptation set per medium', 'identifier %s' % ''.join(map(str, v)), 'modules/dasher/Dasher.cpp', 'audio and video share an adaptation set')
    rep.floor('adaptation sets', len(ids), 2)
    # a configured window holds at least one segment
    F = P.fn('MpdManager::configure')[0]
    cl = Hand(rep, F.name, '-')
    eng = Engine(P, cl)
    st = State(); st.client = cl.init()
    eng.run(F, st=st)
    for s, val in cl.exits:
        v = eng.num(eng.load(s, ('m', ('d', ('sym', 'this', 'MpdManager')), 'MpdManager::maxSeg'), 'unsigned int'))
        cl.ck(eng.ent_le(s, C(1), v), 'the window is bounded', '%s:%d' % (F.file, F.line), 'a window without segments may be configured')


def slash(eng, s, ps):
    """the folder ends with a slash: appended, or looked at"""
    if ps and isinstance(ps[-1], str): return ps[-1].endswith('/')
    return any(f[0] == 'eq' and any(a[0] == 'init' or 'back' in repr(a) or 'operator[]' in repr(a) for a in atoms(f[1])) and f[1][0] == 'lin' and abs(f[1][1]) == 47 for f in s.facts)


def run(rep, P, tier):
    run_names(rep, P)
    run_sets(rep, P)
    run_tree(rep, P)
    run_window(rep, P)
