"""F02: a frame that is handed on was completely filled by a processing step that succeeded, and carries its time stamps and its identity."""
import re
from ..engine import Engine
from ..lin import C, add, sub
from ..scan import Scan
from ..facts import AnalysisBroken

RULE = ('obligation dataflow over every doProcessFrame implementation (helpers inlined): on each path the output frames left marked as filled must have received every stamp the filter class is responsible for on that same path, '
        'stamps copied from a source frame must come from the same stamp of the source frame, and no path that reports failure leaves an output marked; the wrapper of each filter class must number or relay every output it lets through '
        '(own counter of that output, read then advanced by one)')
LEVEL = 'other'
FIRST = re.compile(r"\('argp?', '[^']*', 0\)")      # the first parameter: the source frames
ASSUME = ['output slots arrive unmarked (F01)', 'external codecs fill what they report']

F = 'Frame::'
CONS = 'Frame::consumed'
STAMPS = {'Frame::presentationTime': 'presentation time', 'Frame::decodeTime': 'decode time', 'Frame::originTime': 'origin time', 'Frame::sequenceNumber': 'sequence number'}
NEED = {'OneToOneFilter': set(STAMPS), 'OneToManyFilter': {'Frame::presentationTime', 'Frame::decodeTime'}, 'HeadFilter': {'Frame::presentationTime', 'Frame::decodeTime'},
        'ManyToOneFilter': {'Frame::presentationTime', 'Frame::decodeTime'}}
RELATED = {('Frame::decodeTime', 'Frame::presentationTime')}


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


def stamp_of(v):
    """the stamp field a value was loaded from, if it is a plain copy of one"""
    n = 0
    while v[0] in ('copyof',) and n < 4: v = ('init', v[1], 0); n += 1
    if v[0] == 'init' and v[1][0] == 'm' and v[1][2] in STAMPS: return v[1][2]
    return None


class Cl(Scan):
    K = 80
    max_depth = 9
    max_steps = 300000

    def __init__(self, rep, F, need, isdst, rel):
        super().__init__()
        self.rep, self.F0, self.need, self.isdst, self.rel = rep, F, need, isdst, rel
        self.marked = 0

    def init(self): return tuple(sorted(dict(marks=(), got=(), any=False).items()))

    def inline(self, eng, st, G, ins): return G.id in self.rel or len(G.blocks) <= 3

    def on_store(self, eng, st, ins, L, v):
        if L[0] != 'm': return
        t = tg(st)
        B = L[1]
        if L[2] == CONS:
            if not self.isdst(eng, st, B): return
            marks = tuple(m for m in t['marks'] if m[0] != B) + ((B, v),)
            settag(st, marks=tuple(sorted(marks, key=repr)))
            self.marked += 1
        elif L[2] in STAMPS:
            if not self.isdst(eng, st, B): return
            src = stamp_of(v)
            if src is not None:
                ok = src == L[2] or (L[2], src) in RELATED
                self.rep.check(ok, 'stamps keep their meaning', '%s: %s' % (self.F0.name, STAMPS[L[2]]), eng.where(ins), '%s sets the %s of its output from the %s of another frame' % (self.F0.name, STAMPS[L[2]], STAMPS[src]))
                w = v
                while w[0] == 'copyof': w = ('init', w[1], 0)
                self.rep.check(not self.same_frame(eng, st, w[1][1], B), 'stamps come from the source', '%s: %s' % (self.F0.name, STAMPS[L[2]]), eng.where(ins), '%s sets the %s of its output from a stamp its memory still had from an earlier frame' % (self.F0.name, STAMPS[L[2]]))
            settag(st, got=tuple(sorted(set(t['got']) | {(B, L[2])}, key=repr)))

    def same_frame(self, eng, st, A, B): return A == B or (A[0] == 'd' and B[0] == 'd' and eng.ent_eq(st, A[1], B[1]))

    def judge(self, eng, st, only=None):
        t = tg(st)
        anym = t['any']
        for B, v in t['marks']:
            if only and not only(B): continue
            if eng.truth(st, v) is False: continue
            anym = True
            have = {f for b, f in t['got'] if b == B}
            for f in sorted(self.need):
                self.rep.check(f in have, 'a filled output carries its stamps', '%s: %s' % (self.F0.name, STAMPS[f]), '%s:%d' % (self.F0.file, self.F0.line),
                               '%s hands on a frame without setting its %s: it keeps the one of an earlier frame' % (self.F0.name, STAMPS[f]))
        if only:
            settag(st, marks=tuple(m for m in t['marks'] if not only(m[0])), got=tuple(g for g in t['got'] if not only(g[0])), any=anym)
        else: settag(st, any=anym)

    def on_backedge(self, eng, st, G, head):
        self.judge(eng, st, lambda B: 'ielem' in repr(B) or "'iter'" in repr(B))

    def on_exit_root(self, eng, st, G, val):
        self.judge(eng, st)
        r = eng.truth(st, val)
        if r is not True:
            self.rep.check(not (tg(st)['any']), 'failure hands nothing on', self.F0.name, '%s:%d' % (G.file, G.line),
                           '%s reports a failure on a path that leaves its output marked as filled: the frame is published without its identity' % G.name)


def relevant(P):
    callers, base = {}, set()
    for G in P.funcs.values():
        for e in G.ins.values():
            if e['op'] in ('call', 'ctor') and 'callee' in e:
                for H in P.resolve(e['callee'], e.get('virt')): callers.setdefault(H.id, set()).add(G.id)
            if e['op'] == 'member' and (e['cls'] + '::' + e['f'] == CONS or e['cls'] + '::' + e['f'] in STAMPS) and G.cls == 'Frame': base.add(G.id)
    work, seen = list(base), set(base)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in seen: seen.add(c); work.append(c)
    return seen


def run(rep, P, tier):
    rel = relevant(P)
    fam_n = {}
    total = 0
    for G in sorted(P.funcs.values(), key=lambda g: g.name):
        if G.short != 'doProcessFrame' or not P.isa(G.cls or '', 'BaseFilter') or P.isa(G.cls, 'TailFilter'): continue
        fam = next((b for b in NEED if P.isa(G.cls, b)), None)
        if fam is None: continue
        fam_n[fam] = fam_n.get(fam, 0) + 1
        rep.funcs.add(G.name)
        fp = [i for i, p in enumerate(G.params) if p['t'].replace('const', '').strip() in ('Frame *', 'class Frame *')]
        if fam == 'OneToOneFilter' and len(fp) >= 2: di = fp[1]
        elif fam == 'ManyToOneFilter' and fp: di = fp[0]
        else: di = None
        if di is not None:
            arg = ('arg', G.params[di]['name'] or str(di), di)
            isdst = (lambda arg: lambda eng, st, B: B == ('d', arg))(arg)
        else:
            src = set(('arg', G.params[i]['name'] or str(i), i) for i in fp)
            isdst = (lambda src: lambda eng, st, B: B[0] == 'd' and B[1] not in src)(src)
        cl = Cl(rep, G, NEED[fam], isdst, rel)
        eng = Engine(P, cl)
        eng.run(G)
        rep.stats[G.name] = {'steps': eng.steps, 'marks': cl.marked}
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        if cl.marked: total += 1
    rep.floor('processing implementations that fill outputs', total, 11)
    wrappers(rep, P)


class Wrap(Scan):
    """runDoProcessFrame of the classes that stamp on behalf of the filter"""
    K = 60
    max_depth = 6

    def __init__(self, rep, F0):
        super().__init__(); self.rep, self.F0 = rep, F0

    def init(self): return tuple(sorted(dict(ok=None, el=None, key=None, got=(), scan='no', seq=None, any=()).items()))

    def inline(self, eng, st, G, ins): return G.short != 'doProcessFrame'

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        if fn.endswith('::doProcessFrame'):
            v = eng.note_type(eng.fresh(st, ins), 'bool')
            settag(st, ok=v)
            return v
        return NotImplemented

    def on_store(self, eng, st, ins, L, v):
        t = tg(st)
        if L[0] == 'm' and L[2] in ('Frame::originTime', 'Frame::sequenceNumber'):
            key = None
            if t['el'] is not None and L[1] == ('d', t['el']): pass
            settag(st, got=tuple(sorted(set(t['got']) | {(L[1], L[2], v)}, key=repr)))
        if L[0] == 'i' and L[1][0] == 'm' and L[1][2] == 'BaseFilter::seqNums':
            settag(st, seq=(L[2], v))

    def judge(self, eng, st, f, key, w):
        t = tg(st)
        n = self.F0.name
        own = n.startswith(('HeadFilter', 'ManyToOneFilter'))
        c = eng.truth(st, eng.load(st, ('m', ('d', f), CONS), 'bool')) if f is not None else None
        if c is False and n.startswith('HeadFilter'):
            self.rep.check(t['seq'] is None, 'only filled frames are numbered', n, w, '%s takes a number for an output that was not filled: its consumers see a gap' % n)
            return
        got = {x[1]: x[2] for x in t['got'] if f is None or x[0] == ('d', f)}
        for k in ('Frame::originTime', 'Frame::sequenceNumber'):
            self.rep.check(k in got, 'outputs are numbered', '%s: %s' % (n, STAMPS[k]), w, '%s lets a filled frame through without setting its %s' % (n, STAMPS[k]))
        if 'Frame::sequenceNumber' in got:
            v = got['Frame::sequenceNumber']
            if own:
                ok = t['seq'] is not None and eng.ent_eq(st, t['seq'][1], add(v, C(1)))
                self.rep.check(ok, 'sequence numbers advance by one', n, w, '%s does not advance the counter by exactly one per frame it numbers' % n)
                okk = v[0] == 'init' and v[1][0] == 'i' and v[1][1][0] == 'm' and v[1][1][2] == 'BaseFilter::seqNums' and t['seq'] is not None and eng.ent_eq(st, v[1][2], t['seq'][0]) and (key is None or eng.ent_eq(st, v[1][2], key))
                self.rep.check(okk, 'every output has its own numbering', n, w, '%s numbers a frame from the counter of another output' % n)
            else:
                for k, what in (('Frame::sequenceNumber', 'sequence number'), ('Frame::originTime', 'origin time')):
                    if k not in got: continue
                    v = got[k]
                    ok = stamp_of(v) == k
                    if ok:
                        while v[0] == 'copyof': v = ('init', v[1], 0)
                        base = v[1][1]
                        ok = base[0] == 'd' and (f is None or not eng.ent_eq(st, base[1], f)) and FIRST.search(repr(base)) is not None
                    self.rep.check(ok, 'relayed identity', '%s: %s' % (n, what), w, '%s does not relay the %s of the source frame' % (n, what))

    def on_branch(self, eng, st, ins, v, taken):
        ev = self.scan_event(eng, st, v, taken)
        if ev is None: return
        end, L, eloc, key = ev
        t = tg(st)
        if end: settag(st, scan='done' if t['scan'] in ('no', 'ok') else t['scan'], el=None)
        else:
            f = eng.load(st, eng.memloc(st, eloc, 'std::pair::second'), 'Frame *')
            settag(st, el=f, key=key, got=(), seq=None)

    def on_backedge(self, eng, st, G, head):
        t = tg(st)
        if t['el'] is not None:
            self.judge(eng, st, t['el'], t['key'], '%s:%d' % (self.F0.file, self.F0.line))
            settag(st, el=None, got=(), seq=None)

    def on_exit_root(self, eng, st, G, val):
        t = tg(st)
        w = '%s:%d' % (G.file, G.line)
        self.rep.check(t['ok'] is not None, 'processing is done', G.name, w, '%s never calls the processing' % G.name)
        if t['ok'] is None: return
        good = eng.truth(st, t['ok'])
        r = eng.truth(st, val)
        direct = G.name.startswith(('OneToOneFilter', 'TailFilter'))
        if direct: self.rep.check(r == good if good is not None else (val == t['ok'] or eng.ent_eq(st, val, t['ok'])), 'result is reported', G.name, w, '%s does not report the result of the processing' % G.name); return
        self.rep.check((r is True) == (good is True) and r is not None, 'result is reported', G.name, w, '%s does not report the result of the processing' % G.name)
        if good is False: self.rep.check(t['seq'] is None, 'only filled frames are numbered', G.name, w, '%s takes a number for an output that was not filled: its consumers see a gap' % G.name)
        if good is not False:
            if t['scan'] == 'done': pass
            else:
                # a single output
                bases = {x[0] for x in t['got']}
                self.rep.check(len(bases) == 1, 'outputs are numbered', G.name, w, '%s lets filled frames through without numbering them' % G.name)
                if len(bases) == 1:
                    self.judge(eng, st, None, None, w)


def wrappers(rep, P):
    n = 0
    for G in sorted(P.funcs.values(), key=lambda g: g.name):
        if G.short != 'runDoProcessFrame': continue
        n += 1
        rep.funcs.add(G.name)
        cl = Wrap(rep, G)
        eng = Engine(P, cl)
        eng.run(G)
    rep.floor('filter class wrappers', n, 5)
