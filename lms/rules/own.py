"""O01: the queue of a connection is freed exactly once, by the end that leaves last."""
from ..engine import Engine, State
from ..lin import C, add, sub
from ..scan import Scan
from ..facts import AnalysisBroken
from . import images

RULE = ('typestate and ownership dataflow over every operation by which an end of a connection (Reader, Writer) lets go of its queue, destructors included, helpers inlined, the live mark of the queue unknown: '
        'on every exit the end either keeps the queue, untouched, or has forgotten it after marking it as left (the other end is still there) or freeing it (the other end has left), never both and nothing afterwards; '
        'destructors keep nothing; a reader keeps its queue exactly while it has consumers; queues are freed nowhere else')
LEVEL = 'other'
ASSUME = ['the two ends do not leave at the very same moment (the mark is read and written without a common lock)']

CONN = 'FrameQueue::connected'


def tg(st): return dict(st.client)


def settag(st, **kw):
    d = dict(st.client); d.update(kw)
    st.client = tuple(sorted(d.items(), key=lambda x: x[0]))


class End(Scan):
    K = 200
    max_depth = 8
    max_steps = 100000

    def __init__(self, rep, F, cls):
        super().__init__()
        self.rep, self.F0, self.cls = rep, F, cls
        self.kinds = set()

    def init(self): return tuple(sorted(dict(dels=0, mark=None).items()))

    def ck(self, ok, kind, eng, ins, msg):
        self.kinds.add(kind)
        self.rep.check(ok, kind, self.F0.name, eng.where(ins) if ins is not None else '%s:%d' % (self.F0.file, self.F0.line), msg)

    def is_q(self, eng, st, p): return p == eng.q0 or eng.ent_eq(st, p, eng.q0)

    def on_call(self, eng, st, ins, fn, obj, args, cands):
        s = fn.rsplit('::', 1)[-1]
        if fn.startswith('FrameQueue::') or (cands and cands[0].cls == 'FrameQueue'):
            p = obj[1][1] if obj is not None and obj[0] == 'lv' and obj[1][0] == 'd' else obj
            if p is not None and self.is_q(eng, st, p): self.alive(eng, st, ins)
            if s not in ('isConnected', 'setConnected'): return eng.fresh(st, ins)
        return NotImplemented

    def alive(self, eng, st, ins):
        self.ck(tg(st)['dels'] == 0, 'a freed queue is not used', eng, ins, 'the queue is used after it was freed')

    def on_store(self, eng, st, ins, L, v):
        if L[0] == 'm' and L[2] == CONN and L[1][0] == 'd' and self.is_q(eng, st, L[1][1]): self.alive(eng, st, ins)

    def on_delete(self, eng, st, ins, val):
        if not self.is_q(eng, st, val): return
        self.alive(eng, st, ins)
        settag(st, dels=tg(st)['dels'] + 1)

    def on_exit_root(self, eng, st, G, val):
        if eng.truth(st, eng.q0) is False:
            q1 = eng.load(st, eng.ql)
            self.ck(eng.truth(st, q1) is False and not tg(st)['dels'], 'no queue, nothing to free', eng, None, 'an end without queue frees or gains one by leaving')
            return
        q1 = eng.load(st, eng.ql)
        c1 = eng.load(st, ('m', ('d', eng.q0), CONN), 'bool')
        dels = tg(st)['dels']
        kept = self.is_q(eng, st, q1)
        was, now = eng.truth(st, eng.c0), eng.truth(st, c1)
        cons = ('op', 'size', eng.fl, (eng.ver(st, eng.fl), None)) if eng.fl is not None else None
        if cons is not None: eng.dom.nonneg.add(cons)
        if kept:
            self.ck(not self.F0.short.startswith('~'), 'a destroyed end keeps nothing', eng, None, 'an end is destroyed and its queue is neither marked as left nor freed')
            self.ck(dels == 0 and (c1 == eng.c0 or (was is not None and was == now)), 'a kept queue stays as it is', eng, None, 'a queue is freed or marked as left by an end that goes on using it')
            if self.F0.short == 'disconnect':
                if self.cls == 'Reader': self.ck(eng.truth(st, val) is False or eng.ent_ge(st, add(cons, C(-1))), 'the last consumer gives the queue back', eng, None, 'the last consumer leaves and the reader keeps the queue')
                else: self.ck(eng.truth(st, val) is False, 'a writer that leaves gives the queue back', eng, None, 'a writer reports that it left and keeps the queue')
            return
        self.ck(eng.truth(st, q1) is False, 'an end that left has no queue', eng, None, 'an end still points to a queue after leaving')
        if was is not False:
            self.ck(was is True and dels == 0 and now is False, 'the first end to leave marks the queue', eng, None,
                    'an end leaves a live queue without marking it as left, or frees it while the other end still uses it')
        else:
            self.ck(dels == 1, 'the last end to leave frees the queue', eng, None, 'an end leaves a queue that the other end has left before, and frees it %d times' % dels)
        if self.cls == 'Reader':
            f = eng.load(st, ('m', ('d', eng.root_this), 'Reader::frame'))
            self.ck(eng.truth(st, f) is False, 'no frame of a queue that was left', eng, None, 'a reader leaves its queue and still holds one of its frames')
            if self.F0.short == 'disconnect':
                self.ck(eng.ent_eq(st, cons, C(0)), 'a queue in use is kept', eng, None, 'a reader gives its queue back while it still has consumers')
                self.ck(eng.truth(st, val) is True, 'leaving is reported', eng, None, 'a consumer left and the reader reports that it did not')
        elif self.F0.short == 'disconnect': self.ck(eng.truth(st, val) is True, 'leaving is reported', eng, None, 'a writer left and reports that it did not')


def run(rep, P, tier):
    kinds, n = set(), 0
    this = ('arg', 'this', -1)
    roots = [(c, G) for c in ('Reader', 'Writer') for G in P.funcs.values() if G.cls == c and (G.short in ('disconnect', 'disconnectQueue', 'release') or G.short.startswith('~'))]
    if len({c for c, _ in roots}) < 2: raise AnalysisBroken('ends of a connection not found')
    for c, G in sorted(roots, key=lambda x: (x[1].name, x[1].line)):
        rep.funcs.add(G.name)
        cl = End(rep, G, c)
        eng = Engine(P, cl)
        eng.root_this = this
        eng.atype[this] = c + ' *'
        st = State(); st.client = cl.init()
        eng.ql = ('m', ('d', this), c + '::queue')
        eng.fl = ('m', ('d', this), 'Reader::filters') if c == 'Reader' else None
        eng.q0 = eng.load(st, eng.ql, 'FrameQueue *')
        eng.c0 = eng.note_type(eng.load(st, ('m', ('d', eng.q0), CONN), 'bool'), 'bool')
        eng.run(G, this=this, st=st)
        kinds |= cl.kinds
        rep.stats[G.name + ':%d' % G.line] = {'steps': eng.steps}
        rep.funcs |= set(P.funcs[x].name for x in eng.visited_funcs)
        n += 1
    rep.floor('operations that let go of a queue', n, 4)
    for k in ('the first end to leave marks the queue', 'the last end to leave frees the queue', 'a queue in use is kept', 'the last consumer gives the queue back'):
        rep.floor('decided: ' + k, 1 if k in kinds else 0, 1)
    sites = 0
    own = {G.file for G in P.funcs.values() if G.cls in ('Reader', 'Writer', 'BaseFilter') and not G.file.endswith(('.hh', '.h'))}
    for G in sorted(P.funcs.values(), key=lambda g: g.name):
        for e in G.ins.values():
            if e['op'] != 'delete': continue
            t = (G.ins.get(e.get('a'), {}).get('t') or e.get('t') or '').replace('*', '').replace('const', '').strip()
            if not P.isa(t, 'FrameQueue'): continue
            sites += 1
            rep.check(G.cls in ('Reader', 'Writer', 'BaseFilter') or G.file in own or created_here(G, e), 'queues are freed by their ends', G.name, '%s:%s' % (G.file, e.get('l', G.line)), '%s frees a queue that belongs to the two ends of a connection' % G.name)
    rep.floor('places that free a queue', sites, 1)
    rep.stats['delete sites'] = {'queues': sites}


def created_here(G, e): return any(x['op'] in ('new',) for x in G.ins.values())
