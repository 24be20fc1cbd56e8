"""Q01: the bounded frame queues are FIFO rings that never lose their indices, never hand the writer the slot being read and
never overwrite an unread frame except by the one announced drop of the newest frame when full."""
from ..engine import Engine, Client, State
from ..lin import C, add, sub

RULE = ('every member function of the frame-queue classes is analysed from every reachable index configuration (two indices below the capacity, '
        'partitioned into wrap/no-wrap and full/empty cases so that modulo arithmetic is linear); at every exit the pair of indices must be related '
        'to the entry pair by exactly the transition the operation stands for, returned slots must be the slot of that transition, loops are cut at '
        'their heads with the index invariant, which is re-established on every back edge')
LEVEL = 'other'
ASSUME = ['queue capacity is at least 2 (every constructor call site passes a larger constant)',
          'one producer and one consumer call a queue (property about filters and readers), so a member function is one step',
          'slots are filled at construction (setup() assigns every slot below the capacity before the queue is handed out)',
          'locals are not reached through other names']

R, Fr, M, FRAMES, LOST = 'FrameQueue::rear', 'FrameQueue::front', 'AVFramedQueue::max', 'AVFramedQueue::frames', 'FrameQueue::lostBlocs'


class Cl(Client):
    split_mod = True
    peel = {'forceGetRear': 3, 'innerForceGetRear': 3}
    K = 64

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.outs = []

    def L(self, eng, f):
        return ('m', ('d', eng.root_this), f)

    def g(self, eng, st, f):
        v = eng.load(st, self.L(eng, f), 'unsigned long')
        return eng.note_type(v, 'unsigned long')

    def inv(self, eng, st):
        r, f, m = (self.g(eng, st, x) for x in (R, Fr, M))
        return add(sub(m, r), C(-1)), add(sub(m, f), C(-1))

    def ok_inv(self, eng, st):
        return all(eng.ent_ge(st, x) for x in self.inv(eng, st))

    def after_havoc(self, eng, st, F, head, fields):
        for x in self.inv(eng, st): st.facts = st.facts | {('ge', x)}
        st.facts = st.facts | {('ge', add(self.g(eng, st, M), C(-2)))}

    def on_load(self, eng, st, ins, loc, val):
        if loc[0] == 'i' and loc[1][0] == 'm' and loc[1][2] == FRAMES: st.facts = st.facts | {('ne', val)}

    def on_backedge(self, eng, st, F, head):
        self.rep.check(self.ok_inv(eng, st), 'index invariant on loop back edge', '%s in %s' % (self.root, F.name), eng.where(),
                       'queue indices may leave [0, capacity) inside the loop')

    def full(self, eng, st):
        """True/False/None: is succ(rear) == front"""
        r, f, m = (self.g(eng, st, x) for x in (R, Fr, M))
        d = sub(add(r, C(1)), f)
        if eng.ent_eq(st, d, C(0)): return True
        if eng.ent_eq(st, r, add(m, C(-1))) and eng.ent_eq(st, f, C(0)): return True
        # not full: r+1 != f and not (r==m-1 and f==0)
        if eng.nez(st, d) and (eng.ent_ge(st, add(sub(m, r), C(-2))) or eng.ent_ge(st, add(f, C(-1))) or eng.nez(st, f)): return False
        return None

    def on_enter(self, eng, st, F):
        if F.short == 'doFlush' and eng.stack[0][0].short not in ('flush', 'doFlush'):
            self.rep.check(self.full(eng, st) is True, 'drop only when full', '%s via %s' % (eng.stack[0][0].name, eng.stack[-2][0].name),
                           eng.where(), 'the newest queued frame is dropped on a path where the queue is not known to be full')


def partitions(eng, cl, this):
    """initial states: all index configurations"""
    out = []
    for wrap in (0, 1):
        for rl in (0, 1):
            for fl in (0, 1):
                for spec in ('empty', 'full', 'mid'):
                    st = State(); st.client = None
                    eng.stack.append((cl.F0, 'r', this))
                    r, f, m = (cl.g(eng, st, x) for x in (R, Fr, M))
                    facts = [('ge', add(sub(m, r), C(-1))), ('ge', add(sub(m, f), C(-1))), ('ge', add(m, C(-2)))]
                    facts.append(('ge', sub(r, f)) if not wrap else ('ge', add(sub(f, r), C(-1))))
                    facts.append(('eq', add(sub(m, r), C(-1))) if rl else ('ge', add(sub(m, r), C(-2))))
                    facts.append(('eq', add(sub(m, f), C(-1))) if fl else ('ge', add(sub(m, f), C(-2))))
                    succ_r = C(0) if rl else add(r, C(1))
                    if spec == 'empty': facts.append(('eq', sub(r, f)))
                    elif spec == 'full': facts.append(('eq', sub(succ_r, f)))
                    else:
                        facts.append(('ne', sub(r, f))); facts.append(('ne', sub(succ_r, f)))
                    s = st
                    for x in facts:
                        s = eng.addfact(s, x)
                        if s is None: break
                    eng.stack.pop()
                    if s is None: continue
                    n = sub(r, f) if not wrap else add(sub(m, f), r)
                    succ_f = C(0) if fl else add(f, C(1))
                    # predecessors need a zero test: split lazily
                    out.append((s, dict(r=r, f=f, m=m, n=n, succ_r=succ_r, succ_f=succ_f, spec=spec)))
    return out


def split0(eng, st, v):
    res = []
    for x in (('eq', v), ('ge', add(v, C(-1)))):
        s = eng.addfact(st.copy(), x)
        if s is not None: res.append((s, x[0] == 'eq'))
    return res


def slot(eng, st, v):
    """index of the frames[] slot a returned value was loaded from, or None"""
    if v[0] == 'init' and v[1][0] == 'i' and v[1][1][0] == 'm' and v[1][1][2] == FRAMES: return v[1][2]
    return None


def analyse(rep, P, cls, F):
    cl = Cl(rep, F.name); cl.F0 = F
    res = []
    eng0 = Engine(P, cl)
    this = ('sym', 'this', cls)
    parts = None
    probe = Engine(P, cl); probe.root_this = this
    n = len(partitions(probe, cl, this))
    for k in range(n):
        eng = Engine(P, cl, {this: cls}); eng.root_this = this
        eng.atype[this] = cls + ' *'
        s, pre = partitions(eng, cl, this)[k]
        cl.pre = pre
        for s2, fz in split0(eng, s, pre['f']):
            for s3, rz in split0(eng, s2, pre['r']):
                pre2 = dict(pre)
                pre2['pred_f'] = add(pre['m'], C(-1)) if fz else add(pre['f'], C(-1))
                pre2['pred_r'] = add(pre['m'], C(-1)) if rz else add(pre['r'], C(-1))
                lost0 = ('init', ('m', ('d', this), LOST), 0)
                pre2['lost'] = lost0
                base = s3.copy()
                for st, v in eng.run(F, this=this, st=base):
                    eng.stack.append((F, 'r', this))
                    post = {x: cl.g(eng, st, x) for x in (R, Fr, M)}
                    post[LOST] = cl.g(eng, st, LOST)
                    eng.stack.pop()
                    res.append((eng, cl, st, v, pre2, post))
        rep.funcs |= {P.funcs[i].name for i in eng.visited_funcs}
    return res


def run(rep, P, tier):
    base = 'AVFramedQueue'
    classes = [base] + sorted(P.all_derived(base))
    METHODS = ['getRear', 'getFront', 'addFrame', 'removeFrame', 'flush', 'doFlush', 'forceGetRear', 'forceGetFront', 'getElements', 'isFull']
    nm = 0
    for cls in classes:
        order = [cls] + P.all_bases(cls)
        for m in METHODS:
            F = None
            for c in order:
                c2 = [x for x in P.fn(c + '::' + m)]
                if c2: F = c2[0]; break
            if F is None: continue
            if F.cls not in (cls,) and cls != base: continue     # inherited: same body, same fields
            nm += 1
            check(rep, P, cls, m, F)
    rep.floor('queue operations analysed', nm, 10)
    # constructor establishes the invariant
    for F in P.fn('FrameQueue::FrameQueue'):
        eng = Engine(P, Client())
        this = ('sym', 'this', 'FrameQueue')
        for st, v in eng.run(F, this=this):
            for f in (R, Fr):
                x = st.store.get(('m', ('d', this), f))
                rep.check(x == C(0), 'queue starts empty', f, '%s:%d' % (F.file, F.line), 'constructor leaves %s at %r instead of 0' % (f, x))
    for F in P.fn('AVFramedQueue::AVFramedQueue'):
        eng = Engine(P, Client())
        this = ('sym', 'this', 'AVFramedQueue')
        cap = frames_capacity(P)
        for st, v in eng.run(F, this=this):
            x = eng.load(st, ('m', ('d', this), M))
            rep.check(eng.ent_le(st, x, C(cap)), 'capacity within slot array', M, '%s:%d' % (F.file, F.line), 'capacity %r may exceed the %d slots of the queue' % (x, cap))


def frames_capacity(P):
    import re
    c, f = P.field('AVFramedQueue', 'frames')
    m = re.search(r'\[(\d+)\]', f['t'])
    return int(m.group(1))


def check(rep, P, cls, m, F):
    where = '%s:%d' % (F.file, F.line)
    key = '%s' % F.name
    sliced = cls == 'SlicedVideoFrameQueue' or (m in ('getRear', 'addFrame', 'forceGetRear') and F.cls == 'SlicedVideoFrameQueue')
    outs = analyse(rep, P, cls, F)
    if not outs:
        rep.violate('operation terminates', key, where, 'no path of %s reaches its end' % F.name); return
    for eng, cl, st, v, pre, post in outs:
        E = lambda a, b: eng.ent_eq(st, a, b)
        same_f = E(post[Fr], pre['f']); same_r = E(post[R], pre['r'])
        cfg = 'from a %s queue' % {'empty': 'empty', 'full': 'full', 'mid': 'partly filled'}[pre['spec']]
        rep.check(inv_ok(eng, st, post), 'indices stay below capacity', key, where, '%s: indices may leave [0, capacity) %s' % (F.name, cfg))
        rep.check(E(post[M], pre['m']), 'capacity constant', key, where, '%s changes the capacity' % F.name)
        if m != 'removeFrame':
            rep.check(same_f, 'read index untouched', key, where, '%s moves the read index %s (to %r)' % (F.name, cfg, post[Fr]))
        if m in ('getRear', 'getFront', 'forceGetFront', 'getElements', 'isFull', 'removeFrame'):
            rep.check(same_r, 'write index untouched', key, where, '%s moves the write index %s' % (F.name, cfg))
        if m == 'removeFrame':
            if pre['spec'] == 'empty':
                rep.check(same_f, 'empty queue pops nothing', key, where, '%s advances the read index of an empty queue' % F.name)
                rep.check(E(v, C(-1)), 'empty pop is reported', key, where, '%s of an empty queue does not return -1' % F.name)
            else:
                rep.check(E(post[Fr], pre['succ_f']), 'pop advances by one', key, where, '%s: read index does not advance by exactly one slot %s' % (F.name, cfg))
                rep.check(v == ('init', ('m', ('m', ('d', eng.root_this), 'FrameQueue::connectionData'), 'ConnectionData::wFilterId'), 0), 'pop names the producer', key, where,
                          '%s does not return the identifier of the producing filter %s' % (F.name, cfg))
        elif m == 'addFrame' and not sliced:
            if pre['spec'] == 'full':
                rep.check(same_r, 'full queue accepts nothing', key, where, '%s advances the write index of a full queue' % F.name)
            else:
                rep.check(E(post[R], pre['succ_r']), 'push advances by one', key, where, '%s: write index does not advance by exactly one slot %s' % (F.name, cfg))
        elif m in ('flush', 'doFlush'):
            if pre['spec'] == 'full' or pre['spec'] == 'mid':
                rep.check(E(post[R], pre['pred_r']), 'drop removes the newest only', key, where, '%s: write index does not step back by exactly one slot %s' % (F.name, cfg))
            if m == 'flush':
                rep.check(E(post[LOST], add(pre['lost'], C(1))), 'each drop counted once', key, where, '%s does not count exactly one lost block' % F.name)
        elif m == 'getRear':
            if pre['spec'] == 'full':
                rep.check(E(v, C(0)), 'full queue offers no slot', key, where, '%s offers a slot of a full queue' % F.name)
            elif not sliced:
                s = slot(eng, st, v)
                rep.check(s is not None and E(s, pre['r']), 'writer gets the write slot', key, where, '%s does not return the slot at the write index %s' % (F.name, cfg))
            else:
                rep.check(v == ('init', ('m', ('d', eng.root_this), 'SlicedVideoFrameQueue::inputFrame'), 0), 'writer gets the input frame', key, where, '%s does not return the input frame' % F.name)
        elif m == 'getFront':
            if pre['spec'] == 'empty':
                rep.check(E(v, C(0)), 'empty queue offers nothing', key, where, '%s offers a frame of an empty queue' % F.name)
            else:
                s = slot(eng, st, v)
                rep.check(s is not None and E(s, pre['f']), 'reader gets the oldest', key, where, '%s does not return the slot at the read index %s' % (F.name, cfg))
        elif m == 'forceGetFront':
            s = slot(eng, st, v)
            rep.check(s is not None and E(s, pre['pred_f']), 'last read frame is repeated', key, where, '%s does not return the slot read last %s' % (F.name, cfg))
        elif m == 'forceGetRear' and not sliced:
            s = slot(eng, st, v)
            rep.check(s is not None and E(s, post[R]), 'forced slot is the write slot', key, where, '%s does not return the slot at the write index' % F.name)
            eng.stack.append((F, 'r', eng.root_this))
            rep.check(cl.full(eng, st) is False, 'forced slot is free', key, where, '%s may hand out a slot while the queue is full' % F.name)
            eng.stack.pop()
        elif m == 'getElements':
            rep.check(E(v, pre['n']), 'element count exact', key, where, '%s is not the number of queued frames %s' % (F.name, cfg))


def inv_ok(eng, st, post):
    return eng.ent_ge(st, add(sub(post[M], post[R]), C(-1))) and eng.ent_ge(st, add(sub(post[M], post[Fr]), C(-1)))
