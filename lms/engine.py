"""Path-sensitive dataflow over the clang CFG (ESP-style: program states are partitioned by the client's finite abstract
state and joined beyond a bound; loops are cut by havocking everything the loop may write, i.e. every iteration is
analysed at once).  Values are symbolic *names of program quantities* (value numbers); integer facts live in the
linear-inequality domain of lin.py.  Helpers of the repository are analysed in their callers (inlined); everything else is
summarised by what it may write."""
import time
import re
from collections import defaultdict, deque
from . import lin
from .lin import C, add, sub, mulc, neg, parts, mentions

UNSIGNED = re.compile(r'^(const )?(unsigned|size_t|uint\d+_t|bool|unsigned (char|short|int|long|long long)|std::size_t)\b')
LOCKCLS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
SCALAR = re.compile(r'^(.*\* ?|(unsigned |signed )?(char|short|int|long|long long)|bool|float|double)&$')
CONTAINERS = re.compile(r'^(const )?std::(map|multimap|set|vector|deque|list|queue|priority_queue|unordered_map|stack)\b')
CHILDOPS = ('a', 'b', 'c', 'v', 'x', 'n', 'init', 'obj', 'ind')


def is_unsigned(t):
    return bool(t) and bool(UNSIGNED.match(t)) and '*' not in t and '&' not in t


def chrono_ratio(t):
    from fractions import Fraction
    m = re.search(r'std::chrono::duration<(long|int|long long|unsigned long|unsigned int)(?:, (?:std::)?ratio<(\d+)(?:, (\d+))?>)?', t)
    if not m: return None
    return Fraction(int(m.group(2) or 1), int(m.group(3) or 1))


def rgcd(a, b):
    from fractions import Fraction
    from math import gcd
    d = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
    return Fraction(gcd(int(a * d), int(b * d)), d)


def is_int_type(t):
    t = re.sub(r'\b(const|volatile)\b|&', '', t or '').strip()
    return t in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'size_t', 'uint64_t', 'int64_t', 'uint32_t', 'char', 'unsigned char', 'std::size_t')


def base_type(t):
    return re.sub(r'\b(const|volatile)\b', '', t or '').replace('&', '').replace('*', '').strip()


class State:
    __slots__ = ('store', 'ver', 'facts', 'locks', 'guards', 'client', 'tmp')

    def __init__(self):
        self.store = {}
        self.ver = {}
        self.facts = frozenset()
        self.locks = ()          # held mutex locations, in acquisition order
        self.guards = {}         # guard variable location -> (mutex location, owned)
        self.client = None
        self.tmp = {}

    def copy(self):
        s = State()
        s.store = dict(self.store); s.ver = dict(self.ver); s.facts = self.facts; s.locks = self.locks
        s.guards = dict(self.guards); s.client = self.client; s.tmp = dict(self.tmp)
        return s

    def key(self):
        return (self.locks, self.client)


TIME_LIMIT = 780     # seconds of processor time, per check


class Bound(Exception):
    pass


BYTEPTR = re.compile(r'^(const )?(unsigned |signed )?char \*( const)?$')


class Client:
    """default hooks; rules override what they need"""
    K = 24                      # partitions kept per program point before joining
    max_depth = 8
    max_steps = 400000
    split_mod = False           # decide x % m by cases when 0 <= x < 2m is known
    light = False               # syntactic facts only

    def init(self): return None
    def inline(self, eng, st, F, ins): return True          # may this repo function be analysed inline?
    def on_call(self, eng, st, ins, fn, obj, args, cands): return NotImplemented   # -> value | [(st,value)] | NotImplemented
    def after_call(self, eng, st, ins, fn, obj, args, val): pass
    def on_member(self, eng, st, ins, loc): pass
    def on_load(self, eng, st, ins, loc, val): pass
    def on_store(self, eng, st, ins, loc, val): pass
    def on_deref(self, eng, st, ins, ptr): pass
    def on_binop(self, eng, st, ins, o, a, b): pass
    def on_lock(self, eng, st, ins, loc): pass
    def on_unlock(self, eng, st, ins, loc): pass
    def on_return(self, eng, st, F, val, ins): pass
    def on_new(self, eng, st, ins, val, n): pass
    def on_delete(self, eng, st, ins, val): pass
    def on_throw(self, eng, st, ins): pass
    def on_dtor(self, eng, st, ins, loc, t): return False
    def on_index(self, eng, st, ins, base, idx): pass
    unroll = 16              # loops that count a local constant up or down to a constant, at most so often, are run as they are
    split_minmax = False     # std::min and std::max of values in unknown order: a path each
    peel = {}                # short name -> how many rounds of a loop of that function are run as they are before the loop is generalised
    def on_branch(self, eng, st, ins, val, taken): pass
    def on_cast(self, eng, st, ins, v, ft, t): return v
    def nonneg(self, eng, st, v): return False      # a floating point value that is known not to be negative
    def distinct(self, a, b): return False          # two pointers that never point to the same object
    def on_backedge(self, eng, st, F, head): pass
    def on_loop_enter(self, eng, st, F, head): pass
    def on_enter(self, eng, st, F): pass
    def on_insert(self, eng, st, ins, L, k, new): pass    # a key given to a set or map whose answer is looked at: was it new
    def after_havoc(self, eng, st, F, head, fields): pass
    def on_exit_root(self, eng, st, F, val): pass
    def guarded_fields(self, eng, mutexloc): return ()
    def extra_facts(self, eng, st, atom): return ()


class Engine:
    def __init__(self, prog, client, dyn=None):
        self.P = prog
        self.cl = client
        self.dom = lin.LightDom() if client.light else lin.Dom()
        self.stack = []          # frames: (F, frame id, this)
        self.steps = 0
        self.dyncls = dict(dyn or {})   # pointer value -> class name
        self.basec = {}
        self.atype = {}          # atom -> type string
        self.effcache = {}
        self.visited_funcs = set()
        self.widened = set()
        self.joins = 0

    # ------------------------------------------------------------------ basics
    @property
    def F(self): return self.stack[-1][0]
    @property
    def frame(self): return self.stack[-1][1]
    @property
    def this(self): return self.stack[-1][2]

    def where(self, ins=None):
        return '%s:%d (%s)' % (self.F.file, (ins or {}).get('l') or self.F.line, self.F.name)

    def trace(self):
        return ' <- '.join(f[0].name for f in reversed(self.stack))

    def note_type(self, v, t):
        if v[0] in ('c', 'lin'): return v
        if t and v not in self.atype: self.atype[v] = t
        if is_unsigned(t): self.dom.nonneg.add(v)
        return v

    # ------------------------------------------------------------------ facts
    def ent_ge(self, st, v): return self.dom.entails_ge(st.facts, v)
    def ent_le(self, st, a, b): return self.dom.entails_ge(st.facts, sub(b, a))
    def ent_lt(self, st, a, b): return self.dom.entails_ge(st.facts, add(sub(b, a), C(-1)))
    def ent_eq(self, st, a, b): return self.dom.entails_eq(st.facts, a, b)
    def ent_ne0(self, st, v): return self.truth(st, v) is True
    def ent_0(self, st, v): return self.truth(st, v) is False

    def addfact(self, st, f):
        if f[1][0] == 'c':
            n = f[1][1]
            ok = {'ge': n >= 0, 'eq': n == 0, 'ne': n != 0}[f[0]]
            return st if ok else None
        if f in st.facts: return st
        if f[0] == 'ge':
            if self.dom.infeasible(st.facts, [f[1]]): return None
            st.facts = st.facts | {f}
            # sharpen with disequalities
            for g in list(st.facts):
                if g[0] == 'ne' and (g[1] == f[1] or g[1] == neg(f[1])):
                    st.facts = st.facts | {('ge', add(f[1], C(-1)))}
        elif f[0] == 'eq':
            if ('ne', f[1]) in st.facts or ('ne', neg(f[1])) in st.facts: return None
            if self.dom.infeasible(st.facts, [f[1]]) or self.dom.infeasible(st.facts, [neg(f[1])]): return None
            st.facts = st.facts | {f}
            if len(lin.atoms(f[1])) and self.contradict(st): return None
        elif f[0] == 'ne':
            if self.dom.entails_0(st.facts, f[1]): return None
            st.facts = st.facts | {f}
            if self.dom.entails_ge(st.facts, f[1]): st.facts = st.facts | {('ge', add(f[1], C(-1)))}
            elif self.dom.entails_ge(st.facts, neg(f[1])): st.facts = st.facts | {('ge', add(neg(f[1]), C(-1)))}
        return st

    def contradict(self, st):
        for g in st.facts:
            if g[0] == 'ne' and self.dom.entails_0(st.facts - {g}, g[1]): return True
        return False

    def purge(self, st, atom):
        st.facts = frozenset(f for f in st.facts if not mentions(f[1], atom))

    def truth(self, st, v):
        """True/False/None"""
        if v[0] == 'c': return v[1] != 0
        if v[0] in ('addr', 'str', 'fn', 'lam', 'new', 'obj'): return True
        if v[0] == 'lv': return True
        if v[0] == 'not':
            t = self.truth(st, v[1]); return None if t is None else not t
        if v[0] == 'logic':
            a, b = self.truth(st, v[2]), self.truth(st, v[3])
            if v[1] == '&&':
                if a is False or b is False: return False
                return True if a and b else None
            if a or b: return True
            return False if a is False and b is False else None
        if v[0] == 'cmp':
            o, a, b = v[1:]
            d = sub(a, b)
            E = lambda x: self.dom.entails_ge(st.facts, x)
            if o in ('==', '!='):
                r = None
                if self.dom.entails_0(st.facts, d): r = True
                elif self.nez(st, d): r = False
                if r is None: return None
                return r if o == '==' else not r
            if o == '<': y, n = add(neg(d), C(-1)), d
            elif o == '<=': y, n = neg(d), add(d, C(-1))
            elif o == '>': y, n = add(d, C(-1)), neg(d)
            else: y, n = d, add(neg(d), C(-1))
            if E(y): return True
            if E(n): return False
            return None
        if self.nez(st, v): return True
        if self.dom.entails_0(st.facts, v): return False
        return None

    def nez(self, st, d):
        if d[0] == 'lin' and len(d[2]) == 1 and d[1] == 0: d = d[2][0][0]
        if d[0] == 'dyn' and False: return None
        if d[0] in ('addr', 'str', 'fn', 'lam', 'new'): return True
        return self.dom.entails_ne0(st.facts, d)

    def assume(self, st, v, truth):
        """refine st (in place) with v being true/false; None if infeasible"""
        t = self.truth(st, v)
        if t is not None: return st if t == truth else None
        if v[0] == 'not': return self.assume(st, v[1], not truth)
        if v[0] == 'logic':
            o, a, b = v[1:]
            if (o == '&&') == truth:
                st = self.assume(st, a, truth)
                return None if st is None else self.assume(st, b, truth)
            # one of them: only refine if the other is decided
            ta, tb = self.truth(st, a), self.truth(st, b)
            if ta is not None and ta != truth: return self.assume(st, b, truth)
            if tb is not None and tb != truth: return self.assume(st, a, truth)
            return st
        if v[0] == 'cmp':
            o, a, b = v[1:]
            if a[0] in ('cmp', 'not', 'logic') and b[0] == 'c' and o in ('==', '!='):
                w = (b[1] != 0) == (o == '==')
                return self.assume(st, a, truth == w)
            d = sub(a, b)
            if not truth: o = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[o]
            if o == '==':
                st = self.addfact(st, ('eq', d))
                if st is not None: st = self.dyn_back(st, d, False)
                return st
            if o == '!=':
                st = self.addfact(st, ('ne', d))
                if st is not None: st = self.dyn_back(st, d, True)
                return st
            if o == '<': return self.addfact(st, ('ge', add(neg(d), C(-1))))
            if o == '<=': return self.addfact(st, ('ge', neg(d)))
            if o == '>': return self.addfact(st, ('ge', add(d, C(-1))))
            return self.addfact(st, ('ge', d))
        st = self.addfact(st, ('ne' if truth else 'eq', v))
        if st is not None: st = self.dyn_back(st, v, truth)
        return st

    def dyn_back(self, st, v, nonnull):
        # dynamic_cast<T*>(p) non-null  =>  p non-null
        if v[0] == 'dyn' and nonnull:
            for f in st.facts:
                # an object has one most derived class: two successful casts need a class derived from both
                if f[0] == 'ne' and f[1][0] == 'dyn' and f[1][1] == v[1] and f[1][2] != v[2] and not self.related(f[1][2], v[2]): return None
            return self.assume(st, v[1], True)
        return st

    def related(self, a, b):
        a, b = (x.replace('class ', '').replace('struct ', '').replace('const ', '').strip(' *&') for x in (a, b))
        if a not in self.P.classes or b not in self.P.classes: return True
        return any(self.P.isa(c, a) and self.P.isa(c, b) for c in self.P.classes)

    # ------------------------------------------------------------------ memory
    def lockey(self, L):
        k = L[0]
        if k == 'm': return L[2]
        if k == 'i': return ('i', self.lockey(L[1]))
        if k == 'd': return ('*', base_type(self.atype.get(L[1], '')))
        if k == 'g': return L[1]
        return L

    def ver(self, st, L):
        return st.ver.get(self.lockey(L), 0)

    def bump(self, st, key):
        st.ver[key] = st.ver.get(key, 0) + 1

    def deref(self, p):
        """location a pointer value designates"""
        if p[0] == 'addr': return p[1]
        if p[0] == 'dyn': return self.deref(p[1])
        if p[0] == 'itp': return self.iterloc(p[1])
        return ('d', p)

    def iterloc(self, it):
        if it[0] == 'iter': return ('ielem', it)
        return ('d', it)

    def memloc(self, st, L, f):
        """location of member f of object at L (redirects through copies and iterators)"""
        if L[0] == 'ielem':
            if f in ('std::pair::second',): return ('i', L[1][1], self.iterkey(L[1]))
        return ('m', L, f)

    def iterkey(self, it):
        if len(it) > 3 and it[3] == 'find': return it[4]
        return ('key', it)

    def redirect(self, st, L):
        """location a (sub-object of a) copied aggregate was copied from"""
        if L[0] not in ('m', 'i'): return L
        B = L[1]
        bv = st.store.get(B)
        if bv is not None:
            if bv[0] != 'copyof': return L
            R = bv[1]
        else:
            R = self.redirect(st, B)
            if R == B: return L
        return self.memloc(st, R, L[2]) if L[0] == 'm' else ('i', R, L[2])

    def load(self, st, L, t=None):
        v = st.store.get(L)
        if v is not None: return v
        if L[0] == 'm':
            B = L[1]
            if B[0] == 'ielem' and L[2] == 'std::pair::first': return self.iterkey(B[1])
            bv = st.store.get(B)
            L2 = self.redirect(st, L)
            if L2 != L: return self.load(st, L2, t)
            if bv is not None and bv[0] in ('ret', 'pcall', 'obj'):
                v = ('fieldof', bv, L[2])
                return self.note_type(v, t)
        if L[0] == 'i' and L[1][0] in ('m', 'v', 'g'):
            pass
        v = ('init', L, self.ver(st, L))
        return self.note_type(v, t)

    def may_alias(self, A, B):
        if A == B: return True
        if A[0] in ('v', 'g', 'tmpobj') or B[0] in ('v', 'g', 'tmpobj'):
            if A[0] == B[0]: return False
            if A[0] in ('d', 'ielem') or B[0] in ('d', 'ielem'):
                return False      # locals and globals are not reached through other names (assumption, see DESIGN)
            return False
        if A[0] == 'm' and B[0] == 'm':
            return A[2] == B[2] and self.may_alias(A[1], B[1])
        if A[0] == 'i' and B[0] == 'i':
            return self.may_alias(A[1], B[1])
        if A[0] == 'd' and B[0] == 'd':
            a, b = A[1], B[1]
            if a[0] == 'new' or b[0] == 'new': return False if a != b else True
            if self.cl.distinct(a, b): return False
            ta, tb = base_type(self.atype.get(a, '')), base_type(self.atype.get(b, ''))
            if ta and tb and ta != tb and not (self.P.isa(ta, tb) or self.P.isa(tb, ta)) and ta not in ('void', 'char', 'unsigned char') and tb not in ('void', 'char', 'unsigned char'):
                return False
            return True
        return True

    def put(self, st, L, v, ins=None, strong=True):
        k = L[0]
        if k == 'm':
            f = L[2]
            for key in [x for x in st.store if x[0] == 'm' and x[2] == f and x != L and self.may_alias(x[1], L[1])]:
                del st.store[key]
            if L[1][0] not in ('v', 'g', 'tmpobj'): self.bump(st, f)
        elif k == 'i':
            for key in [x for x in st.store if x[0] == 'i' and x != L and self.may_alias(x[1], L[1])]:
                d = sub(key[2], L[2])
                if key[1] == L[1] and (d[0] == 'c' or self.nez(st, d)): continue
                del st.store[key]
            self.bump(st, self.lockey(L))
        elif k == 'd':
            for key in [x for x in st.store if x[0] == 'd' and x != L and self.may_alias(x, L)]:
                d = sub(key[1], L[1])
                if d[0] == 'c': continue
                del st.store[key]
            self.bump(st, self.lockey(L))
        # sub-objects
        for key in [x for x in st.store if x[0] in ('m', 'i') and self.under(x, L) and x != L]:
            del st.store[key]
        st.store[L] = v

    def under(self, x, L):
        while x[0] in ('m', 'i'):
            x = x[1]
            if x == L: return True
        return False

    def havoc_loc(self, st, L, tag):
        old = st.store.get(L)
        if old is not None and old[0] == 'iter':
            nv = ('iter', old[1], old[2], 'hv', tag)
        elif old is not None and old[0] == 'copyof':
            nv = ('hv', tag, L)
        else:
            nv = ('hv', tag, L)
        if nv in self.atype or True:
            self.purge(st, nv)
        if old is not None and old in self.atype: self.note_type(nv, self.atype[old])
        elif old is None:
            pass
        for key in [x for x in st.store if x[0] in ('m', 'i') and self.under(x, L)]:
            del st.store[key]
        if L[0] in ('m', 'i', 'd'): self.bump(st, self.lockey(L))
        st.store[L] = nv
        return nv

    def havoc_field(self, st, f):
        for key in [x for x in st.store if (x[0] == 'm' and x[2] == f) or self.mentions_field(x, f)]:
            del st.store[key]
        self.bump(st, f)
        self.bump(st, ('i', f))

    def mentions_field(self, x, f):
        while x[0] in ('m', 'i'):
            if x[0] == 'm' and x[2] == f: return True
            x = x[1]
        return False

    def havoc_obj(self, st, L, tag):
        """contents of the object at L may have changed"""
        self.havoc_loc(st, L, tag)

    # ------------------------------------------------------------------ effects (mod sets) of functions that are not inlined
    def effects(self, F, dyn=None):
        r = self.effcache.get((F.id, dyn))
        if r is not None: return r
        seen, work, out = {(F.id, dyn)}, [(F, dyn)], set()
        while work:
            G, d = work.pop()
            m, calls = local_effects(self.P, G)
            out |= m
            for c, virt, onthis in calls:
                d2 = d if onthis else None
                for H in self.P.resolve(c, virt, d2):
                    if (H.id, d2) not in seen:
                        seen.add((H.id, d2)); work.append((H, d2))
        self.effcache[(F.id, dyn)] = out
        return out

    # ------------------------------------------------------------------ running
    def run(self, F, this=None, args=None, st=None):
        """analyse F as a root; returns list of (state, return value)"""
        if st is None:
            st = State(); st.client = self.cl.init()
        if this is None and F.cls and not F.static:
            this = ('sym', 'this', F.cls)
            self.atype[this] = F.cls + ' *'
        if args is None:
            args = []
            for i, p in enumerate(F.params):
                a = ('arg', p['name'] or str(i), i)
                t = p['t']
                if p['ref']:
                    pv = ('argp', p['name'] or str(i), i); self.atype[pv] = base_type(t) + ' *'
                    args.append(('lv', ('d', pv)))
                else:
                    self.note_type(a, t); args.append(a)
        outs = self.exec(F, this, args, st, 'r')
        for s, v in outs:
            self.stack.append((F, 'r', this))
            self.cl.on_exit_root(self, s, F, v)
            self.stack.pop()
        return outs

    def exec(self, F, this, args, st, frame, caps=None):
        if len(self.stack) > self.cl.max_depth + 1: raise Bound('depth')
        self.stack.append((F, frame, this))
        self.visited_funcs.add(F.id)
        self.cl.on_enter(self, st, F)
        saved_tmp = st.tmp
        for k in [k for k in st.store if k[0] == 'v' and k[1] == frame]: del st.store[k]
        st.tmp = {}
        for p, a in zip(F.params, args):
            L = ('v', frame, p['vid'])
            if a[0] == 'lv' and not p['ref']: a = ('copyof', a[1])
            st.store[L] = a
        if caps:
            for vid, v in caps.items(): st.store[('v', frame, vid)] = v
        exits = []
        pend = defaultdict(list)
        pend[F.entry].append(st)
        seen_heads = defaultdict(set)
        order = F.rponum
        stt = None
        while pend:
            b = min(pend, key=lambda x: order.get(x, 1 << 30))
            states = pend.pop(b)
            B = F.blocks[b]
            if b != F.exit and len(states) > 1: states = self.reduce(states, b)
            if b == F.exit:
                exits += states
                continue
            for s in states:
                self.steps += 1
                if self.steps > self.cl.max_steps: raise Bound('steps in ' + F.name)
                if not self.steps % 64 and time.process_time() > TIME_LIMIT: raise Bound('time in ' + F.name)
                for (s2, succ) in self.block(F, B, s):
                    if succ is None: continue
                    t = F.blocks[succ]
                    if succ in F.heads:
                        back = b in F.loops[succ]
                        n = self.cl.peel.get(F.short)
                        if n:
                            k = ('v', frame, ('peel', succ))
                            c = s2.store.get(k, C(0))[1] if back else 0
                            if c < n:
                                s2.store[k] = C(c + 1)
                                pend[succ].append(s2)
                                continue
                            s2.store.pop(k, None)
                        if self.cl.unroll and self.counts(F, succ, s2, back):
                            pend[succ].append(s2)
                        elif back:
                            self.cl.on_backedge(self, s2, F, succ)
                            k = (s2.key(), self.flag_key(F, succ, s2))
                            if k in seen_heads[succ]: continue
                            seen_heads[succ].add(k)
                            self.loop_havoc(F, succ, s2)
                            pend[succ].append(s2)
                        else:
                            self.cl.on_loop_enter(self, s2, F, succ)
                            seen_heads[succ].add((s2.key(), self.flag_key(F, succ, s2)))
                            self.loop_havoc(F, succ, s2)
                            pend[succ].append(s2)
                    else:
                        pend[succ].append(s2)
        outs = []
        for s in exits:
            rv = s.store.pop(('ret', frame), None)
            for k in [k for k in s.store if k[0] == 'v' and k[1] == frame]:
                pass
            s.tmp = saved_tmp.copy() if saved_tmp else {}
            outs.append((s, rv if rv is not None else ('void',)))
        self.stack.pop()
        # drop locals of the finished frame unless something still points at them
        res = []
        for s, rv in outs:
            keep = mentions_frame(rv, frame)
            if not keep:
                for k in [k for k in s.store if k[0] == 'v' and k[1] == frame]:
                    del s.store[k]
                for g in [g for g in s.guards if g[0] == 'v' and g[1] == frame]:
                    del s.guards[g]
            res.append((s, rv))
        if len(res) > 1: res = self.reduce_exits(res, F)
        return res

    def reduce_exits(self, res, F):
        # identical (client state, return value, relevant facts) are merged beyond K
        groups = defaultdict(list)
        for s, v in res: groups[(s.key(), v)].append(s)
        out = []
        for (k, v), ss in groups.items():
            uniq = []
            for s in ss:
                if not any(u.facts == s.facts and u.store == s.store and u.ver == s.ver for u in uniq): uniq.append(s)
            groups[(k, v)] = uniq
            out += [(s, v) for s in uniq]
        if len(out) <= (self.cl.K if self.stack else 4000): return out
        out = []
        for (k, v), ss in groups.items():
            j = ss[0]
            for s in ss[1:]: j = self.join(j, s, ('x', F.id))
            out.append((j, v))
        if len(out) > 3 * self.cl.K:
            groups = defaultdict(list)
            for s, v in out: groups[s.key()].append((s, v))
            out = []
            for k, ss in groups.items():
                j, rv = ss[0]
                for s, v in ss[1:]:
                    j.store[('ret', '#')] = rv; s.store[('ret', '#')] = v
                    j = self.join(j, s, ('x', F.id)); rv = j.store.pop(('ret', '#'), ('ret', 'join', F.id))
                out.append((j, rv))
        return out

    def reduce(self, states, b):
        uniq = []
        for s in states:
            for u in uniq:
                if u.key() == s.key() and u.facts == s.facts and u.store == s.store and u.ver == s.ver and u.tmp == s.tmp: break
            else: uniq.append(s)
        if len(uniq) <= self.cl.K: return uniq
        groups = defaultdict(list)
        for s in uniq: groups[s.key()].append(s)
        out = []
        for k, ss in groups.items():
            j = ss[0]
            for s in ss[1:]: j = self.join(j, s, b)
            out.append(j)
        return out

    def join(self, a, b, tag):
        self.joins += 1
        r = State()
        r.locks, r.client = a.locks, a.client
        r.guards = {k: v for k, v in a.guards.items() if b.guards.get(k) == v}
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k, 0), b.ver.get(k, 0)
            r.ver[k] = x if x == y else max(x, y) + 1
        phis = []
        for k in set(a.store) | set(b.store):
            x = a.store.get(k); y = b.store.get(k)
            if x is None: x = self.load(a, k)
            if y is None: y = self.load(b, k)
            if x == y: r.store[k] = x
            else:
                phi = ('phi', self.frame if self.stack else '', tag, k)
                for q in (x, y):
                    if q in self.dom.nonneg or q[0] == 'c' and q[1] >= 0:
                        pass
                if all(q in self.dom.nonneg or (q[0] == 'c' and q[1] >= 0) for q in (x, y)): self.dom.nonneg.add(phi)
                else: self.dom.nonneg.discard(phi)
                t = self.atype.get(x) or self.atype.get(y)
                if t: self.atype[phi] = t
                phis.append((phi, x, y))
                r.store[k] = phi
        for k in set(a.tmp) & set(b.tmp):
            if a.tmp[k] == b.tmp[k]: r.tmp[k] = a.tmp[k]
            elif not isinstance(a.tmp[k], tuple) or not isinstance(b.tmp[k], tuple): continue
            elif a.tmp[k][0] == 'lv' or b.tmp[k][0] == 'lv':
                phi = ('phi', self.frame if self.stack else '', tag, ('t', k))
                r.tmp[k] = ('lv', ('d', phi))
            else:
                phi = ('phi', self.frame if self.stack else '', tag, ('t', k))
                r.tmp[k] = phi; phis.append((phi, a.tmp[k], b.tmp[k]))
        fs = set(a.facts & b.facts)
        for f in a.facts - b.facts:
            if self.holds(b, f): fs.add(f)
        for f in b.facts - a.facts:
            if self.holds(a, f): fs.add(f)
        ph = {p for p, _, _ in phis}
        fs = {f for f in fs if not any(mentions(f[1], p) for p in ph)}
        # keep sign / null facts of the merged quantities
        for p, x, y in phis:
            if x[0] in ('lv', 'copyof', 'iter', 'lam', 'void') or y[0] in ('lv', 'copyof', 'iter', 'lam', 'void'): continue
            tx, ty = self.truth(a, x), self.truth(b, y)
            if tx is True and ty is True: fs.add(('ne', p))
            elif tx is False and ty is False: fs.add(('eq', p))
            try:
                lo = [q for q in (self.const_lo(a, x), self.const_lo(b, y))]
                if None not in lo: fs.add(('ge', add(p, C(-min(lo)))))
            except Exception: pass
        r.facts = frozenset(fs)
        return r

    def const_lo(self, st, v):
        if v[0] == 'c': return v[1]
        if v[0] in ('cmp', 'not', 'logic'): return 0
        for n in (1, 0):
            if self.dom.entails_ge(st.facts, add(v, C(-n))): return n
        return None

    def holds(self, st, f):
        if f in st.facts: return True
        if f[0] == 'ge': return self.dom.entails_ge(st.facts, f[1])
        if f[0] == 'eq': return self.dom.entails_0(st.facts, f[1])
        return self.nez(st, f[1])

    # ------------------------------------------------------------------ loops
    def loop_mods(self, F, h):
        dyn = self.dyncls.get(self.this)
        key = ('loop', F.id, h, dyn)
        r = self.effcache.get(key)
        if r is not None: return r
        vids, fields, incs, ptrs = set(), set(), {}, set()
        for b in F.loops[h]:
            m, calls = block_effects(self.P, F, F.blocks[b].el)
            for x in m:
                if isinstance(x, tuple) and x[0] == 'v': vids.add(x[1])
                elif isinstance(x, tuple) and x[0] == 'p': ptrs.add(x[1])
                else: fields.add(x)
            for c, virt, onthis in calls:
                d2 = dyn if onthis else None
                for H in self.P.resolve(c, virt, d2): fields |= {y for y in self.effects(H, d2) if not (isinstance(y, tuple) and y[0] in ('v', 'p'))}
        # monotone counters: every write is ++ / += nonneg const (or --)
        for v in vids:
            sign = set()
            for b in F.loops[h]:
                for e in F.blocks[b].el:
                    if e['op'] in ('incdec', 'assign', 'cassign') and F.ins.get(e['a'], {}).get('op') == 'var' and F.ins[e['a']].get('vid') == v:
                        if e['op'] == 'incdec': sign.add('+' if e['o'] == '++' else '-')
                        elif e['op'] == 'cassign' and e['o'] in '+-' and F.ins.get(e['b'], {}).get('cv') is not None and F.ins[e['b']]['cv'] >= 0: sign.add(e['o'])
                        else: sign.add('?')
                    elif e['op'] == 'call' and e.get('obj') and F.ins.get(e['obj'], {}).get('op') == 'var' and F.ins[e['obj']].get('vid') == v: sign.add('?')
                    elif e['op'] == 'decl' and e['vid'] == v: sign.add('?')
                    elif e['op'] in ('call', 'ctor'):
                        for a in e.get('args', ()):
                            i = F.ins.get(a)
                            if i and i['op'] in ('var', 'addr') and (i.get('vid') == v or F.ins.get(i.get('a'), {}).get('vid') == v): sign.add('?')
            if sign == {'+'} or sign == {'-'}: incs[v] = sign.pop()
        r = (vids, fields, incs, ptrs)
        self.effcache[key] = r
        return r

    def counts(self, F, h, st, back):
        """the loop at h counts a local, whose value is known here, by a constant step to a constant bound near it"""
        key = ('count', F.id, h)
        r = self.effcache.get(key)
        if r is None:
            r = ()
            t = F.blocks[h].term or {}
            c = F.ins.get(t.get('c'), {})
            def peel(x):
                i = F.ins.get(x, {})
                while i.get('op') in ('cast', 'pass', 'load') and i.get('cv') is None: i = F.ins.get(i.get('a'), {})
                return i
            if len(F.blocks[h].succ) == 2 and c.get('op') == 'binop' and c.get('o') in ('<', '<=', '>', '>=', '!='):
                x, y = peel(c['a']), peel(c['b'])
                if x.get('cv') is not None or x.get('op') == 'int': x, y = y, x
                n = y.get('cv')
                if x.get('op') == 'var' and isinstance(n, int):
                    incs = self.loop_mods(F, h)[2]
                    if x['vid'] in incs: r = (x['vid'], n)
            self.effcache[key] = r
        if not r: return False
        v = st.store.get(('v', self.frame, r[0]))
        return v is not None and v[0] == 'c' and isinstance(v[1], int) and abs(r[1] - v[1]) <= self.cl.unroll

    def loop_flags(self, F, h):
        """bool locals that the loop only sets to constants: their value is kept, as a finite part of the state"""
        if self.cl.light: return set()
        key = ('flags', F.id, h)
        r = self.effcache.get(key)
        if r is not None: return r
        vids = self.loop_mods(F, h)[0]
        out = set()
        for v in vids:
            ok, ty, var = True, None, False
            for b in F.loops[h]:
                for e in F.blocks[b].el:
                    if e['op'] == 'var' and e.get('vid') == v: ty = e.get('t')
                    if e['op'] == 'assign' and F.ins.get(e['a'], {}).get('op') == 'var' and F.ins[e['a']].get('vid') == v:
                        ty = F.ins[e['a']].get('t')
                        rhs = F.ins.get(e['b'], {})
                        while rhs.get('op') in ('cast', 'pass'): rhs = F.ins.get(rhs['a'], {})
                        if not (rhs.get('op') == 'const' or rhs.get('cv') is not None): var = True
                    elif e['op'] in ('incdec', 'cassign') and F.ins.get(e['a'], {}).get('vid') == v: ok = False
                    elif e['op'] == 'decl' and e['vid'] == v: ok = False
                    elif e['op'] == 'addr' and F.ins.get(e['a'], {}).get('vid') == v: ok = False
                    elif e['op'] in ('call', 'ctor'):
                        for a, pt in zip(e.get('args', ()), e.get('pt') or ['&'] * len(e.get('args', ()))):
                            if F.ins.get(a, {}).get('vid') == v and F.ins[a]['op'] == 'var' and '&' in pt: ok = False
            if ok and ty == 'bool':
                out.add(v)
                if var: self.effcache.setdefault(('split', F.id), set()).add(v)
        self.effcache[key] = out
        return out

    def flag_key(self, F, h, st):
        return tuple((v, st.store.get(('v', self.frame, v))) for v in sorted(self.loop_flags(F, h)) if (st.store.get(('v', self.frame, v)) or ('?',))[0] == 'c')

    def loop_havoc(self, F, h, st):
        vids, fields, incs, ptrs = self.loop_mods(F, h)
        flags = self.loop_flags(F, h)
        for v in ptrs: self.havoc_pointee(st, ('v', self.frame, v), ('lp', self.frame, h))
        for v in vids:
            L = ('v', self.frame, v)
            old = st.store.get(L)
            if v in flags and old is not None and old[0] == 'c': continue
            if old is not None and old[0] == 'lv':
                # reference variable: the referenced object may be written
                tgt = old[1]
                if not self.rebinds(F, h, v):
                    self.havoc_obj(st, tgt, ('lp', self.frame, h))
                    continue
            nv = self.havoc_loc(st, L, ('lp', self.frame, h))
            if old is not None and old[0] not in ('lv', 'copyof', 'iter', 'lam'):
                t = self.atype.get(old)
                if old[0] == 'c' or t:
                    pass
                if v in incs:
                    if old[0] == 'hv': pass
                    else:
                        d = sub(nv, old) if incs[v] == '+' else sub(old, nv)
                        st.facts = st.facts | {('ge', d)}
        for f in fields:
            if isinstance(f, tuple): continue
            self.havoc_field(st, f)
        st.tmp = {}
        self.cl.after_havoc(self, st, F, h, fields)

    def havoc_pointee(self, st, L, tag):
        """what the pointer at L points to is written"""
        old = st.store.get(L)
        if old is not None and old[0] == 'lv':      # a reference: what it refers to is the pointer
            L = old[1]
            old = self.load(st, L)
        if old is None: self.havoc_loc(st, L, tag); return
        if old[0] in ('addr', 'lv'):
            T = old[1]
            while T[0] == 'i': T = T[1]
            self.havoc_obj(st, T, tag)
            return
        if old[0] in ('iter', 'copyof', 'lam', 'c'): self.havoc_loc(st, L, tag); return
        D = self.lockey(('d', old))
        ks = {D, ('i', D)}
        for key in [x for x in st.store if x[0] in ('i', 'd') and (self.lockey(x) in ks or x[1] == ('d', old) or x == ('d', old))]: del st.store[key]
        for k in ks: self.bump(st, k)

    def rebinds(self, F, h, v):
        return any(e['op'] == 'decl' and e['vid'] == v for b in F.loops[h] for e in F.blocks[b].el)

    # ------------------------------------------------------------------ blocks
    def block(self, F, B, st):
        """execute block from state; yields (state, successor)"""
        work = [(st.copy() if len(B.succ) > 1 else st, 0)]
        done = []
        while work:
            s, i = work.pop()
            dead = False
            while i < len(B.el):
                e = B.el[i]
                r = self.instr(s, e)
                i += 1
                if r is None: continue
                # forked: list of states
                if len(r) == 0: dead = True; break
                for extra in r[1:]: work.append((extra, i))
                s = r[0]
            if not dead: done.append(s)
        out = []
        for s in done:
            if B.noreturn: continue
            term = B.term
            succ = B.succ
            live = [x for x in succ if x is not None]
            if len(succ) <= 1 or not term or 'c' not in term:
                for k, x in enumerate(live):
                    out.append((s if k == len(live) - 1 else s.copy(), x))
                continue
            if term['k'] == 'SwitchStmt':
                out += self.switch(F, B, s)
                continue
            ins = F.ins.get(term['c'], {'l': term['l'], 'op': '?'})
            v = self.val(s, term['c'])
            v = self.rvalue(s, v)
            for k, truthv in ((0, True), (1, False)):
                if k >= len(succ) or succ[k] is None: continue
                s2 = s.copy()
                s2 = self.assume(s2, v, truthv)
                if s2 is None: continue
                if self.cl.on_branch(self, s2, ins, v, truthv) is False: continue      # the rule knows the branch is not taken
                if term['k'] in ('ConditionalOperator', 'BinaryConditionalOperator') or term['k'] == 'BinaryOperator':
                    s2.tmp[('br', term['c'])] = truthv
                out.append((s2, succ[k]))
        return out

    def switch(self, F, B, s):
        v = self.rvalue(s, self.val(s, B.term['c']))
        out = []
        cases = []
        default = None
        for x in B.succ:
            if x is None: continue
            lab = F.blocks[x].lab or {}
            if 'case' in lab: cases.append((lab['case'], lab.get('hi'), x))
            else: default = x
        neg_ = []
        for lo, hi, x in cases:
            s2 = s.copy()
            if hi is not None:
                s2 = self.assume(s2, ('cmp', '>=', v, C(lo)), True)
                if s2 is not None: s2 = self.assume(s2, ('cmp', '<=', v, C(hi)), True)
            else:
                s2 = self.assume(s2, ('cmp', '==', v, C(lo)), True)
            if s2 is not None:
                self.cl.on_branch(self, s2, B.term, ('cmp', '==', v, C(lo)), True)
                out.append((s2, x))
        if default is not None:
            s2 = s.copy()
            for lo, hi, x in cases:
                if hi is None and s2 is not None: s2 = self.assume(s2, ('cmp', '==', v, C(lo)), False)
            if s2 is not None:
                t = self.atype.get(v)
                en = self.P.enums.get(base_type(t)) if t else None
                if en and all(any(lo == val for lo, hi, _ in cases) for _, val in en['values']) and False:
                    pass
                out.append((s2, default))
        return out

    # ------------------------------------------------------------------ values
    def val(self, st, sid):
        v = st.tmp.get(sid)
        if v is not None: return v
        e = self.F.ins.get(sid)
        if e is None: return ('unk', sid)
        if 'cv' in e: return C(e['cv'])
        # evaluated in a block that was joined away or in a previous iteration: evaluate pure operands again
        if e['op'] in ('var', 'this', 'int', 'str', 'null', 'member', 'load', 'decay', 'cast', 'addr', 'deref', 'binop', 'unop', 'logic', 'cond', 'pass', 'index', 'fnaddr'):
            self.instr(st, e)
            if sid in st.tmp: return st.tmp[sid]
        v = ('ret', self.frame, sid)
        self.note_type(v, e.get('t'))
        if e.get('lv'): return ('lv', ('d', v))
        return v

    def rvalue(self, st, v, t=None):
        if v[0] == 'lv': return self.load(st, v[1], t)
        return v

    def arith(self, st, o, a, b, t, ins):
        if o == '+':
            return self.padd(a, b)
        if o == '-':
            if a[0] == 'addr' and b[0] == 'addr' and a[1][0] == 'i' and b[1][0] == 'i' and a[1][1] == b[1][1]:
                return sub(a[1][2], b[1][2])
            if a[0] == 'addr' and b[0] != 'addr': return self.padd(a, neg(b))
            r = sub(a, b)
            if is_unsigned(t) and r[0] != 'c' and not self.ent_ge(st, r):
                x = ('op', 'usub', a, b); self.dom.nonneg.add(x); return x
            if is_unsigned(t) and r[0] == 'c' and r[1] < 0: return ('op', 'usub', a, b)
            return r
        if o == '*':
            if a[0] == 'c' and b[0] == 'c': return C(a[1] * b[1])
            if a[0] == 'c': return mulc(b, a[1])
            if b[0] == 'c': return mulc(a, b[1])
            x, y = sorted((a, b), key=repr)
            # distribute over a constant multiple so that products compare equal
            r = ('op', '*', x, y)
            if (a in self.dom.nonneg or self.ent_ge(st, a)) and (b in self.dom.nonneg or self.ent_ge(st, b)): self.dom.nonneg.add(r)
            return r
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if o == '/': return C(int(x / y)) if abs(x) < 1 << 50 else C(x // y)
                if o == '%': return C(x - y * int(x / y))
                if o == '<<': return C(x << y)
                if o == '>>': return C(x >> y)
                if o == '&': return C(x & y)
                if o == '|': return C(x | y)
                if o == '^': return C(x ^ y)
            except Exception: pass
        if o == '%':
            r = ('op', '%', a, b)
            if self.ent_ge(st, a) and self.ent_ge(st, add(b, C(-1))):
                if self.ent_ge(st, add(sub(b, a), C(-1))): return a
                self.dom.nonneg.add(r)
                return r
            r = ('op', '%?', a, b)
            if is_unsigned(t): self.dom.nonneg.add(r)
            return r
        if o == '/':
            if self.ent_ge(st, a) and self.ent_ge(st, add(b, C(-1))):
                r = ('op', '/', a, b); self.dom.nonneg.add(r); return r
            r = ('op', '/?', a, b)
            if is_unsigned(t): self.dom.nonneg.add(r)
            return r
        r = ('op', o, a, b)
        if is_unsigned(t): self.dom.nonneg.add(r)
        return r

    def modsplit(self, st, a, b):
        """a % b with 0 <= a < 2b: two linear cases"""
        if not (self.ent_ge(st, add(b, C(-1))) and self.ent_ge(st, a)): return None
        if not self.ent_ge(st, add(sub(mulc(b, 2), a), C(-1))): return None
        out = []
        s2 = st.copy()
        s1 = self.addfact(st.copy(), ('ge', add(sub(b, a), C(-1))))
        if s1 is not None: out.append((s1, a))
        s2 = self.addfact(s2, ('ge', sub(a, b)))
        if s2 is not None: out.append((s2, sub(a, b)))
        return out

    def padd(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'addr' and x[1][0] == 'i' and y[0] != 'addr':
                return ('addr', ('i', x[1][1], add(x[1][2], y)))
        return add(a, b)

    def compare(self, st, o, a, b):
        if o in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'iter' and y[0] == 'iterend':
                    if len(x) > 3 and x[3] == 'find':
                        has = ('op', 'has', x[1], x[2], x[4])
                        return ('cmp', '==' if o == '==' else '!=', has, C(0))
                if x[0] in ('cmp', 'not', 'logic') and y[0] == 'c' and y[1] in (0, 1):
                    pos = (y[1] == 1) == (o == '==')
                    return x if pos else ('not', x)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            return C({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o])
        if a[0] in ('cmp', 'not', 'logic'): a = self.boolatom(a)
        if b[0] in ('cmp', 'not', 'logic'): b = self.boolatom(b)
        if 'flt' in (a[0], b[0]) and a[0] in ('flt', 'c') and b[0] in ('flt', 'c'):
            x, y = float(a[1]), float(b[1])
            return C(int({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[o]))
        return ('cmp', o, a, b)

    def boolatom(self, v):
        return ('op', 'bool', v, ('c', 0))

    def num(self, v):
        if v[0] in ('cmp', 'not', 'logic'): return self.boolatom(v)
        return v

    # ------------------------------------------------------------------ instructions
    def instr(self, st, e):
        op = e['op']
        i = e['i']
        tmp = st.tmp
        if 'cv' in e and op not in ('decl', 'call', 'ctor', 'assign', 'incdec', 'cassign'):
            tmp[i] = C(e['cv']); return
        V = lambda k: self.val(st, e[k])
        R = lambda k: self.rvalue(st, self.val(st, e[k]), e.get('t'))
        if op == 'int': tmp[i] = C(e.get('cv', 0)); return
        if op == 'float': tmp[i] = ('flt', e['v']); return
        if op == 'str': tmp[i] = ('str', e['v'], e.get('len')); return
        if op in ('null', 'zero'): tmp[i] = C(0); return
        if op == 'this':
            tmp[i] = self.this or ('sym', 'this', '?'); return
        if op == 'var':
            if 'global' in e:
                L = ('g', e['global'])
                if e.get('ref'):
                    tmp[i] = ('lv', self.deref(self.load(st, L))); return
                self.atype.setdefault(('gaddr', e['global']), e['t'])
                tmp[i] = ('lv', L); return
            L = ('v', self.frame, e['vid'])
            sv = st.store.get(L)
            if sv is not None and sv[0] == 'lv' :
                tmp[i] = sv; return
            if e.get('ref') and not e.get('captured'):
                pv = ('refp', self.frame, e['vid']); self.atype.setdefault(pv, e['t'] + ' *')
                tmp[i] = ('lv', ('d', pv)); return
            tmp[i] = ('lv', L); return
        if op == 'member':
            b = V('b')
            if e['arrow']:
                p = self.rvalue(st, b)
                self.cl.on_deref(self, st, e, p)
                L = self.deref(p)
            elif b[0] == 'lv': L = b[1]
            elif b[0] == 'copyof': L = b[1]
            else:
                L = ('obj', b)
                st.store.setdefault(L, b)
                p = pairval(b)
                if p and e['cls'] == 'std::pair' and e['f'] in ('first', 'second'):
                    tmp[i] = p[e['f'] == 'second']; return
            f = (e['cls'] + '::' + e['f'])
            ML = self.memloc(st, L, f)
            if e.get('ref'):
                pv = self.load(st, ML, e['t'] + ' *')
                tmp[i] = pv if pv[0] == 'lv' else ('lv', self.deref(pv))
            else: tmp[i] = ('lv', ML)
            self.cl.on_member(self, st, e, ML)
            return
        if op == 'index':
            p = self.rvalue(st, V('b')); x = self.num(self.rvalue(st, V('x')))
            self.cl.on_index(self, st, e, p, x)
            q = self.padd(p, x)
            if p[0] != 'addr': self.cl.on_deref(self, st, e, p)
            tmp[i] = ('lv', self.deref(q)); return
        if op == 'deref':
            p = self.rvalue(st, V('a'))
            self.cl.on_deref(self, st, e, p)
            if p[0] in ('fn', 'lam'): tmp[i] = p; return
            tmp[i] = ('lv', self.deref(p)); return
        if op == 'addr':
            a = V('a')
            if a[0] == 'lv':
                L = a[1]
                tmp[i] = L[1] if L[0] == 'd' else ('addr', L)
            else: tmp[i] = ('addr', ('obj', a))
            return
        if op == 'fnaddr': tmp[i] = ('fn', e['callee']); return
        if op == 'load':
            a = V('a')
            if a[0] == 'lv':
                v = self.load(st, a[1], e.get('t'))
                self.cl.on_load(self, st, e, a[1], v)
                if v[0] == 'lv': v = self.load(st, v[1], e.get('t'))
                if v[0] == 'copyof' : v = ('copyof', v[1])
                tmp[i] = v
            else: tmp[i] = a
            return
        if op == 'decay':
            a = V('a')
            if a[0] == 'lv':
                L = a[1]
                p = ('addr', ('i', L, C(0)))
                self.atype.setdefault(p, e.get('t', ''))
                tmp[i] = p
            else: tmp[i] = a
            return
        if op == 'cast': tmp[i] = self.cast(st, e, V('a')); return
        if op == 'pass': tmp[i] = V('a'); return
        if op == 'unop':
            a = self.rvalue(st, V('a'), e.get('t'))
            if e['o'] == '!':
                if a[0] == 'not': tmp[i] = a[1] if a[1][0] in ('cmp', 'logic', 'not') else ('cmp', '!=', a[1], C(0))
                elif a[0] == 'cmp':
                    o = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[a[1]]
                    tmp[i] = ('cmp', o, a[2], a[3])
                elif a[0] == 'c': tmp[i] = C(a[1] == 0)
                elif a[0] == 'logic': tmp[i] = ('not', a)
                else: tmp[i] = ('cmp', '==', a, C(0))
            elif e['o'] == '-': tmp[i] = neg(self.num(a))
            elif e['o'] == '+': tmp[i] = a
            else: tmp[i] = ('op', 'u' + e['o'], a, C(0))
            return
        if op == 'binop':
            a = self.rvalue(st, V('a'), e.get('lt')); b = self.rvalue(st, V('b'))
            a, b = (a if a[0] in ('iter', 'iterend') else a), b
            self.cl.on_binop(self, st, e, e['o'], a, b)
            if e['o'] in ('==', '!=', '<', '<=', '>', '>='):
                tmp[i] = self.compare(st, e['o'], a, b)
            else:
                a, b = self.num(a), self.num(b)
                if e['o'] == '%' and self.cl.split_mod:
                    r = self.modsplit(st, a, b)
                    if r is not None:
                        for s, v in r: s.tmp[i] = v
                        return [s for s, _ in r]
                tmp[i] = self.arith(st, e['o'], a, b, e.get('t'), e)
            return
        if op == 'assign':
            a = V('a'); b = self.rvalue_copy(st, V('b'))
            return self.do_store(st, e, a, b)
        if op == 'cassign':
            a = V('a'); b = self.num(self.rvalue(st, V('b')))
            old = self.num(self.rvalue(st, a, e.get('t')))
            self.cl.on_binop(self, st, e, e['o'], old, b)
            if e['o'] == '%' and self.cl.split_mod:
                r = self.modsplit(st, old, b)
                if r is not None:
                    for s, v in r: self.do_store(s, e, a, v)
                    return [s for s, _ in r]
            v = self.arith(st, e['o'], old, b, e.get('t'), e)
            return self.do_store(st, e, a, v)
        if op == 'incdec':
            a = V('a'); old = self.num(self.rvalue(st, a, e.get('t')))
            self.cl.on_binop(self, st, e, '+' if e['o'] == '++' else '-', old, C(1))
            v = self.arith(st, '+' if e['o'] == '++' else '-', old, C(1), e.get('t'), e)
            self.do_store(st, e, a, v)
            if not e['prefix']: st.tmp[i] = old
            return
        if op == 'comma': tmp[i] = V('b'); return
        if op == 'logic':
            la = tmp.get(e['a'])
            br = tmp.get(('br', e['a']))
            av = self.val(st, e['a'])
            if br is None and self.F.ins.get(e['a'], {}).get('op') == 'logic':
                br = self.truth(st, self.rvalue(st, av))
            if br is not None:
                if e['o'] == '&&' and br is False: tmp[i] = C(0); return
                if e['o'] == '||' and br is True: tmp[i] = C(1); return
                tmp[i] = self.rvalue(st, V('b')); return
            tmp[i] = ('logic', e['o'], self.rvalue(st, av), self.rvalue(st, V('b'))); return
        if op == 'cond':
            br = tmp.get(('br', e['c']))
            if br is None:
                t = self.truth(st, self.rvalue(st, V('c')))
                br = t
            if br is None:
                # condition evaluated through short-circuit blocks: see which arm was evaluated
                if e['a'] in tmp and e['b'] not in tmp: br = True
                elif e['b'] in tmp and e['a'] not in tmp: br = False
            if br is True: tmp[i] = V('a')
            elif br is False: tmp[i] = V('b')
            else:
                v = ('op', 'cond', self.frame, i); self.purge(st, v); self.note_type(v, e.get('t')); tmp[i] = v if not e.get('lv') else ('lv', ('d', v))
            return
        if op == 'initlist':
            tmp[i] = ('list',) + tuple(self.rvalue(st, self.val(st, a)) for a in e['args']); return
        if op == 'lambda':
            caps = []
            for c in e['caps']:
                if c.get('this'): caps.append(('this', self.this)); continue
                v = self.val(st, c['v']) if 'v' in c else None
                if 'vid' not in c: continue
                if c.get('byref'):
                    sv = st.store.get(('v', self.frame, c['vid']))
                    caps.append((c['vid'], sv if sv is not None and sv[0] == 'lv' else ('lv', ('v', self.frame, c['vid']))))
                else:
                    caps.append((c['vid'], self.rvalue(st, v) if v is not None else ('unk', i)))
            tmp[i] = ('lam', e['callee'], tuple(caps)); return
        if op == 'decl': return self.decl(st, e)
        if op == 'init': return self.ctor_init(st, e)
        if op == 'return':
            v = self.val(st, e['v']) if 'v' in e else ('void',)
            if v[0] == 'lv' and not self.ret_is_ref():
                v = self.rvalue_copy(st, v)
            self.cl.on_return(self, st, self.F, v, e)
            st.store[('ret', self.frame)] = v
            return
        if op == 'call': return self.call(st, e)
        if op == 'ctor': return self.ctor(st, e)
        if op == 'new':
            init = e.get('init')
            v = ('new', self.frame, i)
            if init:
                iv = self.val(st, init)
                if iv[0] == 'copyof' and iv[1][0] == 'd' and iv[1][1][0] == 'new': v = iv[1][1]
            n = self.num(self.rvalue(st, self.val(st, e['n']))) if 'n' in e else C(1)
            self.purge(st, v)
            self.atype[v] = e['t']
            c = base_type(e['nt'])
            if c in self.P.classes: self.dyncls[v] = c
            self.cl.on_new(self, st, e, v, n)
            tmp[i] = v; return
        if op == 'delete':
            v = self.rvalue(st, V('a'))
            self.cl.on_delete(self, st, e, v); tmp[i] = ('void',); return
        if op == 'throw':
            self.cl.on_throw(self, st, e); return []
        if op == 'autodtor':
            L = ('v', self.frame, e['vid'])
            if L in st.guards:
                m, owned = st.guards.pop(L)
                if owned: self.unlock(st, e, m)
                return
            self.cl.on_dtor(self, st, e, L, e['t'])
            return
        if op in ('memberdtor', 'basedtor', 'stmt'):
            if op == 'memberdtor': self.cl.on_dtor(self, st, e, ('m', self.deref(self.this or ('sym', 'this', '?')), e['cls'] + '::' + e['f']), e['t'])
            return
        # opaque
        v = ('ret', self.frame, i); self.purge(st, v); self.note_type(v, e.get('t'))
        tmp[i] = ('lv', ('d', v)) if e.get('lv') else v

    def ret_is_ref(self):
        return '&' in self.F.ret

    def rvalue_copy(self, st, v):
        if v[0] == 'lv':
            x = st.store.get(v[1])
            if x is not None and x[0] == 'copyof':
                own = [k for k in st.store if k[0] in ('m', 'i') and self.under(k, v[1])]
                if own:
                    # an object with members of its own: a snapshot
                    n = st.ver.get(('snap', v[1]), 0) + 1
                    st.ver[('snap', v[1])] = n
                    O = ('snap', v[1], n)
                    st.store[O] = x
                    for k in own: st.store[rebase(k, v[1], O)] = st.store[k]
                    return ('copyof', O)
            if x is not None and x[0] not in ('lv',): return x
            return ('copyof', v[1])
        return v

    def do_store(self, st, e, a, v):
        i = e['i']
        if a[0] != 'lv':
            st.tmp[i] = v; return
        L = a[1]
        r = self.cl.on_store(self, st, e, L, v)
        if v[0] not in ('c', 'lin', 'copyof', 'lv', 'list', 'iter', 'void') and is_unsigned(e.get('t')): self.dom.nonneg.add(v)
        if L[0] == 'v' and L[1] == self.frame and v[0] != 'c' and L[2] in self.effcache.get(('split', self.stack[-1][0].id), ()):
            out = []
            for k in (True, False):
                s2 = self.assume(st.copy(), v, k)
                if s2 is None: continue
                self.put(s2, L, C(int(k)), e); s2.tmp[i] = ('lv', L)
                out.append(s2)
            return out
        self.put(st, L, v, e)
        p = pairval(v)
        if p:
            for f, x in zip(('std::pair::first', 'std::pair::second'), p): st.store[self.memloc(st, L, f)] = x
        st.tmp[i] = ('lv', L)

    def decl(self, st, e):
        L = ('v', self.frame, e['vid'])
        if e.get('staticlocal'):
            return
        t = e['t']
        if 'init' in e:
            v = self.val(st, e['init'])
            if e.get('ref'):
                if v[0] != 'lv':
                    O = ('tmpobj', self.frame, e['i']); st.store[O] = v; v = ('lv', O)
                st.store[L] = v
                return
            if v[0] == 'guard':
                st.guards[L] = (v[1], v[2]); st.store[L] = v; return
            v = self.rvalue_copy(st, v)
            self.cl.on_store(self, st, e, L, v)
            for key in [x for x in st.store if x[0] in ('m', 'i') and self.under(x, L)]: del st.store[key]
            if v[0] == 'list':
                for k, x in enumerate(v[1:]): st.store[('i', L, C(k))] = x
            st.store[L] = v
            if v[0] not in ('c', 'lin', 'lv', 'copyof', 'list', 'iter', 'void', 'cmp', 'not', 'logic'): self.note_type(v, t)
        else:
            for key in [x for x in st.store if x[0] in ('m', 'i') and self.under(x, L)]: del st.store[key]
            v = ('uninit', self.frame, e['vid'])
            self.purge(st, v)
            self.note_type(v, t)
            if CONTAINERS.match(t) or t in self.P.classes: st.store.pop(L, None)
            else: st.store[L] = v

    def ctor_init(self, st, e):
        if 'f' in e:
            L = ('m', self.deref(self.this), e['cls'] + '::' + e['f'])
            if 'v' in e:
                v = self.val(st, e['v'])
                if '&' in e['t']:
                    st.store[L] = v if v[0] == 'lv' else v
                    return
                v = self.rvalue_copy(st, v)
                if v[0] == 'guard': v = ('unk', e['i'])
                self.cl.on_store(self, st, e, L, v)
                st.store[L] = v
            return
        return

    def cast(self, st, e, a):
        k = e['k']
        t = e.get('t', '')
        if e.get('dyn'):
            p = self.rvalue(st, a) if not e.get('refcast') else a
            if e.get('refcast'): return a
            v = ('dyn', p, base_type(t))
            self.atype[v] = t
            c = self.dyncls.get(p)
            if c and self.P.isa(c, base_type(t)): return p
            return v
        if k in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast', 'ToVoid', 'UserDefinedConversion', 'ConstructorConversion', 'IntegralToPointer', 'PointerToIntegral', 'Dynamic', 'CPointerToObjCPointerCast', 'LValueToRValueBitCast', 'ArrayToPointerDecay', 'BaseToDerivedMemberPointer', 'AddressSpaceConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return a
        v = self.rvalue(st, a, e.get('ft'))
        if k in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            if v[0] in ('cmp', 'not', 'logic'): return v
            if v[0] == 'c': return C(v[1] != 0)
            if v[0] in ('addr', 'str', 'fn', 'lam', 'new'): return C(1)
            return ('cmp', '!=', v, C(0))
        if k == 'IntegralCast':
            ft = e.get('ft', '')
            v = self.num(v) if v[0] in ('cmp', 'not', 'logic') and 'bool' not in t else v
            v = self.cl.on_cast(self, st, e, v, ft, t)
            if is_unsigned(t) and not is_unsigned(ft) and v[0] not in ('cmp', 'not', 'logic'):
                if v[0] == 'c':
                    if v[1] >= 0: return v
                    w = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32}.get(t.replace('const ', ''), 64)
                    return C(v[1] % (1 << w))
                if self.ent_ge(st, v): return v
                if ft.replace('const ', '') in ('char',) : pass
                x = ('op', 'u', v, ('str', t)); self.dom.nonneg.add(x); return x
            return v
        if k in ('FloatingToIntegral',):
            x = ('op', 'f2i', v, C(0))
            if is_unsigned(t) or self.cl.nonneg(self, st, v): self.dom.nonneg.add(x)
            return x
        if k in ('IntegralToFloating', 'FloatingCast'):
            if v[0] == 'c': return ('flt', float(v[1]))
            return v if k == 'FloatingCast' else ('op', 'i2f', v, C(0))
        return v

    # ------------------------------------------------------------------ locks
    def lock(self, st, e, m):
        self.cl.on_lock(self, st, e, m)
        st.locks = st.locks + (m,)
        for f in self.cl.guarded_fields(self, m): self.havoc_field(st, f)

    def unlock(self, st, e, m):
        self.cl.on_unlock(self, st, e, m)
        L = list(st.locks)
        for k in range(len(L) - 1, -1, -1):
            if L[k] == m: del L[k]; break
        st.locks = tuple(L)

    def mutex_of(self, v):
        return v[1] if v[0] == 'lv' else ('d', v)

    # ------------------------------------------------------------------ calls
    def ctor(self, st, e):
        i = e['i']; cls = e['cls']
        args = [self.val(st, a) for a in e['args']]
        if cls in LOCKCLS:
            if not args: st.tmp[i] = ('guard', None, False); return
            m = self.mutex_of(args[0])
            owned = True
            if len(args) > 1:
                ts = (e.get('pt') or ['', ''])[1]
                if 'defer' in ts or 'try_to' in ts: owned = False
                if 'adopt' in ts:
                    st.tmp[i] = ('guard', m, True); return
            if args[0][0] == 'guard' or e.get('move') or e.get('copy'):
                st.tmp[i] = self.rvalue(st, args[0]); return
            if owned: self.lock(st, e, m)
            st.tmp[i] = ('guard', m, owned); return
        r = self.cl.on_call(self, st, e, e['fn'], None, args, [])
        if r is not NotImplemented: return self.finish_call(st, e, r, args)
        if cls in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
            if not args: st.tmp[i] = C(0)
            else: st.tmp[i] = self.rvalue(st, args[0])
            return
        if cls in ('std::chrono::duration', 'std::chrono::time_point'):
            r = self.chrono_ctor(st, e, args)
            if r is not NotImplemented:
                st.tmp[i] = r; return
        if e.get('copy') or e.get('move'):
            F = self.P.funcs.get(e['callee'])
            if (F is None or F.implicit) and len(args) >= 1:
                st.tmp[i] = self.rvalue_copy(st, args[0]); return
        if 'iterator' in cls.lower() and len(args) == 1:
            st.tmp[i] = self.rvalue(st, args[0]); return
        if cls == 'std::basic_string':
            if len(args) >= 1:
                v = self.rvalue(st, args[0])
                if v[0] == 'addr' and v[1][0] == 'i' and v[1][1][0] == 'obj' and v[1][1][1][0] == 'str': v = v[1][1][1]
                st.tmp[i] = v; return
            st.tmp[i] = ('str', '', 0); return
        F = self.P.funcs.get(e['callee'])
        base = i in self.base_ctors()
        if base: nv = self.this
        else:
            nv = ('new', self.frame, i)
            self.purge(st, nv)
            self.atype[nv] = cls + ' *'
            self.dyncls[nv] = cls
            for key in [k for k in st.store if self.under(k, ('d', nv)) or k == ('d', nv)]: del st.store[key]
        if F is not None and len(self.stack) <= self.cl.max_depth and not any(f[0] is F for f in self.stack) and self.cl.inline(self, st, F, e):
            outs = self.exec(F, nv, args, st, self.frame + '/%d' % i)
            res = []
            for s, v in outs:
                s.tmp[i] = ('copyof', ('d', nv)); res.append(s)
            return res
        vals = tuple(self.rvalue(st, a) if a[0] != 'copyof' else a for a in args)
        if cls not in ('std::pair', 'std::tuple'):
            for a, pt in zip(args, e.get('pt', ())): self.havoc_arg(st, a, pt, e)
        if cls in self.P.classes:
            st.tmp[i] = ('copyof', ('d', nv))
        else:
            v = ('pcall', e['fn'], '', vals) if args else ('obj', self.frame, i)
            st.tmp[i] = v

    def base_ctors(self):
        """constructor calls of the current function that initialise a base (or delegate): they run on the object itself"""
        if not self.stack: return ()
        F = self.stack[-1][0]
        c = self.basec.get(F.id)
        if c is None:
            c = self.basec[F.id] = {e['v'] for b in F.blocks.values() for e in b.el if e['op'] == 'init' and 'f' not in e and 'v' in e}
        return c

    def havoc_arg(self, st, a, pt, e):
        if 'const' in pt and ('&' in pt or '*' in pt) and '&&' not in pt:
            # pointer/reference to const: not written (const pointers to non-const data end with '*const')
            if not re.search(r'\*\s*const$', pt): return
        if '&' in pt and a[0] == 'lv':
            self.havoc_obj(st, a[1], ('call', self.frame, e['i']))
        elif '*' in pt:
            v = a if a[0] != 'lv' else self.load(st, a[1])
            if v[0] == 'addr':
                L = v[1]
                if L[0] == 'i': self.havoc_obj(st, L[1], ('call', self.frame, e['i']))
                else: self.havoc_obj(st, L, ('call', self.frame, e['i']))
            elif v[0] not in ('c', 'str', 'fn'):
                L = self.deref(v)
                for key in [k for k in st.store if self.under(k, L) or k == L]: del st.store[key]
                self.bump(st, ('*', base_type(self.atype.get(v, ''))))

    def finish_call(self, st, e, r, args):
        i = e['i']
        if isinstance(r, list):
            out = []
            for s, v in r:
                s.tmp[i] = v
                out.append(s)
            return out
        st.tmp[i] = r if r is not None else ('void',)
        return None

    def fresh(self, st, e, what='ret'):
        v = (what, self.frame, e['i'])
        self.purge(st, v)
        t = e.get('t')
        self.note_type(v, t)
        return ('lv', ('d', v)) if e.get('lv') else v

    def call(self, st, e):
        i = e['i']
        fn = e.get('fn', '')
        short = fn.rsplit('::', 1)[-1]
        cls = e.get('cls')
        obj = self.val(st, e['obj']) if 'obj' in e else None
        if obj is not None and e.get('arrow'):
            p = self.rvalue(st, obj)
            self.cl.on_deref(self, st, e, p)
            obj = ('lv', self.deref(p))
        args = [self.val(st, a) for a in e['args']]
        # --- locks
        if cls in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'pthread_mutex'):
            m = self.mutex_of(obj)
            if short == 'lock': self.lock(st, e, m); st.tmp[i] = ('void',); return
            if short == 'unlock': self.unlock(st, e, m); st.tmp[i] = ('void',); return
            if short == 'try_lock':
                s2 = st.copy(); s2.tmp[i] = C(0)
                self.lock(st, e, m); st.tmp[i] = C(1)
                return [st, s2]
        if cls in LOCKCLS and obj is not None and obj[0] == 'lv':
            g = st.guards.get(obj[1])
            if g and short in ('lock', 'unlock', 'release', 'owns_lock'):
                if short == 'lock' and not g[1]:
                    self.lock(st, e, g[0]); st.guards[obj[1]] = (g[0], True); st.tmp[i] = ('void',); return
                if short == 'unlock' and g[1]:
                    self.unlock(st, e, g[0]); st.guards[obj[1]] = (g[0], False); st.tmp[i] = ('void',); return
                if short == 'owns_lock': st.tmp[i] = C(g[1]); return
                if short == 'release': st.guards.pop(obj[1]); st.tmp[i] = ('void',); return
                st.tmp[i] = ('void',); return
        if fn == 'std::lock':
            for a in args: self.lock(st, e, self.mutex_of(a))
            st.tmp[i] = ('void',); return
        # --- candidates
        dyn = None
        if e.get('virt') and obj is not None and obj[0] == 'lv':
            if obj[1][0] == 'd': dyn = self.dyncls.get(obj[1][1])
        cands = self.P.resolve(e['callee'], e.get('virt'), dyn) if 'callee' in e else []
        if fn in LOGFNS:
            st.tmp[i] = ('void',); return
        if fn in ('std::copy', 'std::copy_n') and len(args) == 3 and all(BYTEPTR.match(t) for k, t in enumerate(e.get('pt') or ['']) if not (fn == 'std::copy_n' and k == 1)):
            a, b, c = (self.rvalue(st, x) for x in args)
            fn, args = 'memcpy', [c, a, sub(b, a)] if fn == 'std::copy' else [c, a, b]
        if fn == 'std::make_pair' and len(args) == 2:
            st.tmp[i] = ('pcall', 'std::pair::pair', '', tuple(self.rvalue(st, a) for a in args)); return
        if fn == 'std::pair::operator=' and len(args) == 1 and obj is not None and obj[0] == 'lv':
            p = pairval(self.rvalue(st, args[0]))
            if p:
                for f, x in zip(('std::pair::first', 'std::pair::second'), p):
                    L = self.memloc(st, obj[1], f)
                    self.cl.on_store(self, st, e, L, x)
                    self.put(st, L, x, e)
                st.tmp[i] = obj; return
        if fn in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if') and len(args) == 3:
            r = self.algo(st, e, short, args)
            if r is not None: return r
        r = self.cl.on_call(self, st, e, fn, obj, args, cands)
        if r is not NotImplemented:
            return self.finish_call(st, e, r, args)
        # --- indirect through lambda / function value
        if 'ind' in e or (cls == 'std::function' and short == 'operator()'):
            f = self.rvalue(st, self.val(st, e['ind'])) if 'ind' in e else self.rvalue(st, obj)
            if f[0] == 'lam': return self.call_lambda(st, e, f, args)
            if f[0] == 'fn' and f[1] in self.P.funcs: cands = [self.P.funcs[f[1]]]
            else:
                self.generic_effects(st, e, args)
                st.tmp[i] = self.fresh(st, e); return
        if short == 'operator()' and obj is not None:
            f = self.rvalue(st, obj)
            if f[0] == 'lam': return self.call_lambda(st, e, f, args)
        if len(cands) == 0 or (len(cands) > 1) or not self.inlinable(st, cands[0], e):
            m = self.std_model(st, e, fn, short, cls, obj, args)
            if m is not NotImplemented: return m
            return self.opaque_call(st, e, fn, obj, args, cands)
        F = cands[0]
        this = None
        if obj is not None and not F.static:
            L = obj[1] if obj[0] == 'lv' else ('obj', obj)
            this = L[1] if L[0] == 'd' else ('addr', L)
            if obj[0] != 'lv': st.store.setdefault(L, obj)
        args2 = []
        for a, p in zip(args, F.params):
            if p['ref'] and a[0] not in ('lv', 'guard'):
                O = ('tmpobj', self.frame, e['i'], p['vid']); st.store[O] = a; a = ('lv', O)
            elif not p['ref'] and a[0] == 'lv':
                a = self.rvalue_copy(st, a)
            args2.append(a)
        outs = self.exec(F, this, args2, st, self.frame + '/%d' % i)
        res = []
        for s, v in outs:
            if e.get('lv') and v[0] not in ('lv',): v = ('lv', self.deref(v))
            if v[0] in ('ret',) : pass
            s.tmp[i] = v
            self.cl.after_call(self, s, e, fn, obj, args, v)
            res.append(s)
        return res

    def call_lambda(self, st, e, f, args):
        G = self.P.funcs.get(f[1])
        if G is None or len(self.stack) > self.cl.max_depth or any(x[0] is G for x in self.stack):
            self.generic_effects(st, e, args)
            st.tmp[e['i']] = self.fresh(st, e); return
        caps = {}; this = None
        for k, v in f[2]:
            if k == 'this': this = v
            else: caps[k] = v
        outs = self.exec(G, this, args, st, self.frame + '/%d' % e['i'], caps)
        res = []
        for s, v in outs:
            s.tmp[e['i']] = v; res.append(s)
        return res

    def algo(self, st, e, what, args):
        """a search with a predicate over a whole container, as the loop that it is"""
        a, b, f = args[0] if args[0][0] == 'iter' else self.rvalue(st, args[0]), args[1] if args[1][0] == 'iterend' else self.rvalue(st, args[1]), self.rvalue(st, args[2])
        if a[0] != 'iter' or a[3] != 'begin' or b[0] != 'iterend' or a[1] != b[1] or f[0] != 'lam' or f[1] not in self.P.funcs: return None
        L, ver = a[1], a[2]
        i, F = e['i'], self.stack[-1][0]
        stop = what != 'all_of'
        out, heads = [], [st]
        for n in range(2):
            it = ('iter', L, ver, 'hv', ('lp', self.frame, ('algo', i, n)))
            c = ('cmp', '!=', it, b)
            nxt = []
            for h in heads:
                s = h.copy()
                if self.cl.on_branch(self, s, e, c, False) is not False:
                    s.tmp[i] = b if what == 'find_if' else C(0 if what == 'any_of' else 1)
                    out.append(s)
                s = h.copy(); self.purge(s, it)
                if self.cl.on_branch(self, s, e, c, True) is False: continue
                for s in self.call_lambda(s, e, f, [('lv', self.iterloc(it))]) or [s]:
                    v = s.tmp[i]
                    x = self.assume(s.copy(), v, stop)
                    if x is not None:
                        x.tmp[i] = it if what == 'find_if' else C(1 if what == 'any_of' else 0)
                        out.append(x)
                    x = self.assume(s, v, not stop)
                    if x is not None:
                        self.cl.on_backedge(self, x, F, ('algo', i))
                        nxt.append(x)
            heads = nxt
        for h in heads:
            if self.cl.on_branch(self, h, e, c, False) is not False:
                h.tmp[i] = b if what == 'find_if' else C(0 if what == 'any_of' else 1)
                out.append(h)
        return out

    def inlinable(self, st, F, e):
        if len(self.stack) > self.cl.max_depth: return False
        if any(f[0] is F for f in self.stack): return False
        return self.cl.inline(self, st, F, e)

    def generic_effects(self, st, e, args):
        for a, pt in zip(args, e.get('pt') or [''] * len(args)): self.havoc_arg(st, a, pt, e)

    def pure(self, F):
        return not [x for x in self.effects(F)]

    def reads_key(self, F):
        k = ('reads', F.id)
        r = self.effcache.get(k)
        if r is not None: return r
        seen, work, out = {F.id}, [F], set()
        while work:
            G = work.pop()
            for ins in G.ins.values():
                if ins['op'] == 'member': out.add(ins['cls'] + '::' + ins['f'])
                if ins['op'] == 'call' and 'callee' in ins:
                    for H in self.P.resolve(ins['callee'], ins.get('virt')):
                        if H.id not in seen: seen.add(H.id); work.append(H)
        self.effcache[k] = frozenset(out)
        return self.effcache[k]

    def opaque_call(self, st, e, fn, obj, args, cands):
        i = e['i']
        short = fn.rsplit('::', 1)[-1]
        if cands:
            mods = set()
            dyn = self.dyncls.get(obj[1][1]) if obj is not None and obj[0] == 'lv' and obj[1][0] == 'd' else None
            for F in cands: mods |= self.effects(F, dyn)
            mods = {m for m in mods if not isinstance(m, tuple)}
            if not mods and not any('&' in p['t'] and 'const' not in p['t'] for p in cands[0].params):
                reads = set()
                for F in cands: reads |= self.reads_key(F)
                vers = tuple(sorted((k, st.ver[k]) for k in reads if st.ver.get(k)))
                # stores pending on read fields also change the result
                stored = tuple(sorted((repr(k), v) for k, v in st.store.items() if k[0] == 'm' and k[2] in reads and obj is not None and obj[0] == 'lv' and k[1] == obj[1]) ) if obj is not None else ()
                v = ('pcall', fn, obj if obj is not None else None, tuple(self.rvalue(st, a) if a[0] == 'lv' else a for a in args), vers, stored)
                self.note_type(v, e.get('t'))
                st.tmp[i] = ('lv', ('d', v)) if e.get('lv') else v
                self.cl.after_call(self, st, e, fn, obj, args, st.tmp[i])
                return
            for m in mods: self.havoc_field(st, m)
            self.generic_effects(st, e, args)
            st.tmp[i] = self.fresh(st, e)
            self.cl.after_call(self, st, e, fn, obj, args, st.tmp[i])
            return
        # external
        if e.get('const') and obj is not None or fn.startswith('std::chrono') or fn in PURE_FNS or (not e.get('pt') and obj is None and 'callee' in e and False):
            v = ('pcall', fn, self.objver(st, obj), tuple(self.rvalue(st, a) if a[0] == 'lv' else a for a in args))
            if any(x in fn for x in ('::now', 'rand')): v = self.fresh(st, e); st.tmp[i] = v; return
            self.note_type(v, e.get('t'))
            st.tmp[i] = ('lv', ('d', v)) if e.get('lv') else v
            self.cl.after_call(self, st, e, fn, obj, args, st.tmp[i])
            return
        if obj is not None and obj[0] == 'lv' and not e.get('const') and 'callee' in e and not e.get('static'):
            if fn.endswith('::operator=') and len(args) == 1:
                v = self.rvalue_copy(st, args[0])
                self.do_store(st, e, obj, v); return
            self.havoc_obj(st, obj[1], ('call', self.frame, i))
        self.generic_effects(st, e, args)
        st.tmp[i] = self.fresh(st, e)
        self.cl.after_call(self, st, e, fn, obj, args, st.tmp[i])

    def objver(self, st, obj):
        if obj is None: return None
        if obj[0] == 'lv':
            v = st.store.get(obj[1])
            if v is not None and v[0] != 'copyof': return v
            if v is not None: return ('objv', v[1], self.ver(st, v[1]))
            L = self.redirect(st, obj[1])
            if L[0] == 'm' and L[1][0] == 'ielem' and L[2] == 'std::pair::first': return self.iterkey(L[1][1])
            return ('objv', L, self.ver(st, L))
        return obj

    # ------------------------------------------------------------------ std::chrono: ticks as integers
    def tick(self, v, a, b):
        """ticks of ratio a as ticks of ratio b (a is a multiple of b)"""
        return mulc(v, int(a / b)) if a != b else v

    def chrono_model(self, st, e, fn, short, cls, obj, args):
        pt = e.get('pt') or []
        rs = [chrono_ratio(x) for x in pt]
        tr = chrono_ratio(e.get('t') or '')
        num = lambda x: self.num(self.rvalue(st, x))
        def arr(o, a, b, t=None):
            return self.arith(st, o, a, b, t or 'long', e)
        if short in ('operator+', 'operator-', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!=', 'operator/', 'operator%', 'operator*') and obj is None and len(args) == 2:
            o = short[8:]
            a, b = num(args[0]), num(args[1])
            ra, rb = rs[0] if rs else None, rs[1] if len(rs) > 1 else None
            if ra and rb:
                g = rgcd(ra, rb)
                a, b = self.tick(a, ra, g), self.tick(b, rb, g)
                if o in ('<', '>', '<=', '>=', '==', '!='): return self.compare(st, o, a, b)
                return arr(o, a, b)
            if ra and o in ('*', '/', '%') and is_int_type(pt[1]): return arr(o, a, b)
            if rb and o == '*' and is_int_type(pt[0]): return arr(o, a, b)
            return NotImplemented
        if cls in ('std::chrono::duration', 'std::chrono::time_point') and obj is not None:
            ot = self.F.ins.get(e['obj'], {}).get('t') or ''
            ro = chrono_ratio(ot)
            if ro is None: return NotImplemented
            if short in ('count', 'time_since_epoch'): return num(obj)
            if short in ('operator+=', 'operator-=') and args and obj[0] == 'lv' and rs and rs[0]:
                q = rs[0] / ro
                if q.denominator != 1: return NotImplemented
                v = arr(short[8:9], num(obj), self.tick(num(args[0]), rs[0], ro))
                self.do_store(st, e, obj, v); return ('done',)
            if short in ('operator*=', 'operator/=', 'operator%=') and args and obj[0] == 'lv' and is_int_type(pt[0]):
                self.do_store(st, e, obj, arr(short[8:9], num(obj), num(args[0]))); return ('done',)
            if short == 'operator-' and not args: return neg(num(obj))
            if short == 'operator+' and not args: return num(obj)
            if short == 'operator=' and args and obj[0] == 'lv':
                self.do_store(st, e, obj, self.rvalue(st, args[0])); return ('done',)
        if fn in ('std::chrono::duration_cast', 'std::chrono::time_point_cast') and args and rs and rs[0] and tr:
            v = num(args[0])
            q = rs[0] / tr
            if q.denominator == 1: return mulc(v, q.numerator)
            if q.numerator == 1: return arr('/', v, C(q.denominator))
            return arr('/', mulc(v, q.numerator), C(q.denominator))
        if short == 'zero' and cls == 'std::chrono::duration': return C(0)
        return NotImplemented

    def chrono_ctor(self, st, e, args):
        t = e.get('t') or ''
        r = chrono_ratio(t)
        if r is None: return NotImplemented
        if not args: return C(0) if 'time_point' in t else NotImplemented
        if len(args) != 1: return NotImplemented
        pt = (e.get('pt') or [''])[0]
        ra = chrono_ratio(pt)
        v = self.num(self.rvalue(st, args[0]))
        if v[0] == 'copyof': v = self.load(st, v[1])
        if ra is not None:
            q = ra / r
            if q.denominator != 1: return NotImplemented
            return mulc(v, q.numerator) if q.numerator != 1 else v
        if is_int_type(pt): return v
        return NotImplemented

    # ------------------------------------------------------------------ models of the standard library
    def std_model(self, st, e, fn, short, cls, obj, args):
        i = e['i']
        if fn.startswith('std::chrono::'):
            r = self.chrono_model(st, e, fn, short, cls, obj, args)
            if r is not NotImplemented:
                if r != ('done',): st.tmp[i] = r
                return
        def ret(v): st.tmp[i] = v
        if fn in ('std::move', 'std::forward', 'std::ref', 'std::cref'):
            ret(args[0]); return
        if fn == 'std::swap' and len(args) == 2 and all(a[0] == 'lv' for a in args) and SCALAR.match((e.get('pt') or [''])[0]):
            a, b = (self.rvalue(st, x) for x in args)
            for x, v in zip(args, (b, a)):
                self.cl.on_store(self, st, e, x[1], v)
                self.put(st, x[1], v, e)
            ret(('void',)); return
        if fn in ('std::min', 'std::max') and len(args) == 2:
            a, b = (self.num(self.rvalue(st, x)) for x in args)
            o = short
            if self.cl.split_minmax and not self.ent_le(st, a, b) and not self.ent_le(st, b, a):
                s1, s2 = st.copy(), st
                s1.facts = s1.facts | {('ge', sub(b, a))}; s2.facts = s2.facts | {('ge', add(sub(a, b), C(-1)))}
                return self.finish_call(st, e, [(s1, a if o == 'min' else b), (s2, b if o == 'min' else a)], args)
            if self.ent_le(st, a, b): r = a if o == 'min' else b
            elif self.ent_le(st, b, a): r = b if o == 'min' else a
            else:
                x, y = sorted((a, b), key=repr)
                r = ('op', o, x, y)
                if all(q in self.dom.nonneg or (q[0] == 'c' and q[1] >= 0) or self.ent_ge(st, q) for q in (a, b)): self.dom.nonneg.add(r)
            O = ('tmpobj', self.frame, i); st.store[O] = r
            ret(('lv', O)); return
        if fn == 'std::make_shared':
            v = ('new', self.frame, i); self.purge(st, v); ret(v); return
        if cls in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr'):
            if obj is not None:
                p = self.rvalue(st, obj)
                if p[0] == 'copyof': p = self.load(st, p[1])
                if short in ('operator->', 'get'): ret(p); return
                if short == 'operator*':
                    self.cl.on_deref(self, st, e, p); ret(('lv', self.deref(p))); return
                if short == 'operator bool':
                    ret(('cmp', '!=', p, C(0))); return
                if short == 'reset':
                    self.do_store(st, e, obj, self.rvalue(st, args[0]) if args else C(0)); return
                if short == 'operator=':
                    self.do_store(st, e, obj, self.rvalue(st, args[0])); return
                if short in ('use_count', 'unique'): ret(self.fresh(st, e)); return
        if fn in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=') and len(args) == 2:
            a, b = (self.rvalue(st, x) for x in args)
            if a[0] == 'copyof': a = self.load(st, a[1])
            if b[0] == 'copyof': b = self.load(st, b[1])
            ret(self.compare(st, short[8:], a, b)); return
        if short in ('operator==', 'operator!=') and obj is not None and len(args) == 1 and cls and ('iterator' in cls or 'Iterator' in cls):
            a, b = self.rvalue(st, obj), self.rvalue(st, args[0])
            ret(self.compare(st, short[8:], a, b)); return
        if cls and ('iterator' in cls.lower()) and obj is not None:
            it = self.rvalue(st, obj)
            if short == 'operator->': ret(('itp', it)); return
            if short == 'operator*': ret(('lv', self.iterloc(it))); return
            if short in ('operator++', 'operator--'):
                if it[0] == 'iter' and self.cl.peel and short == 'operator++' and it[3] in ('begin', 'nth'):
                    nv = ('iter', it[1], it[2], 'nth', 1 + (it[4] if it[3] == 'nth' else 0))        # rounds run as they are: the same element is the same in every loop
                else:
                    nv = ('iter', it[1], it[2], 'inc', self.frame, i) if it[0] == 'iter' else ('ret', self.frame, i)
                    self.purge(st, nv)
                if obj[0] == 'lv': self.put(st, obj[1], nv)
                ret(obj if e.get('lv') else it); return
        m = cls and re.match(r'^std::(map|multimap|set|vector|deque|list|queue|priority_queue|unordered_map|stack|basic_string|array)$', cls)
        if m and obj is not None and obj[0] in ('lv', 'copyof'):
            L = obj[1]
            sv = st.store.get(L)
            if sv is not None and sv[0] == 'copyof': L0 = sv[1]
            else: L0 = L
            ver = (self.ver(st, L), st.store.get(L) if L[0] == 'v' else None)
            kind = m.group(1)
            if kind == 'basic_string':
                return NotImplemented
            if short == 'count':
                k = self.rvalue(st, args[0])
                n = ('op', 'has', L, ver, k); self.dom.nonneg.add(n)
                ret(n); return
            if short == 'find':
                k = self.rvalue(st, args[0])
                ret(('iter', L, ver, 'find', k)); return
            if short in ('begin', 'cbegin', 'rbegin', 'crbegin'):
                ret(('iter', L, ver, 'begin' if 'rb' not in short else 'rbegin')); return
            if short in ('end', 'cend', 'rend', 'crend'):
                ret(('iterend', L, ver)); return
            if short == 'empty':
                n = ('op', 'size', L, ver); self.dom.nonneg.add(n); ret(('cmp', '==', n, C(0))); return
            if short == 'size':
                n = ('op', 'size', L, ver); self.dom.nonneg.add(n); ret(n); return
            if short in ('operator[]', 'at'):
                k = self.num(self.rvalue(st, args[0]))
                if kind in ('map', 'unordered_map') and short == 'operator[]' and not e.get('const'):
                    has = ('op', 'has', L, ver, k)
                    if not self.ent_ge(st, add(has, C(-1))):
                        self.bump_cont(st, L, keep_elems=True)
                        nver = (self.ver(st, L), st.store.get(L) if L[0] == 'v' else None)
                        h2 = ('op', 'has', L, nver, k)
                        st.facts = st.facts | {('ge', add(h2, C(-1)))}
                self.cl.on_index(self, st, e, ('lv', L), k)
                ret(('lv', ('i', L, k))); return
            if short in ('front', 'top'):
                ret(('lv', ('i', L, ('op', 'first', L, ver)))); return
            if short == 'back':
                ret(('lv', ('i', L, ('op', 'last', L, ver)))); return
            if short == 'erase':
                k = self.rvalue(st, args[0]) if args else None
                self.bump_cont(st, L)
                nver = (self.ver(st, L), st.store.get(L) if L[0] == 'v' else None)
                if k is not None and k[0] != 'iter':
                    h2 = ('op', 'has', L, nver, k)
                    st.facts = st.facts | {('eq', h2)}
                    if kind in ('set', 'map', 'unordered_map') and self.used(e): h1 = ('op', 'has', L, ver, k); self.dom.nonneg.add(h1); ret(h1)
                    else: ret(self.fresh(st, e))
                else:
                    if k is not None and k[0] == 'iter':
                        h2 = ('op', 'has', L, nver, self.iterkey(k)); st.facts = st.facts | {('eq', h2)}
                    ret(('iter', L, nver, 'erase', self.frame, i))
                return
            if short in ('insert', 'emplace', 'push_back', 'push', 'push_front', 'pop', 'pop_back', 'pop_front', 'clear', 'resize', 'emplace_back', 'swap', 'assign', 'insert_or_assign', 'reserve', 'operator='):
                if short == 'operator=' and len(args) == 1:
                    v = self.rvalue_copy(st, args[0])
                    self.bump_cont(st, L)
                    self.do_store(st, e, ('lv', L), v); return
                olds = ('op', 'size', L, ver); self.dom.nonneg.add(olds)
                if kind in ('set', 'map', 'unordered_map') and short in ('insert', 'emplace') and len(args) == (2 if kind != 'set' and short == 'emplace' else 1) and self.used(e):
                    r = self.rvalue(st, args[0])
                    k, v = (r, None) if kind == 'set' else ((r, self.rvalue(st, args[1])) if len(args) == 2 else (pairval(r) or (None, None)))
                    if k is not None:
                        k = self.num(k)
                        has = ('op', 'has', L, ver, k); self.dom.nonneg.add(has)
                        out = []
                        s1, s2 = st.copy(), st
                        if self.ent_0(s1, has) or not self.ent_ge(s1, add(has, C(-1))):
                            s1.facts = s1.facts | {('eq', has)}
                            self.bump_cont(s1, L, keep_elems=True)
                            nver = (self.ver(s1, L), s1.store.get(L) if L[0] == 'v' else None)
                            s1.facts = s1.facts | {('ge', add(('op', 'has', L, nver, k), C(-1)))}
                            if v is not None: s1.store[('i', L, k)] = v
                            self.cl.on_insert(self, s1, e, L, k, True)
                            out.append((s1, ('pcall', 'std::pair::pair', '', (('iter', L, nver, 'find', k), C(1)))))
                        if not self.ent_0(s2, has):
                            s2.facts = s2.facts | {('ge', add(has, C(-1)))}
                            self.cl.on_insert(self, s2, e, L, k, False)
                            out.append((s2, ('pcall', 'std::pair::pair', '', (('iter', L, ver, 'find', k), C(0)))))
                        return self.finish_call(st, e, out, args)
                self.bump_cont(st, L)
                nver = (self.ver(st, L), st.store.get(L) if L[0] == 'v' else None)
                news = ('op', 'size', L, nver); self.dom.nonneg.add(news); self.purge(st, news)
                if short in ('push_back', 'push', 'push_front', 'emplace_back'): st.facts = st.facts | {('eq', sub(news, add(olds, C(1))))}
                elif short in ('clear',): st.facts = st.facts | {('eq', news)}
                elif short in ('pop', 'pop_back', 'pop_front'): st.facts = st.facts | {('ge', sub(olds, news))}
                ret(self.fresh(st, e)); return
        return NotImplemented

    def used(self, e):
        """is the result of this call looked at"""
        F = self.stack[-1][0]
        u = self.effcache.get(('used', F.id))
        if u is None:
            u = set()
            for b in F.blocks.values():
                for x in b.el:
                    for k in ('a', 'b', 'c', 'x', 'v', 'init', 'obj'):
                        if isinstance(x.get(k), int): u.add(x[k])
                    u.update(y for y in x.get('args', ()) if isinstance(y, int))
                if b.term and isinstance(b.term.get('c'), int): u.add(b.term['c'])
            self.effcache[('used', F.id)] = u
        return e['i'] in u

    def bump_cont(self, st, L, keep_elems=False):
        if L[0] == 'v':
            n = st.ver.get(L, 0) + 1
            st.ver[L] = n
            st.store[L] = ('contv', L, n)
        else:
            self.bump(st, self.lockey(L))
        if not keep_elems:
            for key in [k for k in st.store if k[0] in ('i', 'm') and self.under(k, L)]: del st.store[key]
            self.bump(st, ('i', self.lockey(L)))


def pairval(v):
    if v[0] == 'pcall' and v[1] in ('std::pair::pair', 'std::make_pair') and isinstance(v[3], tuple):
        if len(v[3]) == 1 and isinstance(v[3][0], tuple): return pairval(v[3][0])
        if len(v[3]) == 2: return v[3]
    return None


LOGFNS = {'utils::errorMsg', 'utils::warningMsg', 'utils::infoMsg', 'utils::debugMsg', 'utils::printMood', 'utils::setLogLevel'}
PURE_FNS = {'std::abs', 'abs', 'std::to_string', 'std::operator+', 'htonl', 'htons', 'ntohl', 'ntohs', 'strlen', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=',
            'floor', 'ceil', 'sqrt', 'round', 'std::fabs', 'av_get_bytes_per_sample'}


def rebase(k, L, O):
    if k == L: return O
    return (k[0], rebase(k[1], L, O)) + k[2:]


def mentions_frame(v, frame):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'v' and v[1] == frame: return True
        return any(mentions_frame(x, frame) for x in v if isinstance(x, tuple))
    return False


NONMOD = {'begin', 'end', 'rbegin', 'rend', 'find', 'count', 'size', 'empty', 'front', 'back', 'top', 'at', 'get', 'operator->', 'operator*', 'operator bool', 'c_str', 'data', 'lower_bound', 'upper_bound'}


def lv_root(F, sid):
    """field key / local var of an lvalue expression: returns ('f',key) | ('v',vid) | None"""
    seen, thru = 0, False
    e = F.ins.get(sid)
    while e is not None and seen < 50:
        seen += 1
        op = e['op']
        if op == 'member': return ('f', e['cls'] + '::' + e['f'])
        if op == 'var':
            if 'global' in e: return ('f', e['global'])
            return ('p' if thru else 'v', e['vid'])
        if op == 'load': thru = True
        if op in ('index',): e = F.ins.get(e['b'])
        elif op in ('decay', 'cast', 'pass', 'addr', 'load', 'deref'): e = F.ins.get(e['a'])
        elif op == 'call' and e.get('obj') and e.get('fn', '').rsplit('::', 1)[-1] in ('operator[]', 'at', 'operator*', 'operator->', 'front', 'back', 'top', 'get', 'begin', 'find', 'end'):
            e = F.ins.get(e['obj'])
        else: return None
    return None


def block_effects(P, F, els):
    mods, calls = set(), []
    def mark(sid):
        r = lv_root(F, sid)
        if r is None: return
        mods.add(r[1] if r[0] == 'f' else r)
    for e in els:
        op = e['op']
        if op in ('assign', 'cassign', 'incdec'): mark(e['a'])
        elif op == 'decl': mods.add(('v', e['vid']))
        elif op == 'init' and 'f' in e: mods.add(e['cls'] + '::' + e['f'])
        elif op in ('call', 'ctor'):
            if 'callee' in e: calls.append((e['callee'], e.get('virt', False), on_this(F, e)))
            inrepo = 'callee' in e and (e['callee'] in P.funcs or e['callee'] in P.mdecl)
            short = e.get('fn', '').rsplit('::', 1)[-1]
            if op == 'call' and e.get('obj') and not e.get('const') and not inrepo and short not in NONMOD and not e.get('static'):
                if not (short == 'operator[]' and 'map' not in (e.get('cls') or '')): mark(e['obj'])
            for a, pt in zip(e.get('args', ()), e.get('pt') or ['&'] * len(e.get('args', ()))):
                if ('&' in pt or '*' in pt) and not (pt.startswith('const') or ' const &' in pt or 'const *' in pt):
                    i = F.ins.get(a)
                    if i is None: continue
                    if '&' in pt or i['op'] in ('addr', 'decay'):
                        if fnshort(e) not in ('move', 'forward', 'min', 'max'): mark(a)
                    if inrepo: pass
    return mods, calls


def on_this(F, e):
    o = F.ins.get(e.get('obj'))
    while o is not None and o['op'] in ('cast', 'pass', 'load', 'deref'): o = F.ins.get(o['a'])
    return o is not None and o['op'] == 'this'


def fnshort(e): return e.get('fn', '').rsplit('::', 1)[-1]


_le = {}


def local_effects(P, F):
    r = _le.get(F.id)
    if r is None:
        m, c = set(), []
        for B in F.blocks.values():
            a, b = block_effects(P, F, B.el)
            m |= {x for x in a if not (isinstance(x, tuple) and x[0] in ('v', 'p'))}
            c += b
        r = _le[F.id] = (m, c)
    return r
