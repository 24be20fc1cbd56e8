"""Linear-inequality abstract domain: terms, facts and entailment by Fourier-Motzkin elimination.

A *value* is a hashable tuple:  ('c',n) integer constant, ('lin',c,((atom,k),...)) linear combination,
any other tuple is an atom.  Facts are kept in a frozenset-like python set:
   ('ge', lin)  lin >= 0      ('eq', lin)  lin == 0     ('ne', lin)  lin != 0
   ('t', atom) / ('f', atom)  opaque boolean condition known true / false
"""
from fractions import Fraction


def C(n):
    return ('c', int(n))


def parts(v):
    """value -> (const, {atom:coef})"""
    if v[0] == 'c': return v[1], {}
    if v[0] == 'lin': return v[1], dict(v[2])
    return 0, {v: 1}


def build(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d: return ('c', c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1: return a
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))


def add(a, b, s=1):
    ca, da = parts(a); cb, db = parts(b)
    d = dict(da)
    for x, k in db.items(): d[x] = d.get(x, 0) + s * k
    return build(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, n):
    c, d = parts(a)
    return build(c * n, {x: k * n for x, k in d.items()})


def neg(a):
    return mulc(a, -1)


def isnum(v):
    return v[0] == 'c'


def atoms(v):
    if v[0] == 'c': return ()
    if v[0] == 'lin': return tuple(a for a, _ in v[2])
    return (v,)


def mentions(v, a):
    """does the term tree v contain the term a"""
    if v == a: return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, a): return True
    return False


class Infeasible(Exception):
    pass


def _fm(cons, limit=400):
    """cons: list of (const, {atom:coef}) meaning sum >= 0 ; True if infeasible"""
    cons = [(Fraction(c), d) for c, d in cons]
    while True:
        # trivial
        nxt = []
        seen = set()
        for c, d in cons:
            d = {a: k for a, k in d.items() if k}
            if not d:
                if c < 0: return True
                continue
            # normalise (integer tightening)
            from math import gcd
            g = 0
            ok = True
            for k in d.values():
                if k.denominator != 1 if isinstance(k, Fraction) else False:
                    ok = False; break
                g = gcd(g, abs(int(k)))
            if ok and g > 1:
                d = {a: int(k) // g for a, k in d.items()}
                q = c / g
                c = Fraction(q.numerator // q.denominator)  # floor
            key = (c, frozenset(d.items()))
            if key in seen: continue
            seen.add(key)
            nxt.append((c, d))
        cons = nxt
        # keep tightest const per same coef vector
        best = {}
        for c, d in cons:
            k = frozenset(d.items())
            if k not in best or c < best[k]: best[k] = c
        cons = [(c, dict(k)) for k, c in best.items()]
        for c, d in cons:
            if not d and c < 0: return True
        if not cons: return False
        # choose atom with least product
        cnt = {}
        for c, d in cons:
            for a, k in d.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if k > 0 else (p, n + 1)
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], repr(x)))
        pos = [x for x in cons if x[1].get(a, 0) > 0]
        negs = [x for x in cons if x[1].get(a, 0) < 0]
        rest = [x for x in cons if a not in x[1]]
        for cp, dp in pos:
            for cn, dn in negs:
                kp, kn = dp[a], -dn[a]
                d = {}
                for x, k in dp.items(): d[x] = d.get(x, 0) + k * kn
                for x, k in dn.items(): d[x] = d.get(x, 0) + k * kp
                d.pop(a, None)
                rest.append((cp * kn + cn * kp, d))
        cons = rest
        if len(cons) > limit: return False


class Dom:
    """entailment relative to a fact set; knows which atoms are non-negative by type and some operator axioms"""

    def __init__(self):
        self.nonneg = set()
        self.cache = {}

    def axioms(self, a, have):
        """axiom constraints (>=0 lins) for an atom"""
        out = []
        if a in self.nonneg: out.append(a)
        if a[0] == 'op':
            o = a[1]
            if o == '%':
                x, m = a[2], a[3]
                out.append(a)                                # assume unsigned/non-negative modulus (checked by caller)
                out.append(add(sub(m, a), C(-1)))
            elif o == '/':
                x, m = a[2], a[3]
                if m[0] == 'c' and m[1] > 0:
                    # m*a <= x < m*a+m  (x >= 0)
                    out.append(sub(x, mulc(a, m[1])))
                    out.append(add(sub(mulc(a, m[1]), x), C(m[1] - 1)))
                else:
                    out.append(sub(x, a))  # x/m <= x for x >= 0, m >= 1
            elif o == 'has':
                out.append(a); out.append(sub(C(1), a))
            elif o == 'bool':
                out.append(a); out.append(sub(C(1), a))
            elif o == 'min':
                out.append(sub(a[2], a)); out.append(sub(a[3], a))
            elif o == 'max':
                out.append(sub(a, a[2])); out.append(sub(a, a[3]))
            elif o == '&':
                if a[3][0] == 'c' and a[3][1] >= 0:
                    out.append(a); out.append(sub(a[3], a))
                elif a[2][0] == 'c' and a[2][1] >= 0:
                    out.append(a); out.append(sub(a[2], a))
            elif o == '>>' and a[3][0] == 'c':
                out.append(sub(a[2], a))
        return out

    def closure(self, goal, facts):
        """relevant constraints: connected component of goal atoms"""
        lins = []
        for f in facts:
            if f[0] == 'ge': lins.append(f[1])
            elif f[0] == 'eq': lins.append(f[1]); lins.append(neg(f[1]))
        want = set(atoms(goal))
        used = []
        pool = [(l, set(atoms(l))) for l in lins]
        done_ax = set()
        changed = True
        while changed:
            changed = False
            for a in list(want):
                if a not in done_ax:
                    done_ax.add(a)
                    for x in self.axioms(a, facts):
                        used.append(x)
                        for y in atoms(x):
                            if y not in want: want.add(y); changed = True
            rest = []
            for l, s in pool:
                if s & want:
                    used.append(l)
                    if not s <= want: want |= s
                    changed = True
                else: rest.append((l, s))
            pool = rest
        return used

    def entails_ge(self, facts, goal):
        """facts |= goal >= 0"""
        if goal[0] == 'c': return goal[1] >= 0
        key = (goal, frozenset(f for f in facts if f[0] in ('ge', 'eq')))
        r = self.cache.get(key)
        if r is not None: return r
        cons = [parts(l) for l in self.closure(goal, facts)]
        ng = add(neg(goal), C(-1))
        cons.append(parts(ng))
        r = _fm(cons) if len(cons) < 160 else False
        self.cache[key] = r
        return r

    def infeasible(self, facts, lins):
        """are facts plus lins>=0 contradictory"""
        for l in lins:
            if l[0] == 'c':
                if l[1] < 0: return True
                continue
            if self.entails_ge(facts, add(neg(l), C(-1))): return True
        return False

    def entails_eq(self, facts, a, b):
        if a == b: return True
        d = sub(a, b)
        if d[0] == 'c': return d[1] == 0
        return self.entails_ge(facts, d) and self.entails_ge(facts, neg(d))

    def entails_ne0(self, facts, v):
        if v[0] == 'c': return v[1] != 0
        if ('ne', v) in facts or ('ne', neg(v)) in facts: return True
        if v[0] in ('addr', 'str', 'lam', 'fn', 'new'): return True
        return self.entails_ge(facts, add(v, C(-1))) or self.entails_ge(facts, add(neg(v), C(-1)))

    def entails_0(self, facts, v):
        if v[0] == 'c': return v[1] == 0
        if v[0] in ('addr', 'str', 'lam', 'fn', 'new'): return False
        return ('eq', v) in facts or (self.entails_ge(facts, v) and self.entails_ge(facts, neg(v)))


class LightDom(Dom):
    """syntactic entailment only (for analyses whose typestate does not depend on arithmetic)"""

    def entails_ge(self, facts, goal):
        if goal[0] == 'c': return goal[1] >= 0
        return ('ge', goal) in facts or ('eq', goal) in facts or ('eq', neg(goal)) in facts

    def infeasible(self, facts, lins):
        return any(l[0] == 'c' and l[1] < 0 for l in lins)

    def entails_ne0(self, facts, v):
        if v[0] == 'c': return v[1] != 0
        if v[0] in ('addr', 'str', 'lam', 'fn', 'new'): return True
        return ('ne', v) in facts or ('ne', neg(v)) in facts

    def entails_0(self, facts, v):
        if v[0] == 'c': return v[1] == 0
        return ('eq', v) in facts or ('eq', neg(v)) in facts
