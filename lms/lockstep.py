"""Affine relations between the counters of a loop, found in a first run and used (with their inductive proof) in a second."""
from .engine import Client, Engine
from .lin import C, add, sub, mulc, atoms


def hv_of(v):
    return v is not None and v[0] not in ('lv', 'copyof', 'iter', 'lam', 'addr', 'c')


class Lockstep(Client):
    """state: self.step[(fn id, head)][vid] = constant step per iteration; self.bound[(fn id, head)] = proved 'counter <= limit' candidates.
    A guess is only used after every back edge of the previous run confirmed it, and every run confirms it again."""

    def __init__(self):
        self.guess = {}          # (fid, h) -> {vid: step}
        self.seen = {}           # the same, as observed by this run: vid -> step or None
        self.cand = {}           # (fid, h) -> set of (vid, strict, limit)   limit: value free of loop variables
        self.drop = set()
        self.cand_use = {}
        self.ls_pre = {}         # (frame, fid, h) -> {vid: value before}
        self.ls_hv = {}          # (frame, fid, h) -> {vid: value at the head}

    def on_loop_enter(self, eng, st, F, h):
        vids = eng.loop_mods(F, h)[0]
        k = (eng.frame, F.id, h)
        self.ls_pre[k] = {v: st.store.get(('v', eng.frame, v)) for v in vids}
        for c in self.cand_use.get((F.id, h), ()):
            v, lim = c
            x = self.ls_pre[k].get(v)
            if x is None or not hv_of(x) and x[0] != 'c' or not eng.ent_le(st, eng.num(x), lim): self.drop.add((F.id, h, c))

    def after_havoc(self, eng, st, F, h, fields):
        k = (eng.frame, F.id, h)
        pre = self.ls_pre.get(k, {})
        hv = {v: st.store.get(('v', eng.frame, v)) for v in pre}
        self.ls_hv[k] = hv
        g = self.guess.get((F.id, h), {})
        ok = [v for v in sorted(g) if g[v] is not None and hv.get(v) is not None and pre.get(v) is not None and hv[v] != pre[v] and pre[v][0] not in ('lv', 'iter')]
        if ok:
            r = min(ok, key=lambda v: (abs(g[v]) != 1, v))
            dr = sub(eng.num(hv[r]), eng.num(pre[r]))
            for v in ok:
                if v == r: continue
                dv = sub(eng.num(hv[v]), eng.num(pre[v]))
                st.facts = st.facts | {('eq', sub(mulc(dv, g[r]), mulc(dr, g[v])))}
        for c in self.cand_use.get((F.id, h), ()):
            if c[0] in hv and (F.id, h, c) not in self.drop: st.facts = st.facts | {('ge', sub(c[1], eng.num(hv[c[0]])))}

    def on_branch(self, eng, st, ins, v, taken):
        # loop conditions  counter < limit
        if v[0] != 'cmp' or v[1] not in ('<', '>', '!=', '<=', '>='): return
        for k, hv in self.ls_hv.items():
            if k[0] != eng.frame: continue
            hvs = {x: n for n, x in hv.items() if x is not None}
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if a in hvs and not any(x in hvs for x in atoms(b)):
                    self.cand.setdefault((k[1], k[2]), set()).add((hvs[a], b))

    def on_backedge(self, eng, st, F, h):
        k = (eng.frame, F.id, h)
        hv = self.ls_hv.get(k, {})
        s = self.seen.setdefault((F.id, h), {})
        for v, x in hv.items():
            y = st.store.get(('v', eng.frame, v))
            d = None
            if x is not None and y is not None and y[0] not in ('lv', 'iter', 'copyof') and x[0] not in ('lv', 'iter', 'copyof'):
                z = sub(eng.num(y), eng.num(x))
                if z[0] == 'c': d = z[1]
            s[v] = d if s.get(v, d) == d else None
        for c in self.cand_use.get((F.id, h), ()):
            y = st.store.get(('v', eng.frame, c[0]))
            if y is None or not eng.ent_le(st, eng.num(y), c[1]): self.drop.add((F.id, h, c))

    def loop_pre(self, eng, F, h): return self.ls_pre.get((eng.frame, F.id, h), {})
    def loop_hv(self, eng, F, h): return self.ls_hv.get((eng.frame, F.id, h), {})


def run_stable(make, P, F, **kw):
    """run until the guesses of a run are the observations of the same run; returns (client, engine) of the last run"""
    guess, cand = {}, {}
    for _ in range(6):
        cl = make()
        cl.guess, cl.cand_use = guess, cand
        st = kw.get('st')
        eng = Engine(P, cl)
        eng.run(F, st=st() if st else None)
        g2 = {k: {v: d for v, d in s.items() if d is not None} for k, s in cl.seen.items()}
        c2 = {k: frozenset(c for c in (s | set(cand.get(k, ()))) if (k[0], k[1], c) not in cl.drop) for k, s in cl.cand.items()}
        used_ok = all(g2.get(k, {}).get(v) == d for k, s in guess.items() for v, d in s.items()) and not cl.drop
        if used_ok and g2 == guess and all(c2.get(k, frozenset()) == cand.get(k, frozenset()) for k in set(c2) | set(cand)): return cl, eng
        bad = {(k, c) for k in cand for c in cand[k] if (k[0], k[1], c) in cl.drop}
        guess = g2 if not guess else {k: {v: d for v, d in s.items() if g2.get(k, {}).get(v) == d} for k, s in guess.items()}
        if bad or any(cand.values()): cand = {k: frozenset(c for c in s if (k, c) not in bad) for k, s in cand.items()}
        else: cand = c2
    # never reached in practice: fall back to no relations at all
    cl = make(); cl.guess, cl.cand_use = {}, {}
    eng = Engine(P, cl); eng.run(F, st=kw['st']() if kw.get('st') else None)
    return cl, eng
