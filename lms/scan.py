"""Certificates for loops over a whole container: iterator loops, range-for loops and index loops (start at 0, step 1, up to size)."""
from .engine import Client
from .lin import C, add, sub


class Scan(Client):
    def __init__(self):
        self.zero = {}       # (frame, function, head) -> counters that have the same constant value on every entry of the loop
        self.entry = {}      # (frame, function, head, vid) -> that constant
        self.hval = {}       # (frame, function, head, vid) -> value at the head

    def on_loop_enter(self, eng, st, F, h):
        vids, fields, incs = eng.loop_mods(F, h)[:3]
        e = {v: st.store.get(('v', eng.frame, v)) for v in vids if incs.get(v) == '+'}
        z = {v for v in e if e[v] is not None and e[v][0] == 'c'}
        k = (eng.frame, F.id, h)
        for v in set(z):
            if self.entry.setdefault(k + (v,), e[v][1]) != e[v][1]: z.discard(v)
        self.zero[k] = self.zero[k] & z if k in self.zero else z

    def after_havoc(self, eng, st, F, h, fields):
        k = (eng.frame, F.id, h)
        for v in self.zero.get(k, ()):
            x = st.store.get(('v', eng.frame, v))
            if x is not None: self.hval[k + (v,)] = x

    def idx_of(self, x):
        """loop whose zero-based counter has value x at the head"""
        for k, v in self.hval.items():
            if k[3] in self.zero.get(k[:3], ()):
                d = sub(x, v)
                if d[0] == 'c' and d[1] + self.entry[k] == 0: return k
        return None

    def scan_event(self, eng, st, v, taken):
        """(at_end, container location, element location, key) for a loop condition over a container, else None"""
        if v[0] != 'cmp': return None
        o, x, y = v[1], v[2], v[3]
        if o in ('==', '!='):
            for a, b in ((x, y), (y, x)):
                if a[0] == 'iter' and b[0] == 'iterend' and a[1] == b[1] and a[3] != 'find':
                    end = (o == '==') == taken
                    return (end, a[1], None if end else eng.iterloc(a), None if end else eng.iterkey(a))
        if o in ('>', '<='): o, x, y = {'>': '<', '<=': '>='}[o], y, x
        if o in ('<', '>=', '!=', '=='):
            if o in ('!=', '==') and x[0] == 'op' and x[1] == 'size': x, y = y, x
            if y[0] == 'op' and y[1] == 'size' and len(y) == 4:
                k = self.idx_of(x)
                if k is not None:
                    end = (o in ('>=', '==')) == taken
                    return (end, y[2], None if end else ('i', y[2], x), None if end else x)
        return None

    def scan_loop(self, eng, st, v, taken):
        """(at_end, loop, container location, its version, cursor) for a loop condition over a container, else None"""
        if v[0] != 'cmp': return None
        o, x, y = v[1], v[2], v[3]
        if o in ('==', '!='):
            for a, b in ((x, y), (y, x)):
                if a[0] == 'iter' and b[0] == 'iterend' and a[1] == b[1] and a[3] == 'hv': return ((o == '==') == taken, a[4], a[1], a[2], a)
        if o in ('>', '<='): o, x, y = {'>': '<', '<=': '>='}[o], y, x
        if o in ('<', '>=', '!=', '=='):
            if o in ('!=', '==') and x[0] == 'op' and x[1] == 'size': x, y = y, x
            if y[0] == 'op' and y[1] == 'size' and len(y) == 4:
                k = self.idx_of(x)
                if k is not None: return (o in ('>=', '==')) == taken, ('lp', k[0], k[2]), y[2], y[3], ('idx', y[2], y[3], x)
        return None

    def scan_step_ok(self, eng, st, F, h):
        """at a back edge: index counters advance by exactly one (iterators advance by construction of ++)"""
        k = (eng.frame, F.id, h)
        for v in self.zero.get(k, ()):
            x, hv = st.store.get(('v', eng.frame, v)), self.hval.get(k + (v,))
            if x is None or hv is None or not eng.ent_eq(st, x, add(hv, C(1))): return False
        return True
