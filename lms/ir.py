"""In-memory program: functions (flat CFG instructions), classes, enums, class hierarchy, call graph."""
from collections import defaultdict
import re

SKIP_OPS = {'method'}


class Func:
    __slots__ = ('id', 'name', 'short', 'cls', 'file', 'line', 'end', 'kind', 'virt', 'const', 'static', 'overrides', 'params', 'ret',
                 'blocks', 'entry', 'exit', 'tu', 'implicit', 'access', 'ins', 'preds', 'rpo', 'rponum', 'loops', 'heads', 'sstatic', 'addr_taken', 'consts')

    def __repr__(self):
        return '<%s>' % self.name


class Block:
    __slots__ = ('id', 'el', 'term', 'succ', 'lab', 'noreturn', 'label_of')


def norm_name(n):
    """drop template arguments from a qualified name"""
    out, d = [], 0
    i = 0
    while i < len(n):
        c = n[i]
        if n.startswith('operator', i) and d == 0:
            m = re.match(r'operator\s*(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>|\(\)|\[\])', n[i:])
            if m:
                out.append(m.group(0)); i += len(m.group(0)); continue
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)


class Program:
    def __init__(self):
        self.funcs = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.by_name = defaultdict(list)
        self.tu_errors = {}

    def add(self, tu, J):
        self.tu_errors[tu] = J['errors']
        for c in J['classes']:
            if c['name'] not in self.classes:
                self.classes[c['name']] = c
        for e in J['enums']:
            self.enums.setdefault(e['name'], e)
        for g in J['globals']:
            self.globals.setdefault(g['id'], g)
        for f in J['functions']:
            if f['id'] in self.funcs or f.get('nocfg'):
                continue
            self.funcs[f['id']] = self._func(tu, f)

    def _func(self, tu, j):
        F = Func()
        F.id = j['id']; F.name = norm_name(j['name']); F.cls = norm_name(j.get('cls', '')) or None
        F.short = F.name.rsplit('::', 1)[-1]
        F.file = j['file']; F.line = j['l']; F.end = j['e']; F.kind = j['kind']; F.virt = j.get('virt', False)
        F.const = j.get('const', False); F.static = j.get('static', False); F.overrides = j.get('overrides', [])
        F.params = j['params']; F.ret = j['ret']; F.entry = j['entry']; F.exit = j['exit']; F.tu = tu
        F.implicit = j.get('implicit', False); F.access = {0: 'public', 1: 'protected', 2: 'private'}.get(j.get('access')); F.sstatic = j.get('storage_static')
        F.blocks = {}
        used = set()
        for b in j['blocks']:
            for e in b['el']:
                for k in ('a', 'b', 'c', 'v', 'x', 'n', 'init', 'obj', 'ind'):
                    if isinstance(e.get(k), int): used.add(e[k])
                for k in e.get('args', ()): used.add(k)
                for k in e.get('caps', ()):
                    if 'v' in k: used.add(k['v'])
            t = b.get('term')
            if t and t.get('c'): used.add(t['c'])
        F.ins = {}
        for b in j['blocks']:
            B = Block(); B.id = b['id']; B.term = b.get('term'); B.lab = b.get('lab'); B.noreturn = b.get('noreturn', False)
            B.succ = b['s']
            B.el = []
            seq = list(b['el'])
            if B.term and B.term.get('ex'): seq += B.term['ex']
            for e in seq:
                if e['op'] == 'method' or (e['op'] == 'fnaddr' and e['i'] not in used):
                    continue
                if 'fn' in e: e['fn'] = norm_name(e['fn'])
                if 'cls' in e: e['cls'] = norm_name(e['cls'])
                if isinstance(e.get('cv'), str): e['cv'] = int(e['cv'])
                B.el.append(e)
                F.ins[e['i']] = e
            F.blocks[B.id] = B
        F.preds = defaultdict(list)
        for B in F.blocks.values():
            for s in B.succ:
                if s is not None: F.preds[s].append(B.id)
        self._order(F)
        return F

    def _order(self, F):
        seen, post = set(), []
        stack = [(F.entry, iter([s for s in F.blocks[F.entry].succ if s is not None]))]
        seen.add(F.entry)
        onstack = {F.entry}
        back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); onstack.add(s)
                    stack.append((s, iter([x for x in F.blocks[s].succ if x is not None])))
                    break
                elif s in onstack:
                    back.add((b, s))
            else:
                post.append(b); onstack.discard(b); stack.pop()
        F.rpo = post[::-1]
        F.rponum = {b: i for i, b in enumerate(F.rpo)}
        F.heads = {h for _, h in back}
        # natural loop bodies
        F.loops = {}
        for u, h in back:
            body = F.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x)
                st.extend(p for p in F.preds[x] if p in seen)

    def finish(self):
        for F in self.funcs.values():
            self.by_name[F.name].append(F)
        self.derived = defaultdict(set)
        self.bases = {}
        for n, c in self.classes.items():
            bs = [norm_name(b) for b in c['bases']]
            self.bases[n] = bs
            for b in bs: self.derived[b].add(n)
        # method decl info: id -> (cls, name)
        self.mdecl = {}
        self.overriders = defaultdict(set)
        for n, c in self.classes.items():
            for m in c['methods']:
                self.mdecl[m['id']] = (n, m)
                for o in m['overrides']: self.overriders[o].add(m['id'])
        for F in self.funcs.values():
            for o in F.overrides: self.overriders[o].add(F.id)
        # transitive
        ch = True
        while ch:
            ch = False
            for o in list(self.overriders):
                n = set(self.overriders[o])
                for x in list(n): n |= self.overriders.get(x, set())
                if n != self.overriders[o]:
                    self.overriders[o] = n; ch = True
        self.overriders = dict(self.overriders)
        self.by_name = dict(self.by_name)
        self.derived = {k: set(v) for k, v in self.derived.items()}

    # ---- queries
    def all_derived(self, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d); st.append(d)
        return out

    def all_bases(self, c):
        out, st = [], [c]
        while st:
            x = st.pop()
            for b in self.bases.get(x, ()):
                if b not in out:
                    out.append(b); st.append(b)
        return out

    def isa(self, c, b):
        return c == b or b in self.all_bases(c)

    def fn(self, name):
        return self.by_name.get(name, [])

    def one(self, name):
        L = self.fn(name)
        if len(L) != 1:
            from .facts import AnalysisBroken
            raise AnalysisBroken('anchor %s: %d definitions found' % (name, len(L)))
        return L[0]

    def resolve(self, callee, virt, dyn=None):
        """possible function definitions for a callee id; dyn = known dynamic class"""
        if not virt:
            f = self.funcs.get(callee)
            return [f] if f else []
        cands = [callee] + sorted(self.overriders.get(callee, ()))
        if dyn:
            # most derived override visible from dyn
            order = [dyn] + self.all_bases(dyn)
            for c in order:
                for x in cands:
                    f = self.funcs.get(x)
                    cl = f.cls if f else (self.mdecl.get(x) or (None,))[0]
                    if cl == c:
                        return [f] if f else []
        return [self.funcs[x] for x in cands if x in self.funcs]

    def field(self, cls, name):
        for c in [cls] + self.all_bases(cls):
            k = self.classes.get(c)
            if k:
                for f in k['fields']:
                    if f['name'] == name: return c, f
        return None

    def methods_of(self, cls):
        return [F for F in self.funcs.values() if F.cls == cls]

    def loc(self, F, ins=None):
        return '%s:%d' % (F.file, (ins or {}).get('l') or F.line)
