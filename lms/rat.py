"""Rational normal form of arithmetic terms: rounding and casts are left out, units and operands are not."""
from fractions import Fraction


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0: del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0: del r[k]
    return r


ONE = {(): Fraction(1)}


def rat(v, leaf=None):
    """(numerator, denominator) polynomials over the atoms of v; leaf(atom) may replace an atom by a term"""
    if v[0] == 'c': return ({(): Fraction(v[1])} if v[1] else {}), ONE
    if v[0] == 'lin':
        n, d = ({(): Fraction(v[1])} if v[1] else {}), ONE
        for a, c in v[2]:
            x, y = rat(a, leaf)
            x = {m: k * c for m, k in x.items()}
            if y == d: n = padd(n, x)
            else: n, d = padd(pmul(n, y), pmul(x, d)), pmul(d, y)
        return n, d
    if v[0] == 'op':
        o = v[1].rstrip('?') if isinstance(v[1], str) else v[1]
        if o in ('u', 'cast', 'float', 'int', 's', 'trunc') and len(v) >= 3: return rat(v[2], leaf)
        if o == '*' and len(v) == 4:
            (a, b), (c, d) = rat(v[2], leaf), rat(v[3], leaf)
            return pmul(a, c), pmul(b, d)
        if o == '/' and len(v) == 4:
            (a, b), (c, d) = rat(v[2], leaf), rat(v[3], leaf)
            return pmul(a, d), pmul(b, c)
        if o in ('usub', '-') and len(v) == 4:
            (a, b), (c, d) = rat(v[2], leaf), rat(v[3], leaf)
            return padd(pmul(a, d), pmul(c, b), -1), pmul(b, d)
        if o == '+' and len(v) == 4:
            (a, b), (c, d) = rat(v[2], leaf), rat(v[3], leaf)
            return padd(pmul(a, d), pmul(c, b)), pmul(b, d)
    if leaf is not None:
        w = leaf(v)
        if w is not None and w != v: return rat(w, None)
    return {(v,): Fraction(1)}, ONE


def same(a, b, leaf=None):
    (n, d), (m, e) = rat(a, leaf), rat(b, leaf)
    return pmul(n, e) == pmul(m, d)


def op(o, a, b): return ('op', o, a, b)
