"""Exact polynomial identity test for z3 real terms (z3's own expansion gives up on large products)."""
import math
from fractions import Fraction

import z3

LIMIT = 60000


class TooBig(Exception):
    pass


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, k in b:
        d[v] = d.get(v, 0) + k
    return tuple(sorted(d.items()))


def add(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        s = out.get(m, 0) + c
        if s:
            out[m] = s
        else:
            out.pop(m, None)
    return out


class Ring:
    def __init__(self, squares=None, limit=LIMIT):
        self.limit = limit
        self.memo, self.vars, self.keep = {}, {}, []
        self.squares = squares or {}       # var id of a square root -> polynomial of its square

    def mul(self, a, b):
        if len(a) * len(b) > self.limit * 10:
            raise TooBig()
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = _mulmono(m, n)
                out[k] = out.get(k, 0) + c * d
        out = {m: c for m, c in out.items() if c}
        out = self.reduce(out)
        if len(out) > self.limit:
            raise TooBig()
        return out

    def reduce(self, p):
        if not self.squares or not any(v in self.squares and k > 1 for m in p for v, k in m):
            return p
        out = {}
        for m, c in p.items():
            t = {(): c}
            for v, k in m:
                if v in self.squares and k > 1:
                    base = self.squares[v]
                    for _ in range(k // 2):
                        t = self.mul(t, base)
                    k = k % 2
                if k:
                    t = {_mulmono(mm, ((v, k),)): cc for mm, cc in t.items()}
            out = add(out, t)
        return out

    def of(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(t)
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            r = {(): f} if f else {}
        elif z3.is_add(t):
            r = {}
            for c in t.children():
                r = add(r, self.of(c))
        elif z3.is_sub(t):
            ch = t.children()
            r = self.of(ch[0])
            for c in ch[1:]:
                r = add(r, {m: -k for m, k in self.of(c).items()})
        elif z3.is_mul(t):
            r = {(): Fraction(1)}
            parts = sorted((self.of(c) for c in t.children()), key=len)
            for q in parts:
                r = self.mul(r, q)
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            r = {m: -k for m, k in self.of(t.arg(0)).items()}
        elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 20:
            r = {(): Fraction(1)}
            b = self.of(t.arg(0))
            for _ in range(t.arg(1).numerator_as_long()):
                r = self.mul(r, b)
        elif z3.is_div(t) and z3.is_rational_value(t.arg(1)) and t.arg(1).numerator_as_long() != 0:
            f = Fraction(t.arg(1).denominator_as_long(), t.arg(1).numerator_as_long())
            r = {m: k * f for m, k in self.of(t.arg(0)).items()}
        else:
            r = {((i, 1),): Fraction(1)}
        self.memo[i] = r
        return r


def is_zero(diff, sqrts=(), limit=LIMIT):
    """True if the term is identically zero as a polynomial (given square roots of polynomials)."""
    ring = Ring(limit=limit)
    try:
        for x, s in sqrts:
            if x.d is None:
                n = ring.of(x.n)
                ring.squares[s.n.get_id()] = n
                ring.keep.append(s.n)
        ring.memo.clear()
        return not ring.of(diff)
    except TooBig:
        return False


def _order(vs):
    """Key of the lexicographic order in which the variables vs come first to last."""
    return lambda m: tuple(dict(m).get(v, 0) for v in vs)


def square_root(p):
    """The polynomial r with r * r = p, or None."""
    if not p:
        return None
    ring = Ring(limit=400)
    key = _order(sorted({v for m in p for v, _ in m}))
    lm = max(p, key=key)
    c = Fraction(p[lm])
    if c <= 0 or any(k % 2 for _, k in lm):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    c = Fraction(a, b)
    l = tuple((v, k // 2) for v, k in lm)
    r = {l: c}
    rest = add(p, {lm: -p[lm]})
    for _ in range(400):
        if not rest:
            return r
        m = max(rest, key=key)
        e = dict(m)
        for v, k in l:
            e[v] = e.get(v, 0) - k
        if any(k < 0 for k in e.values()):
            return None
        t = {tuple(sorted((v, k) for v, k in e.items() if k)): Fraction(rest[m]) / (2 * c)}
        # (r + t)^2 = r^2 + 2 r t + t^2
        try:
            d = add(ring.mul({k: 2 * v for k, v in r.items()}, t), ring.mul(t, t))
        except TooBig:
            return None
        rest = add(rest, {k: -v for k, v in d.items()})
        r = add(r, t)
        if rest and key(max(rest, key=key)) >= key(m):
            return None
    return None


def root_of_product(terms):
    """A z3 term whose square is identically the product of the terms, or None."""
    ring = Ring(limit=300)
    try:
        p = {(): Fraction(1)}
        for t in terms:
            p = ring.mul(p, ring.of(z3.simplify(t)))
    except TooBig:
        return None
    r = square_root(p)
    if r is None:
        return None
    byid = {t.get_id(): t for t in ring.keep}
    out = []
    for m, c in r.items():
        f = [z3.RealVal(str(c))] if c != 1 or not m else []
        for v, k in m:
            f += [byid[v]] * k
        out.append(f[0] if len(f) == 1 else z3.Product(*f))
    return out[0] if len(out) == 1 else z3.Sum(*out)
