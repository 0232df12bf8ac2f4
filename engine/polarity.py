"""Monotonicity of a value in one of its symbols: a polarity analysis on the value graph.

mono(p, s) is '0' (independent), '+' (never decreases), '-' (never increases) or None (unknown)."""
import math
from . import terms as T
from .terms import P, V, BN, Base, TRUE, FALSE, F


def neg(d):
    return {'+': '-', '-': '+', '0': '0', None: None}[d]


def join(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    return a if a == b else None


def depends(x, s):
    return s in T.all_bases(x)


def sign(p):
    lo, hi = T.bounds(p)[:2]
    if lo is not None and lo >= 0:
        return '+'
    if hi is not None and hi <= 0:
        return '-'
    return None


def mono(p, s, con=None):
    con = con or T.Constr()
    return Mono(s, con).p(T.restrict(p, con) if con.asg else p)


def b_literal(c):
    return {c.h, c.l} == {TRUE, FALSE}


def nroot(x, n):
    r = round(float(x) ** (1.0 / n))
    return next((k for k in (r - 1, r, r + 1) if k > 0 and k ** n == x), None)


def square(g):
    """is the polynomial a sum of even powers, in separate symbols?"""
    comps = []
    for m, c in g.t:
        names, mine = {b for b, e in m}, [(m, c)]
        rest = []
        for ns, ms in comps:
            if ns & names:
                names |= ns
                mine += ms
            else:
                rest.append((ns, ms))
        comps = rest + [(names, mine)]
    return all(square1(T._mkP(dict(ms))) for ns, ms in comps)


def square1(g):
    """is the polynomial a positive multiple of an even power of a sum of at most five monomials?"""
    for n in (2, 4, 6, 8):
        lead = [c for m, c in g.t if c > 0 and all(isinstance(e, F) and (e / n).denominator == 1 for b, e in m)]
        if not lead:
            continue
        h = T.scale(g, 1 / lead[0])
        roots = []
        for m, c in h.t:
            if c > 0 and all(isinstance(e, F) and (e / n).denominator == 1 for b, e in m):
                u, v = nroot(c.numerator, n), nroot(c.denominator, n)
                if u and v:
                    roots.append(T._mkP({tuple((b, e / n) for b, e in m): F(u, v)}))
        if not 0 < len(roots) <= 5:
            continue
        for k in range(2 ** (len(roots) - 1)):
            x = roots[0]
            for i, y in enumerate(roots[1:]):
                x = T.sub(x, y) if k >> i & 1 else T.add(x, y)
            if T.powp(x, F(n)) is h:
                return True
    return False


class Mono:
    def __init__(self, s, con):
        self.s, self.con = s, con
        self.memo = {}

    def bounds(self, p):
        T.CONSTR.append(self.con.iv)
        try:
            return T.bounds(p)
        finally:
            T.CONSTR.pop()

    def sign(self, p):
        lo, hi = self.bounds(p)[:2]
        if lo is not None and lo >= 0:
            return '+'
        if hi is not None and hi <= 0:
            return '-'
        return None

    def p(self, p):
        r = self.memo.get(p)
        if r is None:
            r = self._p(p)
            self.memo[p] = r
        return r

    def _p(self, p):
        if not depends(p, self.s):
            return '0'
        r = '0'
        for m, c in p.t:
            d = self.mono(m)
            r = join(r, d if c > 0 else neg(d)) if d else None
            if r is None:
                break
        if r is not None:
            return r
        # monomials with the same dependent part share one factor, which may be a square
        groups = {}
        for m, c in p.t:
            dep = tuple((b, e) for b, e in m if depends(b, self.s) or isinstance(e, P) and depends(e, self.s))
            rest = tuple((b, e) for b, e in m if (b, e) not in dep)
            g = groups.setdefault(dep, {})
            g[rest] = g.get(rest, 0) + c
        r = '0'
        for dep, g in groups.items():
            if not dep:
                continue
            d = self.mono(dep)
            if d == '0':
                continue
            if d is None:
                return None
            g = T._mkP(g)
            sg = self.sign(g) or ('+' if square(g) else '-' if square(T.neg(g)) else None)
            if sg is None:
                return None
            r = join(r, d if sg == '+' else neg(d))
            if r is None:
                return None
        return r

    def mono(self, m):
        if not any(depends(b, self.s) or isinstance(e, P) and depends(e, self.s) for b, e in m):
            return '0'
        fs = [(T._mkP({((b, e),): F(1)}), b, e) for b, e in m]
        r = '0'
        for i, (f, b, e) in enumerate(fs):
            d = self.factor(b, e)
            if d == '0':
                continue
            if d is None:
                return None
            rest = T.ONE
            for j, (g, _, _) in enumerate(fs):
                if j != i:
                    rest = T.mul(rest, g)
            sg = self.sign(rest)
            if sg is None:
                return None
            r = join(r, d if sg == '+' else neg(d))
            if r is None:
                return None
        return r

    def factor(self, b, e):
        if isinstance(e, P) and depends(e, self.s):
            if depends(b, self.s):
                return None
            d = self.p(e)
            lo, hi = self.bounds(T.pb(b))[:2]
            if lo is not None and lo >= 1:
                return d
            if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                return neg(d)
            return None
        d = self.base(b)
        if d in ('0', None):
            return d
        if isinstance(e, P):
            se = self.sign(e)
            if se is None:
                return None
        else:
            se = '+' if e > 0 else '-'
        sb = self.sign(T.pb(b))
        odd = isinstance(e, F) and e.denominator == 1 and e % 2 == 1
        if sb == '+' or (odd and e > 0):
            return d if se == '+' else neg(d)
        if sb == '-' and isinstance(e, F) and e.denominator == 1:
            if e % 2 == 0:
                return neg(d) if se == '+' else d
            return d if se == '+' else neg(d)
        return None

    def base(self, b):
        if b is self.s:
            return '+'
        if not depends(b, self.s):
            return '0'
        k = b.kind
        if k == 'poly':
            return self.p(b.args[0])
        if k == 'fn':
            n = b.args[0]
            if n in ('exp', 'log', 'log2', 'log10', 'atan', 'sinh', 'tanh', 'sqrt', 'asin'):
                return self.p(b.args[1])
            if n == 'acos':
                return neg(self.p(b.args[1]))
            if n == 'abs':
                sg = self.sign(b.args[1])
                d = self.p(b.args[1])
                return d if sg == '+' else (neg(d) if sg == '-' else None)
            return None
        if k == 'ite':
            return self.ite(*b.args)
        return None

    def ite(self, c, a, b):
        """threshold on a monotone quantity: both branches monotone the same way and the jump in that direction"""
        if not depends(c, self.s):
            # the case is fixed for the whole comparison
            if b_literal(c):
                r = '0'
                for br, val in ((a, c.h is TRUE), (b, c.h is not TRUE)):
                    k = self.con.copy()
                    if k.add(c.a, val):
                        r = join(r, Mono(self.s, k).p(T.restrict(br, k)))
                return r
            return join(self.p(a), self.p(b))
        if c.h is not TRUE and c.h is not FALSE or c.l is not TRUE and c.l is not FALSE:
            return None
        at = c.a
        if at.kind not in ('lt', 'le'):
            return None
        low, high = (a, b) if c.h is TRUE else (b, a)
        dq = self.p(at.args[0])
        if dq not in ('+', '-'):
            return None
        # "low" is selected while the quantity is small
        cl, ch = self.con.copy(), self.con.copy()
        if not cl.add(at, True):
            return Mono(self.s, self.con).p(high)
        if not ch.add(at, False):
            return Mono(self.s, self.con).p(low)
        low, high = T.restrict(low, cl), T.restrict(high, ch)
        ml, mh = Mono(self.s, cl), Mono(self.s, ch)
        d = join(ml.p(low), mh.p(high))
        if d is None:
            return None
        bl, bh = ml.bounds(low), mh.bounds(high)
        first, second = (bl, bh) if dq == '+' else (bh, bl)
        up = first[1] is not None and second[0] is not None and first[1] <= second[0]
        down = first[0] is not None and second[1] is not None and first[0] >= second[1]
        if up and d in ('0', '+'):
            return '+'
        if down and d in ('0', '-'):
            return '-'
        # continuous at the threshold: both sides agree when the quantity takes the threshold value
        q, r = at.args
        sb = T.single_base(q)
        if sb is self.s:
            at_r = {self.s: T.const(r)}
            if T.subst_base(low, at_r) is T.subst_base(high, at_r):
                return d
        return None


def cof(n, a, v, memo):
    if n is TRUE or n is FALSE:
        return n
    if n.a is a:
        return n.h if v else n.l
    r = memo.get(n)
    if r is None:
        h, l = cof(n.h, a, v, memo), cof(n.l, a, v, memo)
        r = memo[n] = n if h is n.h and l is n.l else T._bn(n.a, h, l)
    return r


def bmono(c, s, con=None):
    """direction of a condition: '+' once true it stays true while s grows, '-' the reverse, '0' independent, None unknown"""
    con = con or T.Constr()
    if con.asg:
        c = T.restrict(c, con)
    mo = Mono(s, con)
    r = '0'
    for a in T.b_atoms(c):
        # a threshold on the symbol itself: both sides in the same direction, equal at the threshold
        if a.kind in ('lt', 'le') and T.single_base(a.args[0]) is s:
            low, high = con.copy(), con.copy()
            if not low.add(a, True):
                return bmono(c, s, high) if high.add(a, False) else None
            if not high.add(a, False):
                return bmono(c, s, low)
            x, y = T.restrict(c, low), T.restrict(c, high)
            at = lambda b: T.const(a.args[1]) if b is s else None
            if T.subst(x, at) is not T.subst(y, at):
                return None
            u, v = bmono(x, s, low), bmono(y, s, high)
            return None if u is None or v is None else join(u, v)
    for a in T.b_atoms(c):
        d = None
        if not depends(a, s):
            continue
        if a.kind in ('lt', 'le'):
            d = neg(mo.p(a.args[0]))
        if d == '0':
            continue
        if d is None:
            return None
        hi, lo = cof(c, a, True, {}), cof(c, a, False, {})
        if T.b_or(T.b_not(lo), hi) is TRUE:
            pass
        elif T.b_or(T.b_not(hi), lo) is TRUE:
            d = neg(d)
        else:
            return None
        r = join(r, d)
        if r is None:
            return None
    return r
