"""Value domain of the analysis: hash-consed value numbers with algebraic normal forms.

P   scalars      sums of monomials over interned bases (polynomial normal form, symbolic exponents)
BN  booleans     reduced ordered BDDs over interned comparison / predicate atoms
V   3-vectors    linear combinations  coef * word . base  (word: letters of linear maps, cancelled)
Q   quaternions  scale * word of rotation letters
M   3x3 maps     linear combinations of words
"""
from fractions import Fraction
from decimal import Decimal
import itertools

F = Fraction
F0, F1, F2, FH = F(0), F(1), F(2), F(1, 2)


class Base:
    __slots__ = ('id', 'kind', 'args', 'facts')
    table = {}
    count = 0

    def __repr__(self):
        return show_base(self)


def base(kind, *args):
    k = (kind,) + args
    b = Base.table.get(k)
    if b is None:
        b = Base()
        Base.count += 1
        b.id = Base.count
        b.kind = kind
        b.args = args
        b.facts = {}
        Base.table[k] = b
    return b


# ---------------------------------------------------------------- scalars
class P:
    __slots__ = ('id', 't', '_c')
    table = {}

    def __repr__(self):
        return show(self)


def _expkey(e):
    return (0, e) if isinstance(e, F) else (1, e.id)


def _monokey(m):
    return tuple((b.id, _expkey(e)) for b, e in m)


def _mkP(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: _monokey(x[0])))
    p = P.table.get(items)
    if p is None:
        p = P()
        p.id = len(P.table)
        p.t = items
        p._c = None
        P.table[items] = p
    return p


def const(x):
    if not isinstance(x, F):
        x = F(x)
    return _mkP({(): x})


def lit(src):
    s = src.rstrip('fFlLuU') if not src.lower().startswith('0x') else src
    try:
        return const(F(Decimal(s)))
    except Exception:
        return const(F(float(s)))


def pb(b, e=F1):
    return _mkP({((b, e),): F1})


def atom(name, **facts):
    b = base('atom', name)
    b.facts.update(facts)
    return pb(b)


def is_const(p):
    return len(p.t) == 0 or (len(p.t) == 1 and p.t[0][0] == ())


def cval(p):
    if not p.t:
        return F0
    if len(p.t) == 1 and p.t[0][0] == ():
        return p.t[0][1]
    return None


def _eadd(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a + b
    r = add(a if isinstance(a, P) else const(a), b if isinstance(b, P) else const(b))
    c = cval(r)
    return c if c is not None else r


def _emul(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a * b
    r = mul(a if isinstance(a, P) else const(a), b if isinstance(b, P) else const(b))
    c = cval(r)
    return c if c is not None else r


def _eneg(a):
    return _emul(F(-1), a)


def _monomul(m1, m2):
    d = dict(m1)
    for b, e in m2:
        if b in d:
            s = _eadd(d[b], e)
            if isinstance(s, F) and s == 0:
                del d[b]
            else:
                d[b] = s
        else:
            d[b] = e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


_add_memo = {}


def add(*ps):
    if len(ps) == 2:
        k = (ps[0].id, ps[1].id)
        r = _add_memo.get(k)
        if r is not None:
            return r
    d = {}
    for p in ps:
        for m, c in p.t:
            d[m] = d.get(m, F0) + c
    r = _normsum(d)
    if len(ps) == 2:
        _add_memo[k] = r
    return r


def neg(p):
    return _mkP({m: -c for m, c in p.t})


def sub(a, b):
    return add(a, neg(b))


def scale(p, k):
    k = F(k)
    return _mkP({m: c * k for m, c in p.t})


_mul_memo = {}


def mul(a, b):
    if a.id > b.id:
        a, b = b, a
    k = (a.id, b.id)
    r = _mul_memo.get(k)
    if r is None:
        r = _mul(a, b)
        _mul_memo[k] = r
    return r


def _mul(a, b):
    if len(a.t) * len(b.t) > 600:
        # too large to distribute: keep the larger factor as one base
        if len(a.t) > len(b.t):
            a, b = b, a
        b = polypow(b, F1)
    d = {}
    extra = []
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _monomul(m1, m2)
            hit = None
            for bb, e in m:
                if bb.kind == 'poly' and isinstance(e, F) and e.denominator == 1 and e > 0 and len(bb.args[0].t) * e < 40:
                    hit = (bb, e)
                    break
            if hit:
                rest = tuple(x for x in m if x[0] is not hit[0])
                q = _mkP({rest: c1 * c2})
                for _ in range(int(hit[1])):
                    q = mul(q, hit[0].args[0])
                extra.append(q)
            else:
                c = c1 * c2
                for bb, e in m:
                    if bb.kind == 'num' and isinstance(e, F) and not 0 < e < 1:
                        # whole powers of a root of a number
                        n = e.numerator // e.denominator
                        c = c * bb.args[0] ** n
                        m = tuple((x, y - n) if x is bb else (x, y) for x, y in m if x is not bb or y != n)
                d[m] = d.get(m, F0) + c
    for q in extra:
        for m, c in q.t:
            d[m] = d.get(m, F0) + c
    return _normsum(d)


def polypow(p, e):
    """p (a sum of several terms) ** e as one base, content and common monomial factored out"""
    # common monomial
    common = None
    for m, c in p.t:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {b: x for b, x in common.items() if b in dm and dm[b] == x}
    m = tuple(sorted(common.items(), key=lambda x: x[0].id)) if common else ()
    minv = tuple((b, _eneg(x)) for b, x in m)
    q = _mkP({_monomul(mm, minv): c for mm, c in p.t})
    k = q.t[0][1]
    # sign: keep the sign inside unless the exponent is an integer
    if isinstance(e, F) and e.denominator == 1:
        kk = k
    else:
        kk = abs(k)
    q = scale(q, 1 / kk)
    r = pb(base('poly', q), e)
    if kk != 1:
        r = mul(r, numpow(kk, e))
    if m:
        r = mul(r, monopow(m, e))
    return r


def numpow(k, e):
    if k == 1:
        return ONE
    if isinstance(e, F):
        if e.denominator == 1:
            return const(k ** int(e))
        if k > 0:
            n = _root(k.numerator, e.denominator), _root(k.denominator, e.denominator)
            if n[0] is not None and n[1] is not None:
                return const(F(n[0], n[1]) ** e.numerator)
        if k > 0 and e.denominator == 2:
            # the square root of a number without square factors
            n, out = k.numerator * k.denominator, F(1, k.denominator)
            if n < 10 ** 12:
                f = 2
                while f * f <= n and f < 1000:
                    while n % (f * f) == 0:
                        n //= f * f
                        out *= f
                    f += 1
                h = e.numerator // 2
                return scale(pb(base('num', F(n)), FH), (k ** h) * out)
        if k > 0:
            return pb(base('num', k), e)
    return pb(base('num', k), e)


def _root(n, d):
    r = round(n ** (1.0 / d))
    return r if r ** d == n else None


def nonneg_base(b):
    if b.facts.get('nonneg') or b.facts.get('pos'):
        return True
    k = b.kind
    if k == 'dot' and b.args[0] == b.args[1]:
        return True
    if k == 'num':
        return b.args[0] > 0
    if k == 'poly':
        lo = bounds(b.args[0])[0]
        return lo is not None and lo >= 0
    if k == 'fn':
        return b.args[0] in ('exp', 'abs', 'acos', 'sqrt')
    if k == 'ite':
        return all((bounds(x)[0] or 0) >= 0 and bounds(x)[0] is not None for x in b.args[1:3])
    return False


def monopow(m, e):
    r = ONE
    for b, x in m:
        ne = _emul(x, e)
        if isinstance(x, F) and x.denominator == 1 and x % 2 == 0 and not (isinstance(e, F) and e.denominator == 1) and not nonneg_base(b):
            # (b^2k)^e = |b|^(2k e)
            if isinstance(ne, F) and ne.denominator == 1 and ne % 2 == 0:
                r = mul(r, pb(b, ne))
            else:
                r = mul(r, powp(absP(pb(b)), ne))
        elif isinstance(ne, F) and ne == 0:
            pass
        else:
            if b.kind == 'poly' and isinstance(ne, F) and ne.denominator == 1 and ne > 0:
                q = b.args[0]
                for _ in range(int(ne)):
                    r = mul(r, q)
            else:
                r = mul(r, _mkP({((b, ne),): F1}))
    return r


def powp(p, e):
    """p ** e, e a Fraction or a P"""
    if isinstance(e, P):
        c = cval(e)
        if c is not None:
            e = c
    if isinstance(e, F):
        if e == 0:
            return ONE
        if e == 1:
            return p
    c = cval(p)
    if c is not None:
        if c == 0:
            if isinstance(e, F) and e > 0:
                return ZERO
            return pb(base('fn', 'pow0', e))
        if c == 1:
            return ONE
        return numpow(c, e)
    if len(p.t) == 1:
        m, k = p.t[0]
        return mul(numpow(k, e), monopow(m, e)) if k > 0 or (isinstance(e, F) and e.denominator == 1) else pb(base('poly', p), e)
    if isinstance(e, F) and e.denominator == 1 and 0 < e <= 4:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    return polypow(p, e)


def inv(p):
    return powp(p, F(-1))


def div(a, b):
    if b is ZERO:
        return mul(a, pb(base('fn', 'div0')))
    return mul(a, inv(b))


def sqrtP(p):
    return powp(p, FH)


def cleared(p, rounds=12, size=4000):
    """p times a product of its denominators, multiplied out (roots of sums stay generators); zero exactly when p is, where p is defined"""
    for _ in range(rounds):
        lows = {}
        for m, c in p.t:
            for b, e in m:
                if b.kind == 'poly':
                    if not isinstance(e, F):
                        return p
                    lows[b] = min(lows.get(b, F0), e)
        if not any(e < 0 or e >= 1 for m, c in p.t for b, e in m if b.kind == 'poly'):
            return p
        up = {b: -((e.numerator) // e.denominator) for b, e in lows.items() if e < 0}
        q = ZERO
        for m, c in p.t:
            d = dict(m)
            for b, k in up.items():
                d[b] = d.get(b, F0) + k
            r = const(c)
            for b, e in d.items():
                if b.kind != 'poly':
                    r = mul(r, _mkP({((b, e),): F1}))
                    continue
                n = e.numerator // e.denominator
                for _k in range(n):
                    r = mul(r, b.args[0])
                if e != n:
                    r = mul(r, _mkP({((b, e - n),): F1}))
            q = add(q, r)
            if len(q.t) > size:
                return p
        if q is p:
            return p
        p = q
    return p


def absP(p):
    c = cval(p)
    if c is not None:
        return const(abs(c))
    lo, hi = bounds(p)[:2]
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return neg(p)
    if len(p.t) == 1:
        m, k = p.t[0]
        r = const(abs(k))
        for b, e in m:
            if nonneg_base(b):
                r = mul(r, pb(b, e))
            elif isinstance(e, F) and e.denominator == 1 and e % 2 == 0:
                r = mul(r, pb(b, e))
            elif isinstance(e, F) and e.denominator == 1:
                r = mul(r, powp(pb(base('fn', 'abs', pb(b))), e))
            else:
                r = mul(r, pb(b, e))
        return r
    if p.t[0][1] < 0:
        p = neg(p)
    return pb(base('fn', 'abs', p))


def _normsum(d):
    d = {m: c for m, c in d.items() if c != 0}
    changed = True
    guard = 0
    while changed and guard < 50:
        guard += 1
        changed = False
        # recompose sum_i u_i v_i into dot products
        for m in list(d):
            if m not in d:
                continue
            z = [(b, e) for b, e in m if b.kind == 'comp' and b.args[1] == 0]
            if not z:
                continue
            c = d[m]
            done = False
            cand = []
            for i in range(len(z)):
                b, e = z[i]
                if isinstance(e, F) and e.denominator == 1 and e >= 2:
                    cand.append((b, b))
                for j in range(i + 1, len(z)):
                    if e == 1 and z[j][1] == 1:
                        cand.append((b, z[j][0]))
            for u, v in cand:
                rest = _monomul(m, ((u, F(-2)),)) if u is v else _monomul(_monomul(m, ((u, F(-1)),)), ((v, F(-1)),))
                others = []
                ok = True
                for i in (1, 2):
                    ui, vi = base('comp', u.args[0], i), base('comp', v.args[0], i)
                    mi = _monomul(rest, ((ui, F2),)) if ui is vi else _monomul(_monomul(rest, ((ui, F1),)), ((vi, F1),))
                    if d.get(mi) != c:
                        ok = False
                        break
                    others.append(mi)
                if ok:
                    for mi in [m] + others:
                        del d[mi]
                    dp = dot_base(u.args[0], v.args[0])
                    q = mul(_mkP({rest: c}), dp)
                    for mm, cc in q.t:
                        d[mm] = d.get(mm, F0) + cc
                        if d[mm] == 0:
                            del d[mm]
                    changed = True
                    done = True
                    break
            if done:
                break
        if changed:
            continue
        # sin^2 + cos^2 = 1
        for m in list(d):
            for b, e in m:
                if b.kind == 'fn' and b.args[0] == 'sin' and e == F2:
                    rest = _monomul(m, ((b, F(-2)),))
                    m2 = _monomul(rest, ((base('fn', 'cos', b.args[1]), F2),))
                    if d.get(m2) == d[m]:
                        c = d.pop(m)
                        d.pop(m2)
                        d[rest] = d.get(rest, F0) + c
                        if d[rest] == 0:
                            del d[rest]
                        changed = True
                        break
            if changed:
                break
        if changed:
            continue
        # Q * Q^-1 with Q a sum
        negs = {}
        for m in d:
            for b, e in m:
                if b.kind == 'poly' and isinstance(e, F) and e < 0:
                    negs.setdefault((b, e), []).append(m)
        for (b, e), ms in negs.items():
            q = b.args[0]
            if len(ms) < len(q.t):
                continue
            co = {}
            for m in ms:
                r = _monomul(m, ((b, -e),))
                co[r] = co.get(r, F0) + d[m]
            if len(co) != len(q.t):
                continue
            cp = _mkP(co)
            # cp == k * mono * q ?
            m0, k0 = cp.t[0]
            hit = None
            for mq, kq in q.t:
                fac = _monomul(m0, tuple((bb, _eneg(x)) for bb, x in mq))
                k = k0 / kq
                if all(co.get(_monomul(fac, mm)) == k * kk for mm, kk in q.t):
                    hit = (fac, k)
                    break
            if hit:
                for m in ms:
                    del d[m]
                nm = _monomul(hit[0], ((b, e + 1),)) if e + 1 != 0 else hit[0]
                d[nm] = d.get(nm, F0) + hit[1]
                if d[nm] == 0:
                    del d[nm]
                changed = True
                break
    return _mkP(d)


ZERO = const(0)
ONE = const(1)
TWO = const(2)
PI_B = base('atom', 'pi')
PI_B.facts.update(pos=True, lo=F(314159, 100000), hi=F(314160, 100000))
PI = pb(PI_B)


def sin_acos(u):
    """sqrt(1 - u^2) over one denominator"""
    q = ZERO
    for m, c in sub(ONE, mul(u, u)).t:
        x = const(c)
        for b, e in m:
            if b.kind == 'fn' and b.args[0] == 'abs' and isinstance(e, F) and e.denominator == 1 and e % 2 == 0:
                x = mul(x, powp(b.args[1], e))
            else:
                x = mul(x, pb(b, e))
        q = add(q, x)
    low = {}
    for m, c in q.t:
        for b, e in m:
            if b.kind == 'poly' and isinstance(e, F) and e < 0 and e.denominator == 1 and nonneg_base(b):
                low[b] = min(low.get(b, F0), e)
    r = ONE
    for b, e in low.items():
        q = mul(q, powp(b.args[0], -e))
        r = mul(r, pb(b, e / 2))
    return mul(r, sqrtP(q))


def fn(name, *args):
    """opaque function of scalars with a few exact folds"""
    a = args
    if name in ('sin', 'cos', 'atan', 'asin', 'tan'):
        x = a[0]
        c = cval(x)
        if c == 0:
            return ONE if name == 'cos' else ZERO
        # multiples of pi/2
        q = cval(div(x, PI)) if name in ('sin', 'cos') else None
        if q is not None and (2 * q).denominator == 1:
            n = int(2 * q) % 4
            return const([0, 1, 0, -1][n] if name == 'sin' else [1, 0, -1, 0][n])
        if name == 'sin' and x.t[0][1] < 0:
            return neg(fn('sin', neg(x)))
        if name == 'cos' and x.t[0][1] < 0:
            return fn('cos', neg(x))
        # acos/atan2 inside
        b = single_base(x)
        if b is not None and b.kind == 'fn':
            if b.args[0] == 'acos':
                u = b.args[1]
                return u if name == 'cos' else (sin_acos(u) if name == 'sin' else pb(base('fn', name, *a)))
            if b.args[0] == 'atan2':
                y, xx = b.args[1], b.args[2]
                r = sqrtP(add(mul(y, y), mul(xx, xx)))
                if name == 'sin':
                    return div(y, r)
                if name == 'cos':
                    return div(xx, r)
    if name == 'acos':
        c = cval(a[0])
        if c == 0:
            return scale(PI, FH)
        if c == 1:
            return ZERO
        if c == -1:
            return PI
    if name == 'exp' and a[0] is ZERO:
        return ONE
    if name == 'exp' and len(a[0].t) == 1:
        # exp(k log u) = u^k where u is positive
        mono, c = a[0].t[0]
        for b, e in mono:
            if b.kind == 'fn' and b.args[0] == 'log' and e == F1 and isinstance(b.args[1], P):
                lo = bounds(b.args[1])[0]
                sb = single_base(b.args[1])
                if lo is not None and lo > 0 or sb is not None and spos_base(sb):
                    return powp(b.args[1], div(a[0], pb(b)))
    if name == 'atan2':
        y, x = a
        if y is ZERO and x is ZERO:
            return ZERO
        # remove a common positive factor
        y, x = strip_common_positive(y, x)
        if y is ZERO and cval(x) is not None and cval(x) > 0:
            return ZERO
        a = (y, x)
    return pb(base('fn', name, *a))


def strip_pos_factor(p):
    """divide a polynomial by a strictly positive monomial that divides all its monomials (keeps its sign)"""
    if len(p.t) < 1:
        return p
    common = None
    for m, c in p.t:
        dm = {b: e for b, e in m if isinstance(e, F)}
        if common is None:
            common = {b: e for b, e in dm.items() if spos_base(b)}
        else:
            common = {b: min(e, dm[b]) for b, e in common.items() if b in dm}
        if not common:
            return p
    return mul(p, _mkP({tuple(sorted(((b, -e) for b, e in common.items()), key=lambda z: z[0].id)): F1}))


def spos_base(b):
    f = b.facts
    return bool(f.get('pos')) or f.get('lo', 0) is not None and f.get('lo', 0) > 0


def strip_positive(ps):
    """divide all by a positive factor that is common to all monomials"""
    ts = [t for p in ps for t in p.t]
    common = None
    for m, c in ts:
        dm = dict(m)
        if common is None:
            common = {b: e for b, e in dm.items() if nonneg_base(b)}
        else:
            common = {b: e for b, e in common.items() if dm.get(b) == e}
    if common:
        mi = _mkP({tuple(sorted(((b, _eneg(e)) for b, e in common.items()), key=lambda z: z[0].id)): F1})
        ps = [mul(p, mi) for p in ps]
    return tuple(ps)


def strip_common_positive(y, x):
    """divide both by a positive factor that is common to all monomials"""
    ts = list(y.t) + list(x.t)
    if not ts:
        return y, x
    common = None
    for m, c in ts:
        dm = dict(m)
        if common is None:
            common = {b: e for b, e in dm.items() if nonneg_base(b)}
        else:
            common = {b: e for b, e in common.items() if dm.get(b) == e}
    if common:
        mi = _mkP({tuple(sorted(((b, _eneg(e)) for b, e in common.items()), key=lambda z: z[0].id)): F1})
        y, x = mul(y, mi), mul(x, mi)
    k = abs(ts[0][1])
    k = abs((x.t or y.t)[0][1])
    return scale(y, 1 / k), scale(x, 1 / k)


def single_base(p):
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return None


# ---------------------------------------------------------------- booleans
class BN:
    __slots__ = ('id', 'a', 'h', 'l')
    table = {}

    def __repr__(self):
        return show_b(self)


def _bn(a, h, l):
    if h is l:
        return h
    k = (a, h, l)
    n = BN.table.get(k)
    if n is None:
        n = BN()
        n.id = len(BN.table) + 2
        n.a, n.h, n.l = a, h, l
        BN.table[k] = n
    return n


TRUE, FALSE = BN(), BN()
TRUE.id, FALSE.id = 1, 0
TRUE.a = FALSE.a = TRUE.h = FALSE.h = TRUE.l = FALSE.l = None


def batom(b):
    return _bn(b, TRUE, FALSE)


def bpred(*args, **facts):
    b = base('pred', *args)
    b.facts.update(facts)
    return batom(b)


_bite = {}


def b_ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    k = (c, x, y)
    r = _bite.get(k)
    if r is None:
        top = min((n.a.id, n.a) for n in (c, x, y) if n.a is not None)[1] if True else None
        r = _bn(top, b_ite(_cof(c, top, True), _cof(x, top, True), _cof(y, top, True)),
                b_ite(_cof(c, top, False), _cof(x, top, False), _cof(y, top, False)))
        _bite[k] = r
    return r


Base.__lt__ = lambda s, o: s.id < o.id


def _cof(n, a, v):
    if n.a is a:
        return n.h if v else n.l
    return n


def b_and(*xs):
    r = TRUE
    for x in xs:
        r = b_ite(r, x, FALSE)
    return r


def b_or(*xs):
    r = FALSE
    for x in xs:
        r = b_ite(r, TRUE, x)
    return r


def b_not(x):
    return b_ite(x, FALSE, TRUE)


def b_atoms(n, acc=None):
    if acc is None:
        acc = set()
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if x.a is None or x in seen:
            continue
        seen.add(x)
        acc.add(x.a)
        st += [x.h, x.l]
    return acc


def cmp0(p, op):
    """boolean  p op 0"""
    if op == '>':
        return b_not(cmp0(p, '<='))
    if op == '>=':
        return b_not(cmp0(p, '<'))
    if op == '!=':
        return b_not(cmp0(p, '=='))
    c = cval(p)
    if c is not None:
        return TRUE if {'<': c < 0, '<=': c <= 0, '==': c == 0}[op] else FALSE
    # distribute over a conditional
    for m, k in p.t:
        for b, e in m:
            if b.kind == 'ite':
                cnd = b.args[0]
                return b_ite(cnd, cmp0(assume_b(p, b, True), op), cmp0(assume_b(p, b, False), op))
    p = strip_pos_factor(p)
    c = cval(p)
    if c is not None:
        return TRUE if {'<': c < 0, '<=': c <= 0, '==': c == 0}[op] else FALSE
    cst = F0
    rest = {}
    for m, k in p.t:
        if m == ():
            cst = k
        else:
            rest[m] = k
    q = _mkP(rest)
    k = q.t[0][1]
    q = scale(q, 1 / k)
    rhs = -cst / k
    lo, hi, ls, hs = bounds(q)
    # q op rhs, direction flipped when k < 0
    def le(strict):
        # q < rhs (strict) or q <= rhs
        if strict:
            if hi is not None and (hi < rhs or (hi == rhs and hs)):
                return TRUE
            if lo is not None and lo >= rhs:
                return FALSE
            return batom(base('lt', q, rhs))
        if hi is not None and hi <= rhs:
            return TRUE
        if lo is not None and (lo > rhs or (lo == rhs and ls)):
            return FALSE
        return batom(base('le', q, rhs))
    if op == '==':
        if (lo is not None and (lo > rhs or (lo == rhs and ls))) or (hi is not None and (hi < rhs or (hi == rhs and hs))):
            return FALSE
        return batom(base('eq', q, rhs))
    if k > 0:
        return le(op == '<')
    # k*(q - rhs) < 0  <=>  q > rhs
    return b_not(le(op != '<'))


def assume_b(p, iteb, v):
    """replace one conditional base by its branch"""
    return subst_base(p, {iteb: iteb.args[1] if v else iteb.args[2]})


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    nc = b_not(c)
    if nc.id < c.id:
        c, a, b = nc, b, a
    da, db = dict(a.t), dict(b.t)
    common = {m: k for m, k in da.items() if db.get(m) == k}
    if common:
        a = _mkP({m: k for m, k in da.items() if m not in common})
        b = _mkP({m: k for m, k in db.items() if m not in common})
        return add(_mkP(common), pb(base('ite', c, a, b)))
    return pb(base('ite', c, a, b))


# ---------------------------------------------------------------- intervals
CONSTR = []  # stack of {P' : (lo, hi, ls, hs)} assumed facts


def bounds(p):
    """interval (lo, hi, lo_strict, hi_strict); None = unbounded"""
    if p._c is not None and not CONSTR:
        return p._c
    r = _bounds(p)
    if not CONSTR:
        p._c = r
    else:
        r = _meet_constr(p, r)
    return r


def _meet_constr(p, r):
    if not p.t:
        return r
    cst = F0
    rest = {}
    for m, k in p.t:
        if m == ():
            cst = k
        else:
            rest[m] = k
    if not rest:
        return r
    q = _mkP(rest)
    k = q.t[0][1]
    q = scale(q, 1 / k)
    for c in CONSTR:
        if q in c:
            lo, hi, ls, hs = c[q]
            lo2 = None if lo is None else lo * k + cst
            hi2 = None if hi is None else hi * k + cst
            if k < 0:
                lo2, hi2, ls, hs = hi2, lo2, hs, ls
            r = meet(r, (lo2, hi2, ls, hs))
    return r


def meet(a, b):
    lo, ls = a[0], a[2]
    if b[0] is not None and (lo is None or b[0] > lo or (b[0] == lo and b[2])):
        lo, ls = b[0], b[2]
    hi, hs = a[1], a[3]
    if b[1] is not None and (hi is None or b[1] < hi or (b[1] == hi and b[3])):
        hi, hs = b[1], b[3]
    return lo, hi, ls, hs


TOPI = (None, None, False, False)


def iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[1] is None or b[1] is None else a[1] + b[1]
    return lo, hi, a[2] or b[2], a[3] or b[3]


def imul(a, b):
    # exact for bounded; sign reasoning for half lines
    def nn(x):
        return x[0] is not None and x[0] >= 0
    def np_(x):
        return x[1] is not None and x[1] <= 0
    if np_(a) and not nn(a):
        r = imul(ineg(a), b)
        return ineg(r)
    if np_(b) and not nn(b):
        r = imul(a, ineg(b))
        return ineg(r)
    if nn(a) and nn(b):
        lo = a[0] * b[0]
        ls = (a[2] and b[0] > 0) or (b[2] and a[0] > 0) or (a[2] and b[2]) or (lo == 0 and ((a[2] or a[0] > 0) and (b[2] or b[0] > 0)))
        if a[1] is None or b[1] is None:
            if (a[1] == 0) or (b[1] == 0):
                return (F0, F0, False, False)
            hi, hs = None, False
        else:
            hi = a[1] * b[1]
            hs = (a[3] and b[1] > 0) or (b[3] and a[1] > 0)
        return lo, hi, ls, hs
    if None in (a[0], a[1], b[0], b[1]):
        if nn(b) and a[0] is not None and b[1] is not None and a[1] is None:
            return (a[0] * b[1], None, False, False)
        if nn(b) and a[1] is not None and b[1] is not None and a[0] is None:
            return (None, a[1] * b[1], False, False)
        if nn(a) and (b[0] is None or b[1] is None) and a[1] is not None:
            return imul(b, a) if not nn(b) and a is not b else TOPI
        return TOPI
    c = [(a[0] * b[0], a[2] or b[2]), (a[0] * b[1], a[2] or b[3]), (a[1] * b[0], a[3] or b[2]), (a[1] * b[1], a[3] or b[3])]
    lo = min(x[0] for x in c)
    hi = max(x[0] for x in c)
    return lo, hi, all(s for x, s in c if x == lo) and lo != 0, all(s for x, s in c if x == hi) and hi != 0


def ineg(a):
    return (None if a[1] is None else -a[1], None if a[0] is None else -a[0], a[3], a[2])


def _bounds(p):
    r = (F0, F0, False, False)
    for m, k in p.t:
        x = (k, k, False, False)
        for b, e in m:
            x = imul(x, powbounds(base_bounds(b), e, b))
        if CONSTR and m:
            x = _meet_constr(_mkP({m: k}), x)
        r = iadd(r, x)
    return r


def powbounds(i, e, b=None):
    lo, hi, ls, hs = i
    if isinstance(e, P):
        el = bounds(e)
        # symbolic exponent: even multiples are taken as non negative
        cont = [c for m, c in e.t]
        even = all(c.denominator == 1 and c % 2 == 0 for c in cont)
        if (lo is not None and lo >= 0) or even:
            strict = lo is not None and (lo > 0 or ls)
            if el[0] is not None and el[0] >= 0:
                h = F1 if hi is not None and hi <= 1 else None
                l = F1 if lo is not None and lo >= 1 else F0
                return (l, h, strict and l == 0, hs and h is not None and (el[0] > 0 or el[2]))
            if el[1] is not None and el[1] <= 0:
                h = F1 if lo is not None and lo >= 1 else None
                l = F1 if hi is not None and hi <= 1 and lo is not None and (lo > 0 or ls) else F0
                pos = el[1] < 0 or el[3]
                return (l, h, l == 0, h is not None and (ls or lo > 1) and pos)
            return (F0, None, strict, False)
        return TOPI
    if e == 1:
        return i
    if e.denominator == 1:
        n = int(e)
        if n > 0:
            r = i
            for _ in range(n - 1):
                r = imul(r, i)
            if n % 2 == 0:
                s = lo is not None and (lo > 0 or (lo == 0 and ls)) or hi is not None and (hi < 0 or (hi == 0 and hs))
                r = meet(r, (F0, None, bool(s), False))
            return r
        # negative
        if lo is not None and lo >= 0:
            nlo = F0 if hi is None else (F(1) / hi ** (-n) if hi != 0 else None)
            nhi = None if lo == 0 else F(1) / lo ** (-n)
            return (nlo, nhi, True if hi is None else hs, ls)
        if hi is not None and hi <= 0:
            r = powbounds(ineg(i), e)
            return r if n % 2 == 0 else ineg(r)
        if n % 2 == 0:
            return (F0, None, True, False)
        return TOPI
    # fractional
    if lo is not None and lo > 0 and lo == hi and abs(e.numerator) <= 4 and e.denominator <= 4 and _fracpow(lo, abs(e)) is None:
        # an irrational number: between two rational ones
        a, b = _rootbounds(lo, e.denominator)
        n = abs(e.numerator)
        a, b = a ** n, b ** n
        if e > 0:
            return (a, b, True, True)
        return (1 / b, 1 / a if a else None, True, a != 0)
    if lo is not None and lo >= 0:
        if e > 0:
            nlo = F1 if lo >= 1 else F0
            nhi = None if hi is None else (F1 if hi <= 1 else None)
            ex = _fracpow(lo, e)
            if ex is not None:
                nlo = ex
            if hi is not None:
                ex = _fracpow(hi, e)
                if ex is not None:
                    nhi = ex
            return (nlo, nhi, (lo > 0 or ls) if nlo == 0 else (ls and nlo == lo), hs and nhi is not None)
        return (F0, F1 if lo >= 1 else None, True, ls and lo >= 1)
    return (F0, None, False, False)


def _fracpow(x, e):
    n, d = _root(x.numerator, e.denominator), _root(x.denominator, e.denominator)
    if n is None or d is None:
        return None
    return F(n, d) ** e.numerator


def _rootbounds(x, d):
    S = 10 ** 9
    n = x.numerator * S ** d // x.denominator
    r = int(round(float(n) ** (1 / d))) if n < 10 ** 300 else 0
    lo, hi = (max(0, r - 2), r + 2) if n < 10 ** 15 else (0, 1 << (n.bit_length() // d + 1))
    while lo ** d > n:
        lo = 0
    while hi ** d <= n:
        hi *= 2
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** d <= n:
            lo = m
        else:
            hi = m
    return F(lo, S), F(lo + 1, S)


def base_bounds(b):
    f = b.facts
    r = TOPI
    if 'lo' in f or 'hi' in f:
        r = (f.get('lo'), f.get('hi'), f.get('ls', False), f.get('hs', False))
    if f.get('pos'):
        r = meet(r, (F0, None, True, False))
    elif f.get('nonneg'):
        r = meet(r, (F0, None, False, False))
    k = b.kind
    if k == 'fn':
        n = b.args[0]
        if n in ('sin', 'cos'):
            r = meet(r, (F(-1), F1, False, False))
        elif n == 'acos':
            r = meet(r, (F0, F(314160, 100000), False, False))
        elif n == 'atan2':
            r = meet(r, (F(-314160, 100000), F(314160, 100000), False, False))
        elif n == 'exp':
            i = bounds(b.args[1])
            r = meet(r, (F1 if i[0] is not None and i[0] >= 0 else F0, F1 if i[1] is not None and i[1] <= 0 else None,
                         not (i[0] is not None and i[0] >= 0), False))
        elif n == 'abs':
            i = bounds(b.args[1])
            hi = None
            if i[0] is not None and i[1] is not None:
                hi = max(abs(i[0]), abs(i[1]))
            r = meet(r, (F0, hi, False, False))
        elif n in ('pow0', 'div0'):
            pass
    elif k == 'dot':
        if b.args[0] == b.args[1]:
            r = meet(r, (F0, None, False, False))
        elif is_unit_t(b.args[0]) and is_unit_t(b.args[1]):
            r = meet(r, (F(-1), F1, False, False))
    elif k == 'comp':
        if is_unit_t(b.args[0]):
            r = meet(r, (F(-1), F1, False, False))
    elif k == 'poly':
        r = meet(r, bounds(b.args[0]))
    elif k == 'num':
        r = (b.args[0], b.args[0], False, False)
    elif k == 'ite':
        x, y = bounds(b.args[1]), bounds(b.args[2])
        r = meet(r, join(x, y))
    elif k == 'qcomp':
        r = meet(r, (F(-1), F1, False, False))
    if CONSTR:
        r = _meet_constr(pb(b), r)
    return r


def join(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    ls = lo is not None and all(x[2] for x in (a, b) if x[0] == lo)
    hs = hi is not None and all(x[3] for x in (a, b) if x[1] == hi)
    return lo, hi, ls, hs


# ---------------------------------------------------------------- vectors
# a vector term is (word, base); word = tuple of letters (op Base, flag)
class V:
    __slots__ = ('id', 't')
    table = {}

    def __repr__(self):
        return show_v(self)


def _termkey(wt):
    w, b = wt
    return (tuple((o.id, str(f)) for o, f in w), b.id)


def _mkV(d):
    items = tuple(sorted(((wt, c) for wt, c in d.items() if c is not ZERO), key=lambda x: _termkey(x[0])))
    v = V.table.get(items)
    if v is None:
        v = V()
        v.id = len(V.table)
        v.t = items
        V.table[items] = v
    return v


E = [base('e', i) for i in range(3)]
VZERO = _mkV({})


def ev(i):
    return _mkV({((), E[i]): ONE})


def vatom(name, **facts):
    b = base('vec', name)
    b.facts.update(facts)
    return _mkV({((), b): ONE})


def vterm(w, b):
    return _mkV({(w, b): ONE})


def vadd(*vs):
    d = {}
    for v in vs:
        for wt, c in v.t:
            d[wt] = add(d[wt], c) if wt in d else c
    return _mkV(d)


def vscale(v, s):
    if s is ONE:
        return v
    if s is ZERO:
        return VZERO
    if v is VZERO:
        return v
    # v / |v| -> unit(v)
    if any(isinstance(e, F) and e < 0 and e.denominator != 0 for m, c in s.t for b, e in m):
        n = vnorm(v)
        if len(s.t) == 1 and len(n.t) == 1 and n.t[0][0]:
            r = mul(s, n)
            nb = {b for b, e in n.t[0][0]}
            if len(r.t) <= 1 and not any(b in nb for m, c in r.t for b, e in m):
                u = vunit(v)
                return vscale(u, r)
    return _mkV({wt: mul(c, s) for wt, c in v.t})


def vneg(v):
    return _mkV({wt: neg(c) for wt, c in v.t})


def vsub(a, b):
    return vadd(a, vneg(b))


def vec3(a, b, c):
    """vector from components, recomposed into known vectors where it is a linear combination of them"""
    comps = [dict(a.t), dict(b.t), dict(c.t)]
    d = {}
    changed = True
    while changed:
        changed = False
        for m, k in list(comps[0].items()):
            for bb, e in m:
                if bb.kind == 'comp' and bb.args[1] == 0 and e == 1:
                    rest = _monomul(m, ((bb, F(-1)),))
                    ms = [_monomul(rest, ((base('comp', bb.args[0], i), F1),)) for i in range(3)]
                    if all(comps[i].get(ms[i]) == k for i in range(3)):
                        for i in range(3):
                            del comps[i][ms[i]]
                        wt = bb.args[0]
                        q = _mkP({rest: k})
                        d[wt] = add(d[wt], q) if wt in d else q
                        changed = True
                        break
            if changed:
                break
    for i in range(3):
        q = _mkP(comps[i])
        if q is not ZERO:
            wt = ((), E[i])
            d[wt] = add(d[wt], q) if wt in d else q
    return _mkV(d)


def is_orth(op):
    if op.kind == 'rot':
        return True
    if op.kind == 'mat':
        f = op.facts.get('orth')
        if f is None:
            op.facts['orth'] = False
            f = cols_orthonormal(op.args)
            op.facts['orth'] = f
        return f
    return False


def cols_orthonormal(cols):
    def test(cs):
        for i in range(3):
            for j in range(i, 3):
                if vdot(cs[i], cs[j]) is not (ONE if i == j else ZERO):
                    return False
        return True
    return all_cases(list(cols), lambda cs, _: test(cs), limit=8)


def letter_inv(l):
    op, f = l
    if f == 1:
        return (op, -1)
    if f == -1:
        return (op, 1)
    return (op, 'Ti') if f == 'T' else (op, 'T')


def word_inv(w):
    return tuple(letter_inv(l) for l in reversed(w))


def letter_T(l):
    op, f = l
    if op.kind == 'diag':
        return l
    if is_orth(op):
        return letter_inv(l)
    return (op, {1: 'T', 'T': 1, -1: 'Ti', 'Ti': -1}[f])


def word_T(w):
    return tuple(letter_T(l) for l in reversed(w))


def cat(w1, w2):
    w = list(w1)
    for l in w2:
        if w and w[-1][0] is l[0] and letter_inv(w[-1]) == l:
            w.pop()
        elif w and w[-1][0].kind == 'diag' and l[0].kind == 'diag':
            a = diag_of(w.pop())
            b = diag_of(l)
            dd = tuple(mul(x, y) for x, y in zip(a, b))
            if any(x is not ONE for x in dd):
                w.append((base('diag', *dd), 1))
        else:
            w.append(l)
    return tuple(w)


def diag_of(l):
    return l[0].args if l[1] == 1 else tuple(inv(x) for x in l[0].args)


def apply_word(w, v):
    """linear map word applied to a vector"""
    r = VZERO
    for (w2, b), c in v.t:
        r = vadd(r, vscale_plain(apply_term(w, w2, b), c))
    return r


def vscale_plain(v, s):
    return _mkV({wt: mul(c, s) for wt, c in v.t})


def apply_term(w, w2, b):
    ww = cat(w, w2)
    # innermost letter acting on a basis vector
    if ww and b.kind == 'e':
        op, f = ww[-1]
        i = b.args[0]
        if op.kind == 'mat' and f == 1:
            return apply_word(ww[:-1], op.args[i])
        if op.kind == 'diag':
            return vscale_plain(apply_term(ww[:-1], (), b), diag_of(ww[-1])[i])
        if op.kind == 'mat' and f == 'T':
            return apply_word(ww[:-1], vec3(*[vcomp(op.args[j], i) for j in range(3)]))
        if op.kind == 'rot' and op.args[0] == 'aa' and f in (1, -1):
            ax = op.args[2]
            th = op.args[1] if f == 1 else neg(op.args[1])
            if ax is ev(2):
                c, s = fn('cos', th), fn('sin', th)
                if i == 0:
                    return apply_word(ww[:-1], vec3(c, s, ZERO))
                if i == 1:
                    return apply_word(ww[:-1], vec3(neg(s), c, ZERO))
                return apply_word(ww[:-1], ev(2))
    return vterm(ww, b)


def vcomp(v, i):
    r = ZERO
    for (w, b), c in v.t:
        r = add(r, mul(c, tcomp(w, b, i)))
    return r


def tcomp(w, b, i):
    if not w:
        if b.kind == 'e':
            return ONE if b.args[0] == i else ZERO
        if b.kind == 'vite':
            return ite(b.args[0], vcomp(b.args[1], i), vcomp(b.args[2], i))
        return pb(base('comp', (w, b), i))
    op, f = w[0]
    rest = apply_term(w[1:], (), b) if len(w) > 1 else vterm((), b)
    if op.kind == 'diag':
        return mul(diag_of(w[0])[i], vcomp(rest, i))
    if op.kind == 'mat':
        if f == 1:
            r = ZERO
            for j in range(3):
                r = add(r, mul(vcomp(op.args[j], i), vcomp(rest, j)))
            return r
        if f == 'T' or (f == -1 and is_orth(op)):
            return vdot(op.args[i], rest)
    return pb(base('comp', (w, b), i))


def is_unit_t(wt):
    w, b = wt
    if not all(is_orth(l[0]) for l in w):
        return False
    return b.kind in ('e', 'unit') or bool(b.facts.get('unit'))


def vdot(a, b):
    r = ZERO
    for wa, ca in a.t:
        for wb, cb in b.t:
            r = add(r, mul(mul(ca, cb), dot_base(wa, wb)))
    return r


_dot_memo = {}


def dot_base(u, v):
    k = (u, v)
    r = _dot_memo.get(k)
    if r is None:
        r = _dot_base(u, v)
        _dot_memo[k] = r
    return r


def strip_prefix(u, v):
    (wu, bu), (wv, bv) = u, v
    n = 0
    while n < len(wu) and n < len(wv) and wu[n] == wv[n] and is_orth(wu[n][0]):
        n += 1
    return (wu[n:], bu), (wv[n:], bv)


def _dot_base(u, v):
    u, v = strip_prefix(u, v)
    if _termkey(u) > _termkey(v):
        u, v = v, u
    (wu, bu), (wv, bv) = u, v
    if u == v and is_unit_t(u):
        return ONE
    # move orthonormal words to one side:  (W u).v = u.(W^-1 v)
    if wu and all(is_orth(l[0]) for l in wu):
        nv = apply_word(cat(word_inv(wu), wv), vterm((), bv)) if not (bv.kind == 'e' and not wv) else apply_word(word_inv(wu), vterm((), bv))
        nu = vterm((), bu)
        if len(nv.t) == 1 and not (bv.kind == 'e' and not wv):
            (w2, b2), c2 = nv.t[0]
            u2, v2 = ((), bu), (w2, b2)
            return mul(c2, _dot_plain(u2, v2))
        if not (bv.kind == 'e' and not wv):
            return vdot(nu, nv)
    return _dot_plain(u, v)


def _dot_plain(u, v):
    (wu, bu), (wv, bv) = u, v
    if u == v and is_unit_t(u):
        return ONE
    for (x, y) in ((u, v), (v, u)):
        (wx, bx), (wy, by) = x, y
        if not wx and bx.kind == 'e':
            return vcomp_t(y, bx.args[0])
    if not wu and not wv:
        for (bx, by) in ((bu, bv), (bv, bu)):
            if bx.kind == 'cross':
                p, q = bx.args
                if by.kind == 'cross':
                    r, s = by.args
                    # Lagrange
                    return sub(mul(dot_base(p, r), dot_base(q, s)), mul(dot_base(p, s), dot_base(q, r)))
                if ((), by) in (p, q):
                    return ZERO
                if by.kind == 'unit':
                    z = vdot(vterm((), bx), by.args[0])
                    if z is ZERO:
                        return ZERO
            if bx.kind == 'unit':
                z = vdot(bx.args[0], vterm((), by))
                if z is ZERO:
                    return ZERO
                if by is not bx and by.kind != 'unit' and z.t and not any(b.kind == 'dot' and (u in b.args and v in b.args) for m, c in z.t for b, e in m):
                    # unit(x).y = x.y/|x| kept only when x is y itself
                    if bx.args[0] is vterm((), by):
                        return vnorm(bx.args[0])
    if _termkey(u) > _termkey(v):
        u, v = v, u
    return pb(base('dot', u, v))


def vcomp_t(wt, i):
    return tcomp(wt[0], wt[1], i)


def vnorm2(v):
    return vdot(v, v)


def vnorm(v):
    if len(v.t) == 1:
        wt, c = v.t[0]
        if is_unit_t(wt):
            return absP(c)
        return mul(absP(c), sqrtP(dot_base(wt, wt)))
    n2 = vnorm2(v)
    r = sqrtP(n2)
    for m, c in r.t:
        for b, e in m:
            if b.kind == 'poly':
                b.facts['nonneg'] = True
    return r


def vunit(v):
    if v is VZERO:
        return v
    if len(v.t) == 1:
        wt, c = v.t[0]
        lo, hi, ls, hs = bounds(c)
        w, b = wt
        pre = 0
        while pre < len(w) and is_orth(w[pre][0]):
            pre += 1
        if lo is not None and (lo >= 0):
            s = 1
        elif hi is not None and hi <= 0:
            s = -1
        else:
            s = 0
        if s:
            if is_unit_t(wt):
                r = vterm(w, b)
            elif b.kind == 'vite' and pre == len(w):
                r = apply_word(w, vite(b.args[0], vunit(b.args[1]), vunit(b.args[2])))
            else:
                inner = vterm(w[pre:], b)
                r = apply_word(w[:pre], vterm((), base('unit', inner)))
            return r if s > 0 else vneg(r)
    # common orthonormal prefix
    ws = [wt[0] for wt, c in v.t]
    n = 0
    while all(len(w) > n for w in ws) and all(w[n] == ws[0][n] for w in ws) and is_orth(ws[0][n][0]):
        n += 1
    pre = ws[0][:n]
    inner = _mkV({(w[n:], b): c for (w, b), c in v.t})
    if all(cval(c) is not None for _, c in inner.t):
        # constant direction with a rational length
        r = cval(vnorm(inner))
        if r:
            return apply_word(pre, vscale(inner, const(F(1) / r)))
    # positive content and sign
    k = None
    for wt, c in inner.t:
        if c.t:
            k = c.t[0][1]
            break
    sgn = 1
    if k is not None:
        inner = _mkV({wt: scale(c, 1 / abs(k)) for wt, c in inner.t})
        if k < 0:
            inner = vneg(inner)
            sgn = -1
    # common positive scalar factor
    common = None
    for wt, c in inner.t:
        for m, _ in c.t:
            dm = dict(m)
            common = {b: e for b, e in dm.items() if nonneg_base(b)} if common is None else {b: e for b, e in common.items() if dm.get(b) == e}
    if common:
        mi = _mkP({tuple(sorted(((b, _eneg(e)) for b, e in common.items()), key=lambda z: z[0].id)): F1})
        inner = _mkV({wt: mul(c, mi) for wt, c in inner.t})
    n2 = vnorm2(inner)
    if n2 is ONE:
        r = inner
    else:
        r = vterm((), base('unit', inner))
    r = apply_word(pre, r)
    return r if sgn > 0 else vneg(r)


def vcross(a, b):
    r = VZERO
    for wa, ca in a.t:
        for wb, cb in b.t:
            r = vadd(r, vscale_plain(cross_base(wa, wb), mul(ca, cb)))
    return r


def cross_base(u, v):
    if u == v:
        return VZERO
    (wu, bu), (wv, bv) = u, v
    n = 0
    while n < len(wu) and n < len(wv) and wu[n] == wv[n] and wu[n][0].kind == 'rot':
        n += 1
    if n:
        return apply_word(wu[:n], cross_base((wu[n:], bu), (wv[n:], bv)))
    if not wu and not wv and bu.kind == 'e' and bv.kind == 'e':
        i, j = bu.args[0], bv.args[0]
        if i == j:
            return VZERO
        k = 3 - i - j
        return ev(k) if (j - i) % 3 == 1 else vneg(ev(k))
    if _termkey(u) > _termkey(v):
        return vneg(cross_base(v, u))
    return vterm((), base('cross', u, v))


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    nc = b_not(c)
    if nc.id < c.id:
        c, a, b = nc, b, a
    da, db = dict(a.t), dict(b.t)
    common = {wt: k for wt, k in da.items() if db.get(wt) is k}
    if common:
        a = _mkV({wt: k for wt, k in da.items() if wt not in common})
        b = _mkV({wt: k for wt, k in db.items() if wt not in common})
        return vadd(_mkV(common), vterm((), base('vite', c, a, b)))
    return vterm((), base('vite', c, a, b))


# ---------------------------------------------------------------- quaternions and 3x3 maps
class Q:
    """scale * word ; |q| = |scale|"""
    __slots__ = ('s', 'w')

    def __init__(self, s, w):
        self.s, self.w = s, w

    def key(self):
        return ('Q', self.s, self.w)

    def __eq__(self, o):
        return isinstance(o, Q) and self.s is o.s and self.w == o.w

    def __hash__(self):
        return hash((self.s, self.w))

    def __repr__(self):
        return 'Q(%s, %s)' % (show(self.s), show_w(self.w))


def qatom(name):
    """any quaternion: its norm times a unit quaternion"""
    n = atom('|%s|' % name, pos=True)
    return Q(n, ((base('rot', 'q', name), 1),))


def qunit(name):
    return Q(ONE, ((base('rot', 'q', name), 1),))


QID = Q(ONE, ())


def qmul(a, b):
    return Q(mul(a.s, b.s), cat(a.w, b.w))


def qnormalized(q):
    c = cval(q.s)
    if c is not None:
        return Q(ONE if c > 0 else const(-1), q.w)
    lo, hi = bounds(q.s)[:2]
    if lo is not None and lo >= 0:
        return Q(ONE, q.w)
    if hi is not None and hi <= 0:
        return Q(const(-1), q.w)
    b = single_base(q.s)
    if b is not None and b.kind == 'ite':
        x, y = qnormalized(Q(b.args[1], q.w)), qnormalized(Q(b.args[2], q.w))
        return Q(ite(b.args[0], x.s, y.s), q.w)
    return Q(div(q.s, absP(q.s)), q.w)


def qcomp(q, n):
    if not q.w:
        return q.s if n == 'w' else ZERO
    if len(q.w) == 1:
        op, f = q.w[0]
        if op.kind == 'rot' and op.args[0] == 'q4':
            # unit version of given components
            comps = dict(zip('wxyz', op.args[1:]))
            nn = sqrtP(add(*[mul(c, c) for c in comps.values()]))
            v = div(comps[n], nn)
            if f == -1 and n != 'w':
                v = neg(v)
            return mul(q.s, v)
        if op.kind == 'rot' and op.args[0] == 'aa':
            h = scale(op.args[1], FH)
            if n == 'w':
                return mul(q.s, fn('cos', h))
            v = mul(fn('sin', h), vcomp(op.args[2], 'xyz'.index(n)))
            return mul(q.s, neg(v) if f == -1 else v)
        if f == -1:
            r = mul(q.s, pb(base('qcomp', ((op, 1),), n)))
            return r if n == 'w' else neg(r)
    return mul(q.s, pb(base('qcomp', q.w, n)))


def q4(w, x, y, z):
    if x is ZERO and y is ZERO and z is ZERO:
        return Q(w, ())
    cs = (w, x, y, z)
    # k * (components of a known quaternion), or its conjugate
    for b in {b for m, _ in w.t for b, e in m if b.kind == 'qcomp'} | {b for m, _ in x.t for b, e in m if b.kind == 'qcomp'}:
        ws = b.args[0]
        q = Q(ONE, ws)
        k = div(w, qcomp(q, 'w'))
        if not any(bb.kind == 'qcomp' for m, _ in k.t for bb, e in m):
            if all(mul(k, qcomp(q, n)) is c for n, c in zip('wxyz', cs)):
                return Q(k, ws)
            qi = Q(ONE, word_inv(ws))
            if all(mul(k, c2) is c for c2, c in zip([qcomp(q, 'w')] + [neg(qcomp(q, n)) for n in 'xyz'], cs)):
                return Q(k, qi.w)
    s = sqrtP(add(*[mul(c, c) for c in cs]))
    cs = strip_positive(cs)
    # canonical sign: the negated components describe the same rotation
    ncs = tuple(neg(c) for c in cs)
    if tuple(c.id for c in ncs) < tuple(c.id for c in cs):
        return Q(neg(s), ((base('rot', 'q4', *ncs), 1),))
    return Q(s, ((base('rot', 'q4', *cs), 1),))


def qite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if a.w == b.w:
        return Q(ite(c, a.s, b.s), a.w)
    return Q(ite(c, a.s, b.s), ((base('rot', 'ite', c, Q(ONE, a.w), Q(ONE, b.w)), 1),))


def is_unit_q(q):
    c = cval(q.s)
    if c is not None:
        return abs(c) == 1
    return mul(q.s, q.s) is ONE


def qrot(q, v):
    """q * v the way Eigen computes it: a rotation for unit quaternions only"""
    if is_unit_q(q) or all_cases([q.s], lambda xs, _: mul(xs[0], xs[0]) is ONE, limit=6):
        return apply_word(q.w, v)
    return apply_word(((base('nonunit', q.s, q.w), 1),), v)


class M:
    """linear combination of words"""
    __slots__ = ('id', 't')
    table = {}

    def __repr__(self):
        return 'M(' + ' + '.join('%s*%s' % (show(c), show_w(w)) for w, c in self.t) + ')'


def _mkM(d):
    items = tuple(sorted(((w, c) for w, c in d.items() if c is not ZERO), key=lambda x: tuple((o.id, str(f)) for o, f in x[0])))
    m = M.table.get(items)
    if m is None:
        m = M()
        m.id = len(M.table)
        m.t = items
        M.table[items] = m
    return m


def mword(w):
    return _mkM({w: ONE})


MID = mword(())


def mcols(cols):
    if cols == (ev(0), ev(1), ev(2)):
        return MID
    # all three columns are the same map of the basis
    if all(len(c.t) == 1 and c.t[0][1] is ONE and c.t[0][0][1] is E[i] for i, c in enumerate(cols)):
        w = cols[0].t[0][0][0]
        if w and all(c.t[0][0][0] == w for c in cols):
            return mword(w)
    # diagonal
    if all(len(c.t) == 1 and c.t[0][0] == ((), E[i]) for i, c in enumerate(cols)):
        return mdiag(*[c.t[0][1] for c in cols])
    return mword(((base('mat', *cols), 1),))


def mdiag(a, b, c):
    if a is ONE and b is ONE and c is ONE:
        return MID
    return mword(((base('diag', a, b, c), 1),))


def madd(*ms):
    d = {}
    for m in ms:
        for w, c in m.t:
            d[w] = add(d[w], c) if w in d else c
    return _mkM(d)


def mscale(m, s):
    return _mkM({w: mul(c, s) for w, c in m.t})


def mmul(a, b):
    d = {}
    for wa, ca in a.t:
        for wb, cb in b.t:
            w = cat(wa, wb)
            c = mul(ca, cb)
            d[w] = add(d[w], c) if w in d else c
    return _mkM(d)


def mvec(m, v):
    r = VZERO
    for w, c in m.t:
        r = vadd(r, vscale_plain(apply_word(w, v), c))
    return r


def mT(m):
    return _mkM({word_T(w): c for w, c in m.t})


def minv(m):
    if len(m.t) == 1:
        w, c = m.t[0]
        return _mkM({word_inv(w): inv(c)})
    return mword(((base('mat', *[mvec(m, ev(i)) for i in range(3)]), -1),))


def mcol(m, i):
    return mvec(m, ev(i))


def mite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return mcols(tuple(vite(c, mcol(a, i), mcol(b, i)) for i in range(3)))


# ---------------------------------------------------------------- substitution and case analysis
def subst(x, fb, memo=None):
    """rebuild a term bottom up; fb(base) may return a replacement (P, V, BN or op Base) or None"""
    if memo is None:
        memo = {}
    return _Sub(fb, memo).any(x)


class _Sub:
    def __init__(self, fb, memo):
        self.fb = fb
        self.memo = memo

    def any(self, x):
        if isinstance(x, P):
            return self.P(x)
        if isinstance(x, V):
            return self.V(x)
        if isinstance(x, BN):
            return self.B(x)
        if isinstance(x, Q):
            return self.Qm(x)
        if isinstance(x, M):
            r = _mkM({})
            for w, c in x.t:
                r = madd(r, mscale(mword(self.word(w)), self.P(c)))
            return r
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, list):
            return [self.any(y) for y in x]
        return x

    def Qm(self, q):
        s = self.P(q.s)
        r = QID
        for op, f in q.w:
            k = ('op', op)
            if k not in self.memo:
                self.memo[k] = self.op(op)
            o = self.memo[k]
            if isinstance(o, Q):
                o = o if f == 1 else Q(o.s, word_inv(o.w))
            else:
                o = Q(ONE, ((o, f),))
            r = qmul(r, o)
        return Q(mul(s, r.s), r.w)

    def op(self, op):
        r = self.fb(op)
        if r is not None:
            return r
        if op.kind == 'rot':
            if op.args[0] == 'ite':
                return qite(self.B(op.args[1]), self.Qm(op.args[2]), self.Qm(op.args[3]))
            if op.args[0] == 'q4':
                cs = [self.P(a) for a in op.args[1:]]
                if tuple(cs) == op.args[1:]:
                    return op
                r = q4(*cs)
                return Q(ONE, r.w)
            if op.args[0] == 'aa':
                th, ax = self.P(op.args[1]), self.V(op.args[2])
                return qaa(th, ax)
            return op
        if op.kind in ('mat', 'diag', 'nonunit'):
            args = tuple(self.any(a) if not (op.kind == 'nonunit' and i == 1) else self.word(a) for i, a in enumerate(op.args))
            return base(op.kind, *args)
        return op

    def word(self, w):
        r = ()
        for op, f in w:
            k = ('op', op)
            if k not in self.memo:
                self.memo[k] = self.op(op)
            o = self.memo[k]
            if isinstance(o, Q):
                r = cat(r, o.w if f == 1 else word_inv(o.w))
            elif isinstance(o, M):
                ww = o.t[0][0]
                r = cat(r, ww if f == 1 else word_inv(ww))
            else:
                if o.kind == 'mat' and f == 1:
                    mm = mcols(o.args).t[0][0]
                    r = cat(r, mm)
                elif o.kind == 'diag' and all(x is ONE for x in o.args):
                    pass
                else:
                    l = (o, f)
                    if f == 'T' and is_orth(o):
                        l = (o, -1)
                    r = cat(r, (l,))
        return r

    def P(self, p):
        k = ('p', p)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = ZERO
        same = True
        for m, c in p.t:
            q = const(c)
            for b, e in m:
                nb = self.base(b)
                ne = self.P(e) if isinstance(e, P) else e
                if isinstance(nb, Base):
                    q = mul(q, _mkP({((nb, ne if not isinstance(ne, P) or cval(ne) is None else cval(ne)),): F1})) if nb.kind != 'poly' else mul(q, powp(nb.args[0], ne))
                else:
                    q = mul(q, powp(nb, ne))
            r = add(r, q)
        self.memo[k] = r
        return r

    def base(self, b):
        """scalar base -> Base or P"""
        k = ('b', b)
        r = self.memo.get(k)
        if r is None:
            r = self._base(b)
            self.memo[k] = r
        return r

    def _base(self, b):
        r = self.fb(b)
        if r is not None:
            return r
        k = b.kind
        if k in ('atom', 'num'):
            return b
        if k == 'fn':
            args = tuple(self.any(a) for a in b.args[1:])
            if args == b.args[1:]:
                return b
            if b.args[0] == 'abs':
                return absP(args[0])
            if all(isinstance(a, P) for a in args):
                return fn(b.args[0], *args)
            return base('fn', b.args[0], *args)
        if k == 'poly':
            return self.P(b.args[0])
        if k == 'ite':
            return ite(self.B(b.args[0]), self.P(b.args[1]), self.P(b.args[2]))
        if k == 'comp':
            return vcomp(self.vt(b.args[0]), b.args[1])
        if k == 'dot':
            return vdot(self.vt(b.args[0]), self.vt(b.args[1]))
        if k == 'qcomp':
            return qcomp(self.Qm(Q(ONE, b.args[0])), b.args[1])
        if k == 'opq':
            args = tuple(self.any(a) for a in b.args)
            if args == b.args:
                return b
            nb = base('opq', *args)
            nb.facts.update(b.facts)
            return nb
        return b

    def vt(self, wt):
        w, b = wt
        return apply_word(self.word(w), self.vbase(b))

    def vbase(self, b):
        k = ('vb', b)
        r = self.memo.get(k)
        if r is None:
            r = self._vbase(b)
            self.memo[k] = r
        return r

    def _vbase(self, b):
        r = self.fb(b)
        if r is not None:
            return r
        k = b.kind
        if k == 'unit':
            return vunit(self.V(b.args[0]))
        if k == 'cross':
            return vcross(self.vt(b.args[0]), self.vt(b.args[1]))
        if k == 'vite':
            return vite(self.B(b.args[0]), self.V(b.args[1]), self.V(b.args[2]))
        if k == 'vopq':
            args = tuple(self.any(a) for a in b.args)
            if args != b.args:
                nb = base('vopq', *args)
                nb.facts.update(b.facts)
                return vterm((), nb)
        return vterm((), b)

    def V(self, v):
        k = ('v', v)
        r = self.memo.get(k)
        if r is None:
            r = VZERO
            for (w, b), c in v.t:
                r = vadd(r, vscale(apply_word(self.word(w), self.vbase(b)), self.P(c)))
            self.memo[k] = r
        return r

    def B(self, n):
        if n is TRUE or n is FALSE:
            return n
        k = ('n', n)
        r = self.memo.get(k)
        if r is None:
            r = b_ite(self.batom(n.a), self.B(n.h), self.B(n.l))
            self.memo[k] = r
        return r

    def batom(self, a):
        k = ('a', a)
        r = self.memo.get(k)
        if r is None:
            r = self.fb(a)
            if r is None:
                if a.kind == 'lt':
                    r = cmp0(sub(self.P(a.args[0]), const(a.args[1])), '<')
                elif a.kind == 'le':
                    r = cmp0(sub(self.P(a.args[0]), const(a.args[1])), '<=')
                elif a.kind == 'eq':
                    r = cmp0(sub(self.P(a.args[0]), const(a.args[1])), '==')
                elif a.kind == 'pred':
                    args = tuple(self.any(x) for x in a.args)
                    r = batom(a) if args == a.args else bpred(*args, **a.facts)
                else:
                    r = batom(a)
            self.memo[k] = r
        return r


def qaa(th, ax):
    if th is ZERO:
        return QID
    n = vnorm(ax)
    unit = n is ONE
    op = base('rot', 'aa', th, ax)
    if unit:
        if th.t[0][1] < 0:
            return Q(ONE, ((base('rot', 'aa', neg(th), ax), -1),))
        return Q(ONE, ((op, 1),))
    return Q(pb(base('fn', 'aanorm', th, n)), ((op, 1),))


def subst_base(p, mp):
    return subst(p, lambda b: mp.get(b))


def cond_atoms(x, acc=None, seen=None):
    """condition atoms that occur in conditionals of a term (or in a boolean)"""
    if acc is None:
        acc, seen = {}, set()
    _walk(x, acc, seen)
    return acc


def _walk(x, acc, seen):
    if isinstance(x, (P, V, M, BN, Base)):
        if x in seen:
            return
        seen.add(x)
    if isinstance(x, P):
        for m, c in x.t:
            for b, e in m:
                _walk(b, acc, seen)
                if isinstance(e, P):
                    _walk(e, acc, seen)
    elif isinstance(x, V):
        for (w, b), c in x.t:
            for op, f in w:
                _walk(op, acc, seen)
            _walk(b, acc, seen)
            _walk(c, acc, seen)
    elif isinstance(x, M):
        for w, c in x.t:
            for op, f in w:
                _walk(op, acc, seen)
            _walk(c, acc, seen)
    elif isinstance(x, Q):
        _walk(x.s, acc, seen)
        for op, f in x.w:
            _walk(op, acc, seen)
    elif isinstance(x, BN):
        if x.a is not None:
            for a in b_atoms(x):
                acc.setdefault(a)
                if a not in seen:
                    seen.add(a)
                    for y in a.args:
                        _walk(y, acc, seen)
    elif isinstance(x, Base):
        for y in x.args:
            _walk(y, acc, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _walk(y, acc, seen)


def all_bases(x):
    seen = set()
    _walk(x, {}, seen)
    return {b for b in seen if isinstance(b, Base)}


def atom_depth(a):
    return len(cond_atoms(list(a.args)))


class Constr:
    """truth assignment of atoms with interval consistency"""

    def __init__(self):
        self.iv = {}
        self.asg = {}

    def copy(self):
        c = Constr()
        c.iv = dict(self.iv)
        c.asg = dict(self.asg)
        return c

    def add(self, a, v):
        """returns False when inconsistent"""
        self.asg[a] = v
        if a.kind in ('lt', 'le', 'eq'):
            q, r = a.args
            i = self.iv.get(q, None)
            CONSTR.append(self.iv)
            try:
                i = meet(i, bounds(q)) if i is not None else bounds(q)
            finally:
                CONSTR.pop()
            if a.kind == 'lt':
                n = (None, r, False, True) if v else (r, None, False, False)
            elif a.kind == 'le':
                n = (None, r, False, False) if v else (r, None, True, False)
            else:
                n = (r, r, False, False) if v else TOPI
            if a.kind == 'eq' and not v:
                if i[0] is not None and i[0] == i[1] == r:
                    return False
                # exclude an end point
                lo, hi, ls, hs = i
                if lo == r:
                    ls = True
                if hi == r:
                    hs = True
                i = (lo, hi, ls, hs)
                n = TOPI
            i = meet(i, n)
            if i[0] is not None and i[1] is not None and (i[0] > i[1] or (i[0] == i[1] and (i[2] or i[3]))):
                return False
            self.iv[q] = i
        return True


def restrict(x, con):
    """term under the assumptions of con"""
    asg = con.asg

    def fb(b):
        if b in asg:
            return TRUE if asg[b] else FALSE
        return None
    CONSTR.append(con.iv)
    try:
        return subst(x, fb)
    finally:
        CONSTR.pop()


class TooManyCases(Exception):
    pass


def cases(x, con=None, limit=14, prefer=None):
    """enumerate consistent case splits until no conditional is left; yields (term, constraints)"""
    con = con or Constr()
    n = [0]

    def rec(x, con, depth):
        ats = [a for a in cond_atoms(x) if a not in con.asg]
        if not ats:
            n[0] += 1
            if n[0] > 20000:
                raise TooManyCases()
            yield x, con
            return
        if depth > limit:
            raise TooManyCases()
        # innermost condition first
        ats.sort(key=lambda a: (atom_depth(a), a.id))
        a = ats[0]
        for v in (True, False):
            c2 = con.copy()
            if not c2.add(a, v):
                continue
            yield from rec(restrict(x, c2), c2, depth + 1)
    # normalise under the initial constraints
    yield from rec(restrict(x, con) if con.asg else x, con, 0)


def all_cases(x, pred, con=None, limit=14):
    """pred holds in every consistent case; False when undecided"""
    if not cond_atoms(x):
        return pred(x, con)
    try:
        for y, c in cases(x, con, limit):
            if not pred(y, c):
                return False
        return True
    except TooManyCases:
        return False


def equal(a, b, con=None, limit=14):
    """True / counterexample case (constraints, a', b') when they differ / None when undecided"""
    if _same(a, b) and con is None:
        return True
    try:
        for (x, y), c in cases((a, b), con, limit):
            if not _same(x, y):
                return (c, x, y)
        return True
    except TooManyCases:
        return None


def _same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Q):
        return isinstance(b, Q) and a == b
    return a is b or (a == b and not isinstance(a, (P, V, M, BN)))


def same_rotation(a, b):
    return isinstance(a, Q) and isinstance(b, Q) and a.w == b.w


# ---------------------------------------------------------------- printing
def show(p):
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        fs = []
        for b, e in m:
            s = show_base(b)
            if e != 1:
                s += '^(%s)' % (show(e) if isinstance(e, P) else e)
            fs.append(s)
        cs = str(c) if c.denominator < 10**6 else '%.6g' % float(c)
        if fs and c == 1:
            out.append('*'.join(fs))
        elif fs and c == -1:
            out.append('-' + '*'.join(fs))
        elif fs:
            out.append(cs + '*' + '*'.join(fs))
        else:
            out.append(cs)
    return ' + '.join(out)


def show_any(x):
    if isinstance(x, P):
        return show(x)
    if isinstance(x, V):
        return show_v(x)
    if isinstance(x, BN):
        return show_b(x)
    if isinstance(x, Base):
        return show_base(x)
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], Base):
        return show_wt(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(show_any(y) for y in x) + ')'
    return str(x)


def show_base(b):
    k = b.kind
    if k in ('atom', 'vec'):
        return str(b.args[0])
    if k == 'e':
        return 'e%d' % b.args[0]
    if k == 'fn':
        return '%s(%s)' % (b.args[0], ', '.join(show_any(a) for a in b.args[1:]))
    if k == 'comp':
        return '%s[%d]' % (show_wt(b.args[0]), b.args[1])
    if k == 'dot':
        return '<%s,%s>' % (show_wt(b.args[0]), show_wt(b.args[1]))
    if k == 'cross':
        return '(%s x %s)' % (show_wt(b.args[0]), show_wt(b.args[1]))
    if k == 'unit':
        return 'unit(%s)' % show_v(b.args[0])
    if k == 'poly':
        return '(%s)' % show(b.args[0])
    if k in ('ite', 'vite'):
        return '{%s ? %s : %s}' % tuple(show_any(a) for a in b.args)
    if k == 'lt':
        return '%s < %s' % (show(b.args[0]), b.args[1])
    if k == 'le':
        return '%s <= %s' % (show(b.args[0]), b.args[1])
    if k == 'eq':
        return '%s == %s' % (show(b.args[0]), b.args[1])
    return '%s(%s)' % (k, ', '.join(show_any(a) for a in b.args))


def show_w(w):
    return '.'.join(show_base(o) + ('' if f == 1 else '^' + str(f)) for o, f in w) or 'I'


def show_wt(wt):
    w, b = wt
    return (show_w(w) + '.' if w else '') + show_base(b)


def show_v(v):
    if not v.t:
        return '0v'
    return ' + '.join(('' if c is ONE else '(%s)*' % show(c)) + show_wt(wt) for wt, c in v.t)


def show_b(n):
    if n is TRUE:
        return 'true'
    if n is FALSE:
        return 'false'
    a = show_base(n.a)
    if n.h is TRUE and n.l is FALSE:
        return a
    if n.h is FALSE and n.l is TRUE:
        return '!(%s)' % a
    if n.h is TRUE:
        return '(%s || %s)' % (a, show_b(n.l))
    if n.l is FALSE:
        return '(%s && %s)' % (a, show_b(n.h))
    if n.h is FALSE:
        return '(!(%s) && %s)' % (a, show_b(n.l))
    if n.l is TRUE:
        return '(!(%s) || %s)' % (a, show_b(n.h))
    return '(%s ? %s : %s)' % (a, show_b(n.h), show_b(n.l))
