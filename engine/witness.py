"""Random interpretation of the value graph (Gulwani/Necula style).

A normal-form difference is only reported when some valuation of the symbols really separates the two values;
otherwise the obligation stays undecided.  Valuations are of abstract terms: no code of the project is run.
"""
import hashlib
import math
import random
from fractions import Fraction
F = Fraction
from . import terms as T
from .terms import P, V, M, Q, BN, Base, TRUE, FALSE

F = Fraction


class Bad(Exception):
    pass


def _h(*xs):
    s = repr(xs).encode()
    return random.Random(hashlib.sha1(s).digest())


def _rq(r):
    q = [r.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q)) or 1
    return [x / n for x in q]


_S = math.sqrt(0.5)
SPECIAL = [(1.0, 0, 0, 0)] * 3 + [(0, 1.0, 0, 0), (0, 0, 1.0, 0), (0, 0, 0, 1.0), (_S, 0, 0, _S), (_S, 0, 0, -_S), (_S, _S, 0, 0), (_S, 0, _S, 0), (-1.0, 0, 0, 0)]


def _rq_near(r):
    """close to a rotation that code may treat as a special case"""
    a = 10 ** r.uniform(-2.5, -0.5)
    ax = [r.gauss(0, 1) for _ in range(3)]
    n = math.sqrt(sum(x * x for x in ax)) or 1
    return qm(list(r.choice(SPECIAL)), [math.cos(a / 2)] + [math.sin(a / 2) * x / n for x in ax])


def qm(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


def qR(q):
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def mv(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def tr(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


def minv(a):
    d = (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
         + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    if abs(d) < 1e-14:
        raise Bad('singular')
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            c[j][i] = (a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]) / d
    return c


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


I3 = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]


class Val:
    """one valuation of the symbols"""

    def __init__(self, seed, ints=()):
        self.r = random.Random(seed)
        self.seed = seed
        self.set = {}
        self.ints = ints
        self.m = {}
        self.mode = self.r.randrange(4)
        self.turn = _rq if self.r.randrange(5) else _rq_near

    def fresh(self, b):
        r = _h(self.seed, b.kind, T.show_base(b))
        f = b.facts
        if b in self.ints:
            return float(r.choice([1, 1, 2]))
        lo, hi = f.get('lo'), f.get('hi')
        if lo is not None and hi is not None:
            return r.uniform(float(lo), float(hi))
        if self.mode == 0:
            x = r.uniform(-3, 3)
        elif self.mode == 1:
            x = r.choice([-1, 1]) * 10 ** r.uniform(-1.5, 1.5)
        else:
            x = r.gauss(0, 1.2)
        if f.get('pos') or f.get('nonneg'):
            x = abs(x) + (1e-3 if f.get('pos') else 0)
        if lo is not None:
            x = float(lo) + abs(x)
        if hi is not None:
            x = float(hi) - abs(x)
        return x

    # ------------------------------------------------------------ scalars
    def p(self, p):
        k = ('p', p.id)
        r = self.m.get(k)
        if r is None:
            r = 0.0
            for m, c in p.t:
                x = float(c)
                for b, e in m:
                    x *= self.pw(self.b(b), e)
                r += x
            if r != r or abs(r) > 1e150:
                raise Bad('range')
            self.m[k] = r
        return r

    def pw(self, x, e):
        if isinstance(e, P):
            e = self.p(e)
        else:
            if e == 1:
                return x
            if e.denominator == 1:
                e = int(e)
            else:
                e = float(e)
        try:
            if isinstance(e, float) and e == int(e):
                e = int(e)
            if x == 0 and e < 0:
                raise Bad('div0')
            if x < 0 and isinstance(e, float):
                if x > -1e-12:
                    return 0.0
                raise Bad('pow')
            return x ** e
        except OverflowError:
            raise Bad('overflow')

    def b(self, b):
        r = self.m.get(b)
        if r is None:
            r = self._b(b)
            self.m[b] = r
        return r

    def _b(self, b):
        if b in self.set:
            return self.set[b]
        k, a = b.kind, b.args
        if k == 'atom':
            if a[0] == 'pi':
                return math.pi
            return self.fresh(b)
        if k == 'num':
            return float(a[0])
        if k == 'poly':
            return self.p(a[0])
        if k == 'comp':
            return self.wt(a[0])[a[1]]
        if k == 'dot':
            u, v = self.wt(a[0]), self.wt(a[1])
            return sum(x * y for x, y in zip(u, v))
        if k == 'ite':
            return self.p(a[1]) if self.bn(a[0]) else self.p(a[2])
        if k == 'qcomp':
            return self.qw(a[0])['wxyz'.index(a[1])]
        if k == 'fn':
            n = a[0]
            xs = [self.p(x) if isinstance(x, P) else None for x in a[1:]]
            try:
                if n in ('sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log2', 'log10', 'asin', 'acos'):
                    if n in ('acos', 'asin') and 1 < abs(xs[0]) < 1 + 1e-9:
                        xs[0] = max(-1.0, min(1.0, xs[0]))
                    return getattr(math, n)(xs[0])
                if n == 'atan2':
                    return math.atan2(*xs)
                if n == 'abs':
                    return abs(xs[0])
                if n == 'sqrt':
                    return math.sqrt(xs[0])
                if n == 'fmod':
                    return math.fmod(*xs)
                if n == 'trunc':
                    return float(math.trunc(xs[0]))
                if n == 'imod':
                    return math.fmod(*xs)
            except (ValueError, OverflowError):
                raise Bad(n)
            if n in ('div0', 'pow0'):
                raise Bad(n)
        if k in ('lt', 'le', 'eq'):
            q, r = self.p(a[0]), float(a[1])
            tol = 1e-10 * (1 + abs(q) + abs(r))
            return q < r - tol if k == 'lt' else (q <= r + tol if k == 'le' else abs(q - r) <= tol)
        if k == 'pred':
            return self.opaque(b).random() < 0.5
        # opaque scalar / predicate
        x = self.opaque(b)
        if b.facts.get('pos') or b.facts.get('nonneg'):
            return abs(x.gauss(0, 1.5)) + 1e-3
        if b.facts.get('lo') is not None and b.facts.get('hi') is not None:
            return x.uniform(float(b.facts['lo']), float(b.facts['hi']))
        return x.gauss(0, 1.5)

    def opaque(self, b):
        return _h(self.seed, b.kind, [self.key(x) for x in b.args])

    def key(self, x):
        if isinstance(x, P):
            return '%.6e' % self.p(x)
        if isinstance(x, V):
            return ['%.6e' % y for y in self.v(x)]
        if isinstance(x, BN):
            return self.bn(x)
        if isinstance(x, Q):
            return ['%.6e' % y for y in self.q(x)]
        if isinstance(x, M):
            return [['%.6e' % y for y in r] for r in self.mat(x)]
        if isinstance(x, Base):
            return T.show_base(x) if x.kind in ('atom', 'vec', 'rot') else str(self.b(x))
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], Base):
            return ['%.6e' % y for y in self.wt(x)]
        if isinstance(x, (tuple, list)):
            return [self.key(y) for y in x]
        return str(x)

    def bn(self, n):
        while n.a is not None:
            n = n.h if self.b(n.a) else n.l
        return n is TRUE

    # ------------------------------------------------------------ rotations and maps
    def qbase(self, op):
        k = ('qb', op)
        r = self.m.get(k)
        if r is not None:
            return r
        a = op.args
        if a[0] == 'aa':
            h, ax = self.p(a[1]) / 2, self.v(a[2])
            s = math.sin(h)
            r = [math.cos(h), ax[0] * s, ax[1] * s, ax[2] * s]
        elif a[0] == 'q4':
            r = [self.p(x) for x in a[1:5]]
            n = math.sqrt(sum(x * x for x in r))
            if n < 1e-12:
                raise Bad('q4')
            r = [x / n for x in r]
        elif a[0] == 'ite':
            r = self.q(a[2]) if self.bn(a[1]) else self.q(a[3])
        elif a[0] == 'q':
            if op in self.set:
                r = self.set[op]
            else:
                r = self.turn(_h(self.seed, 'rot', str(a[1:])))
                if op.facts.get('wpos') and r[0] < 0:
                    r = [-x for x in r]
        else:
            r = _rq(_h(self.seed, 'rot', [self.key(x) for x in a]))
        self.m[k] = r
        return r

    def qw(self, w):
        r = [1.0, 0, 0, 0]
        for op, f in w:
            q = self.qbase(op)
            if f == -1:
                q = [q[0], -q[1], -q[2], -q[3]]
            r = qm(r, q)
        return r

    def q(self, q):
        s = self.p(q.s)
        return [s * x for x in self.qw(q.w)]

    def letter(self, l):
        k = ('l', l)
        r = self.m.get(k)
        if r is not None:
            return r
        op, f = l
        kd = op.kind
        if kd == 'rot':
            r = qR(self.qbase(op))
        elif kd == 'mat':
            cs = [self.v(c) for c in op.args]
            r = [[cs[j][i] for j in range(3)] for i in range(3)]
        elif kd == 'diag':
            r = [[self.p(op.args[i]) if i == j else 0.0 for j in range(3)] for i in range(3)]
        elif kd == 'nonunit':
            s = self.p(op.args[0]) ** 2
            R = qR(self.qw(op.args[1]))
            r = [[(1.0 if i == j else 0.0) + s * (R[i][j] - (1.0 if i == j else 0.0)) for j in range(3)] for i in range(3)]
        else:
            raise Bad('letter ' + kd)
        if f == -1:
            r = tr(r) if kd == 'rot' else minv(r)
        elif f == 'T':
            r = tr(r)
        elif f == 'Ti':
            r = minv(tr(r))
        self.m[k] = r
        return r

    def word(self, w):
        r = I3
        for l in w:
            r = mm(r, self.letter(l))
        return r

    def mat(self, m):
        r = [[0.0] * 3 for _ in range(3)]
        for w, c in m.t:
            c = self.p(c)
            x = self.word(w)
            for i in range(3):
                for j in range(3):
                    r[i][j] += c * x[i][j]
        return r

    def wt(self, wt):
        w, b = wt
        k = ('wt', w, b)
        r = self.m.get(k)
        if r is None:
            r = self.vb(b)
            for l in reversed(w):
                r = mv(self.letter(l), r)
            self.m[k] = r
        return r

    def vb(self, b):
        k, a = b.kind, b.args
        if k == 'e':
            return [1.0 if i == a[0] else 0.0 for i in range(3)]
        if k == 'vec':
            if b in self.set:
                return self.set[b]
            f = b.facts
            out = []
            for i in range(3):
                c = T.base('comp', ((), b), i)
                if c in self.set:
                    out.append(self.set[c])
                elif c in self.ints:
                    out.append(float(_h(self.seed, 'int', str(a), i).choice([1, 1, 2])))
                else:
                    r = _h(self.seed, 'vec', str(a), i)
                    x = r.gauss(0, 1.2) if self.mode else r.uniform(-3, 3)
                    if c.facts.get('pos') or f.get('pos'):
                        x = abs(x) + 0.05
                    elif c.facts.get('nonneg') or f.get('nonneg'):
                        x = abs(x)
                    out.append(x)
            if f.get('unit'):
                n = math.sqrt(sum(x * x for x in out))
                out = [x / n for x in out]
            return out
        if k == 'cross':
            return cross(self.wt(a[0]), self.wt(a[1]))
        if k == 'unit':
            v = self.v(a[0])
            n = math.sqrt(sum(x * x for x in v))
            if n < 1e-12:
                raise Bad('unit of zero')
            return [x / n for x in v]
        if k == 'vite':
            return self.v(a[1]) if self.bn(a[0]) else self.v(a[2])
        r = self.opaque(b)
        return [r.gauss(0, 1) for _ in range(3)]

    def v(self, v):
        k = ('v', v.id)
        r = self.m.get(k)
        if r is None:
            r = [0.0, 0.0, 0.0]
            for wt, c in v.t:
                c = self.p(c)
                x = self.wt(wt)
                for i in range(3):
                    r[i] += c * x[i]
            if any(x != x or abs(x) > 1e150 for x in r):
                raise Bad('range')
            self.m[k] = r
        return r

    # ------------------------------------------------------------ anything
    def any(self, x):
        if isinstance(x, P):
            return [self.p(x)]
        if isinstance(x, V):
            return self.v(x)
        if isinstance(x, BN):
            return [1.0 if self.bn(x) else 0.0]
        if isinstance(x, Q):
            return self.q(x)
        if isinstance(x, M):
            return [y for r in self.mat(x) for y in r]
        if isinstance(x, (list, tuple)):
            out = []
            for y in x:
                out += self.any(y)
            return out
        raise Bad('value %s' % type(x).__name__)


def int_leaves(x):
    """symbols that occur polynomially in an exponent of a possibly negative base"""
    out = set()
    for b in T.all_bases(x):
        for a in b.args:
            _ints(a, out)
    _ints(x, out)
    return out


def _ints(x, out):
    if isinstance(x, P):
        for m, c in x.t:
            for b, e in m:
                if isinstance(e, P):
                    for mm_, cc in e.t:
                        for bb, ee in mm_:
                            if isinstance(ee, F) and ee > 0:
                                out.add(bb)
    elif isinstance(x, V):
        for wt, c in x.t:
            _ints(c, out)
    elif isinstance(x, Q):
        _ints(x.s, out)
    elif isinstance(x, M):
        for w, c in x.t:
            _ints(c, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _ints(y, out)


def leaf_symbols(x):
    out = []
    for b in T.all_bases(x):
        if b.kind == 'atom' and b.args[0] != 'pi':
            out.append(b)
        elif b.kind == 'vec' and not b.facts.get('unit'):
            out += [T.base('comp', ((), b), i) for i in range(3)]
    out.sort(key=lambda b: b.id)
    return out


def _value_with(val, q, sym, x):
    v = Val(val.seed, val.ints)
    v.mode = val.mode
    v.set = dict(val.set)
    v.set[sym] = x
    return v, v.p(q)


def _ok_sym(sym, x):
    f = sym.facts
    if f.get('pos') and x <= 0 or f.get('nonneg') and x < 0:
        return False
    if sym.kind == 'comp':
        g = sym.args[0][1].facts
        if g.get('pos') and x <= 0 or g.get('nonneg') and x < 0:
            return False
    if f.get('lo') is not None and x < f['lo'] or f.get('hi') is not None and x > f['hi']:
        return False
    return True


def _solve(val, q, target, rnd):
    """change one symbol so that q takes the target value"""
    syms = [s for s in leaf_symbols(q) if s not in val.ints]
    rnd.shuffle(syms)
    for s in syms[:6]:
        try:
            x0 = val.b(s)
            f0 = val.p(q) - target
            if abs(f0) <= 1e-12 * (1 + abs(target)):
                return val
            x1 = x0 + (0.1 + abs(x0) * 0.1) * rnd.choice([-1, 1])
            v, f1 = _value_with(val, q, s, x1)
            f1 -= target
            for _ in range(40):
                if f1 == f0:
                    break
                x2 = x1 - f1 * (x1 - x0) / (f1 - f0)
                if not _ok_sym(s, x2) or abs(x2) > 1e6:
                    break
                x0, f0 = x1, f1
                x1 = x2
                v, f1 = _value_with(val, q, s, x1)
                f1 -= target
                if abs(f1) <= 1e-13 * (1 + abs(target)):
                    return v
            if abs(f1) <= 1e-11 * (1 + abs(target)) and _ok_sym(s, x1):
                return v
        except (Bad, ZeroDivisionError, OverflowError):
            continue
    return None


def _with(val, asg):
    v = Val(val.seed, val.ints)
    v.mode = val.mode
    v.set = {**val.set, **asg}
    return v


def _least(val, q, rnd, rounds=2):
    """a valuation near a minimum of q: the vertex of the parabola, coordinate by coordinate; the symbols changed"""
    v, changed = val, set()
    for r in range(rounds):
        syms = [s for s in leaf_symbols(q) if s not in val.ints]
        rnd.shuffle(syms)
        for s in syms[:12]:
            try:
                x = v.b(s)
                f = [_value_with(v, q, s, x + h)[1] for h in (-1.0, 0.0, 1.0)]
                curv = f[0] - 2 * f[1] + f[2]
                if curv <= 1e-12:
                    continue
                y = x - (f[2] - f[0]) / (2 * curv)
                if not _ok_sym(s, y):
                    continue
                u, g = _value_with(v, q, s, y)
                if g < f[1]:
                    v = u
                    changed.add(s)
            except (Bad, ZeroDivisionError, OverflowError):
                continue
    return v, changed


def _shrink(val, q, hi, rnd):
    """change several symbols so that q falls below hi (the length of a difference, a sum of squares), but not further than needed"""
    inner = [b.args[0] for b in sorted(T.all_bases(q), key=lambda b: b.id) if b.kind == 'poly' and isinstance(b.args[0], T.P)]
    for g in inner[:2] + [q]:
        try:
            low, changed = _least(val, g, rnd)
            if not changed or low.p(q) >= hi:
                continue
            ends = [(s, low.b(s), val.b(s)) for s in changed]

            def between(t):
                return _with(val, {s: a + t * (b - a) for s, a, b in ends})
            t0, t1 = 0.0, 1.0
            for _ in range(50):
                t = (t0 + t1) / 2
                if between(t).p(q) < hi:
                    t0 = t
                else:
                    t1 = t
            v = between(t0 * rnd.uniform(0.3, 0.98))
            if v.p(q) < hi and all(_ok_sym(s, v.b(s)) for s in changed):
                return v
        except (Bad, ZeroDivisionError, OverflowError):
            continue
    # all symbols towards zero together
    syms = [(s, val.b(s)) for s in leaf_symbols(q) if s not in val.ints]
    t = 1.0
    for _ in range(16):
        t *= rnd.uniform(0.1, 0.6)
        try:
            if not all(_ok_sym(s, t * x) for s, x in syms):
                break
            v = _with(val, {s: t * x for s, x in syms})
            if v.p(q) < hi:
                return v
        except (Bad, ZeroDivisionError, OverflowError):
            break
    return None


def valuations(x, con=None, n=40, seed=1):
    """valuations of the symbols of x that satisfy the assumptions con"""
    sub = [x]
    asg = []
    if con is not None:
        asg = sorted(con.asg.items(), key=lambda av: (T.atom_depth(av[0]), av[0].id))
        sub += [list(a.args) for a, v in asg]
    ints = int_leaves(sub)
    got = 0
    for k in range(n * 4):
        val = Val(seed * 1000 + k, ints)
        rnd = random.Random(k)
        good = False
        for attempt in range(4):
            try:
                bad = [(a, v) for a, v in asg if bool(val.b(a)) != v]
            except Bad:
                break
            if not bad:
                good = True
                break
            a, v = bad[0] if attempt == 0 else rnd.choice(bad)
            if a.kind not in ('lt', 'le', 'eq'):
                break
            q, r = a.args
            iv = con.iv.get(q, T.TOPI)
            lo, hi = iv[0], iv[1]
            if lo is not None and lo == hi:
                t = float(lo)
            elif lo is not None and hi is not None:
                t = float(lo) + (float(hi) - float(lo)) * rnd.uniform(0.05, 0.95)
            elif lo is not None:
                t = float(lo) + abs(rnd.gauss(0, 1)) * (1 + abs(float(lo))) + 1e-3
            elif hi is not None:
                t = float(hi) - abs(rnd.gauss(0, 1)) * (1 + abs(float(hi))) - 1e-3
            else:
                t = float(r) + rnd.gauss(0, 1)
            try:
                val2 = _solve(val, q, t, rnd)
            except Bad:
                val2 = None
            if val2 is None and hi is not None:
                val2 = _shrink(val, q, float(hi), rnd)
            if val2 is None and lo is not None:
                val2 = _shrink(val, T.neg(q), -float(lo), rnd)
            if val2 is None:
                break
            val = val2
        if good:
            got += 1
            yield val
            if got >= n:
                return


def scales(x, sym, con=None, n=40, seed=1):
    """valuations of x, each also with sym at another order of magnitude"""
    rnd = random.Random(seed)
    for v in valuations(x, con, n, seed):
        yield v
        if sym in v.ints:
            continue
        y = 10 ** rnd.uniform(-8, 5)
        if not _ok_sym(sym, y):
            continue
        w = _with(v, {sym: y})
        try:
            if con is None or all(bool(w.b(a)) == t for a, t in con.asg.items()):
                yield w
        except (Bad, ZeroDivisionError, OverflowError):
            continue


def differs(xs, ys, tol=1e-6):
    if len(xs) != len(ys):
        return True
    s = max([1e-3] + [abs(z) for z in xs] + [abs(z) for z in ys])
    return any(abs(a - b) > tol * s for a, b in zip(xs, ys))


class FVal(Val):
    """a valuation of doubles: operations 'fl+' ... round as the machine does, all others are exact"""

    def fresh(self, b):
        return F(round(Val.fresh(self, b), 3 if self.mode < 2 else 17))

    def p(self, p):
        r = self.m.get(('p', p.id))
        if r is None:
            r = F(0)
            for m, c in p.t:
                x = F(c)
                for b, e in m:
                    x *= F(self.pw(self.b(b), e))
                r += x
            self.m['p', p.id] = r
        return r

    def _b(self, b):
        if b.kind == 'fn' and b.args[0] in ('fl+', 'fl-', 'fl*', 'fl/'):
            x, y = (float(self.p(z)) for z in b.args[1:])
            try:
                r = {'fl+': lambda: x + y, 'fl-': lambda: x - y, 'fl*': lambda: x * y, 'fl/': lambda: x / y}[b.args[0]]()
                return F(r)
            except (ArithmeticError, ValueError):
                raise Bad('range')
        return Val._b(self, b)


def fseparate(a, b, n=400, seed=1):
    """doubles for which the rounded values of two scalars differ, or None"""
    for k in range(n):
        v = FVal(seed * 7919 + k)
        try:
            if v.p(a) != v.p(b):
                return v
        except (Bad, ZeroDivisionError, OverflowError):
            continue
    return None


def separate(a, b, con=None, n=25, seed=1):
    """a valuation that satisfies con and tells a and b apart, or None"""
    hits = 0
    for v in valuations([a, b], con, n, seed):
        try:
            x, y = v.any(a), v.any(b)
        except (Bad, ZeroDivisionError, OverflowError):
            # one of them has no value where the other has one
            ok = []
            for z in (a, b):
                try:
                    v.any(z)
                    ok.append(True)
                except (Bad, ZeroDivisionError, OverflowError):
                    ok.append(False)
            if ok[0] != ok[1]:
                hits += 1
                if hits >= 3:
                    return v
            continue
        if differs(x, y):
            return v
    return None


def refute(bn, con=None, n=40, seed=1):
    """a valuation that satisfies con and makes bn false, or None"""
    for v in valuations([bn], con, n, seed):
        try:
            if not v.bn(bn):
                return v
        except (Bad, ZeroDivisionError, OverflowError):
            continue
    return None


def describe(val, x, limit=10):
    out = []
    for b in sorted(T.all_bases(x), key=lambda b: b.id):
        if b.kind == 'atom' and b.args[0] != 'pi':
            try:
                out.append('%s=%.4g' % (b.args[0], val.b(b)))
            except Exception:
                pass
        elif b.kind == 'vec':
            out.append('%s=(%s)' % (b.args[0], ', '.join('%.4g' % y for y in val.vb(b))))
        if len(out) >= limit:
            break
    return ', '.join(out)
