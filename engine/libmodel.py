"""Semantics of the library functions the project calls (Eigen, standard library, plotting) on abstract values."""
import re
from . import terms as T
from .terms import P, V, M, Q, BN, TRUE, FALSE, F, ZERO, ONE
from .values import *


class PyFn:
    def __init__(self, f):
        self.f = f


NUMT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'double', 'float', 'bool', 'char', 'unsigned char'}
EIG = re.compile(r'^Eigen::(Matrix|Array)<(\w+), (-?\d+), (-?\d+)')


def strip(t):
    from .interp import strip as s
    return s(t)


def shape(t):
    m = EIG.match(t)
    return (int(m.group(3)), int(m.group(4))) if m else None


# ------------------------------------------------------------------ defaults
def eigen_default(t, why):
    s = shape(t)
    if s:
        r, c = s
        if r == 3 and c == 3:
            return T.mcols(tuple(undef_v('%s.col%d' % (why, j)) for j in range(3)))
        if r == 1 and c == 3:
            return RowV(undef_v(why))
        if r < 0 and c < 0:
            return C3(())
        return undef_arr(max(r, 0), max(c, 0) if c != 1 else 1, why)
    if t.startswith('Eigen::Quaternion<'):
        return T.q4(*[undef_p('%s.%s' % (why, n)) for n in 'wxyz'])
    if t.startswith('Eigen::DiagonalMatrix<'):
        return T.mdiag(*[undef_p('%s.%d' % (why, i)) for i in range(3)])
    if t.startswith('Eigen::AngleAxis<'):
        return AA(undef_p(why + '.angle'), undef_v(why + '.axis'))
    return Opq('default of ' + t)


def eigen_unknown(t, b):
    s = shape(t)
    if s:
        r, c = s
        if (r, c) == (3, 1):
            return T.vec3(*[T.pb(unk_base(b.args)) for _ in range(3)])
        if (r, c) == (3, 3):
            return T.mcols(tuple(T.vec3(*[T.pb(unk_base(b.args)) for _ in range(3)]) for _ in range(3)))
        if r > 0 and c > 0:
            return Arr(r, c, [T.pb(unk_base(b.args)) for _ in range(r * c)])
        return None
    if t.startswith('Eigen::Quaternion<'):
        return T.q4(*[T.pb(unk_base(b.args)) for _ in range(4)])
    return None


def tmpl_args(t):
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rindex('>')]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


SEQS = ('std::vector<', 'std::deque<', 'std::list<', 'std::initializer_list<')


def std_default(interp, t, why):
    if t.startswith(SEQS):
        return Seq()
    if t.startswith(('std::map<', 'std::unordered_map<', 'std::multimap<')):
        return Map()
    if t.startswith(('std::set<', 'std::unordered_set<')):
        return Map((), True)
    if t.startswith(('std::basic_string<', 'std::string')):
        return Str()
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
        return Ptr(None, 'shared')
    if t.startswith(('std::pair<', 'std::tuple<')):
        return Tup([interp.default(x, why) for x in tmpl_args(t)])
    if t.startswith('std::array<'):
        a = tmpl_args(t)
        n = int(re.sub(r'\D', '', a[1]))
        return Tup([interp.default(a[0], '%s[%d]' % (why, i), init=False) for i in range(n)])
    if 'ostream' in t or 'stringstream' in t:
        return Stream()
    if t.startswith(('std::allocator<', 'std::less<', 'std::greater<', 'std::plus<', 'std::minus<')):
        return FnRef({'q': t.split('<')[0], 'n': t.split('<')[0]})
    if t.startswith('std::function<'):
        return Opq('empty function')
    if t.startswith('std::'):
        return Opq('default of ' + t)
    return None


def std_exc_is(prog, t, h):
    chain = {'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
             'std::domain_error': ['std::logic_error'], 'std::range_error': ['std::runtime_error'], 'std::overflow_error': ['std::runtime_error']}
    bs = [t] + prog.bases(t)
    for b in list(bs):
        bs += chain.get(b, [])
    if h == 'std::exception':
        return any(b.startswith('std::') for b in bs)
    return h in bs


def std_global(q):
    if q in ('std::cout', 'std::cerr', 'std::clog'):
        return Stream()
    if q == 'std::npos' or q.endswith('::npos'):
        return T.const(2 ** 64 - 1)
    if q.endswith(('::ignore', '::nullopt')):
        return Opq(q)
    return None


# ------------------------------------------------------------------ iterators
def idx(interp, i):
    return T.const(i) if isinstance(i, int) else i


def mkit(lv, i):
    c = T.cval(i) if isinstance(i, P) else None
    return It(lv, int(c) if c is not None else i)


def iter_arith(interp, op, a, b):
    if isinstance(a, It) and isinstance(b, It):
        if op != '-':
            raise Undecided('iterator arithmetic at %s' % interp.loc)
        if a.lv != b.lv:
            interp.event('dangling', 'iterators of different containers')
            raise Undecided('iterators of different containers at %s' % interp.loc)
        return T.sub(idx(interp, a.i), idx(interp, b.i))
    if isinstance(b, It) and isinstance(a, P) and op == '+':
        a, b = b, a
    if isinstance(a, It) and isinstance(b, P):
        return mkit(a.lv, T.add(idx(interp, a.i), b) if op == '+' else T.sub(idx(interp, a.i), b))
    if isinstance(a, Ptr) and isinstance(a.lv, LV) and isinstance(b, P):
        if a.lv.path and a.lv.path[-1][0] == 'e':
            i = idx(interp, a.lv.path[-1][1])
            return Ptr(LV(a.lv.root, a.lv.path[:-1]) + ('e', T.add(i, b) if op == '+' else T.sub(i, b)))
        return Ptr(a.lv + ('e', b if op == '+' else T.neg(b)))
    raise Undecided('iterator arithmetic at %s' % interp.loc)


def csize(interp, lv):
    v = interp.read(lv)
    return count(interp, v)


def count(interp, v):
    """number of elements, a conditional value for containers of unknown size"""
    if isinstance(v, G):
        return T.ite(v.c, count(interp, v.a), count(interp, v.b))
    if isinstance(v, Str):
        s = v.lit()
        return T.const(len(s)) if s is not None else T.pb(unk_base('size of a string'))
    return T.const(interp.size_of(v))


# ------------------------------------------------------------------ shapes
def norm_type(interp, v, t):
    """representation of v as a value of the Eigen type t"""
    if isinstance(v, Comma):
        v = interp.read(v.lv)
    if isinstance(v, G):
        return merge(v.c, norm_type(interp, v.a, t), norm_type(interp, v.b, t))
    s = shape(t)
    if s is None:
        if t.startswith('Eigen::Quaternion<'):
            return toq(interp, v)
        if t.startswith('Eigen::DiagonalMatrix<') and isinstance(v, V):
            return T.mdiag(*interp.comps(v))
        if t.startswith('Eigen::AngleAxis<') and isinstance(v, Q):
            return aa_of_q(v)
        return v
    r, c = s
    if isinstance(v, AA):
        v = toq(interp, v)
    if isinstance(v, Q):
        return q_matrix(v)
    if (r, c) == (3, 3):
        if isinstance(v, C3) and len(v.cols) == 3:
            return T.mcols(tuple(v.cols))
        if isinstance(v, Arr) and (v.r, v.c) == (3, 3):
            return T.mcols(tuple(T.vec3(*v.items[3 * j:3 * j + 3]) for j in range(3)))
        return v
    if r < 0 and c < 0:
        if isinstance(v, M):
            return C3([T.mcol(v, j) for j in range(3)])
        if isinstance(v, V):
            return C3([v])
        if isinstance(v, Arr) and v.r == 3:
            return C3([T.vec3(*v.items[3 * j:3 * j + 3]) for j in range(v.c)])
        return v
    if c == 1:
        if isinstance(v, RowV):
            v = v.v
        if isinstance(v, C3) and len(v.cols) == 1:
            v = v.cols[0]
        if isinstance(v, Arr) and v.r == 1 and v.c > 1:
            v = interp.mkvec(list(v.items))
        if r == 3 and isinstance(v, Arr) and len(v.items) == 3:
            return T.vec3(*v.items)
        if r == -1 and isinstance(v, V):
            return v
        return v
    if r == 1:
        if isinstance(v, V):
            return RowV(v)
        if isinstance(v, Arr) and v.c == 1:
            return Arr(1, v.r, v.items)
    return v


def toq(interp, v):
    if isinstance(v, Q):
        return v
    if isinstance(v, AA):
        return T.qaa(v.ang, v.axis)
    if isinstance(v, M):
        if len(v.t) == 1 and v.t[0][1] is ONE:
            w = v.t[0][0]
            if all(o.kind == 'rot' for o, f in w):
                return Q(ONE, w)
        return Q(ONE, ((T.base('rot', 'ofmat', v), 1),))
    if isinstance(v, V) or isinstance(v, Arr) and len(v.items) == 4:
        xs = interp.comps(v)
        if len(xs) == 4:
            return T.q4(xs[3], xs[0], xs[1], xs[2])
    raise Undecided('quaternion of %s at %s' % (type(v).__name__, interp.loc))


def q_matrix(q):
    if T.is_unit_q(q) or T.all_cases([q.s], lambda xs, _: T.mul(xs[0], xs[0]) is ONE, limit=6):
        return T.mword(q.w)
    return T.mword(((T.base('nonunit', q.s, q.w), 1),))


def aa_of_q(q):
    """Eigen: n = |vec|; angle = 2 atan2(n, |w|), n := w < 0 ? -n : n; axis = vec / n, or x when n is 0"""
    w = T.qcomp(q, 'w')
    vec = T.vec3(*[T.qcomp(q, n) for n in 'xyz'])
    if vec is T.VZERO:
        return AA(ZERO, T.ev(0))
    n = T.vnorm(vec)
    ang = T.scale(T.fn('atan2', n, T.absP(w)), F(2))
    u = T.vunit(vec)
    ax = T.vite(T.cmp0(w, '<'), T.vneg(u), u)
    z = T.cmp0(n, '==')
    return AA(T.ite(z, ZERO, ang), T.vite(z, T.ev(0), ax))


# ------------------------------------------------------------------ arithmetic of Eigen values
def mkarr(r, c, xs):
    if (r, c) == (3, 1) and all(isinstance(x, P) for x in xs):
        return T.vec3(*xs)
    return Arr(r, c, xs)


def emap(interp, v, f):
    """elementwise function"""
    if isinstance(v, V):
        return T.vec3(*[f(T.vcomp(v, i)) for i in range(3)])
    if isinstance(v, Arr):
        return mkarr(v.r, v.c, [f(x) for x in v.items])
    if isinstance(v, RowV):
        return RowV(emap(interp, v.v, f))
    if isinstance(v, C3):
        return C3([emap(interp, c, f) for c in v.cols])
    if isinstance(v, M):
        return T.mcols(tuple(emap(interp, T.mcol(v, j), f) for j in range(3)))
    if isinstance(v, G):
        return merge(v.c, emap(interp, v.a, f), emap(interp, v.b, f))
    if isinstance(v, P):
        return f(v)
    raise Undecided('elementwise function of %s at %s' % (type(v).__name__, interp.loc))


def emap2(interp, a, b, f):
    if isinstance(a, G):
        return merge(a.c, emap2(interp, a.a, b, f), emap2(interp, a.b, b, f))
    if isinstance(b, G):
        return merge(b.c, emap2(interp, a, b.a, f), emap2(interp, a, b.b, f))
    if isinstance(a, P):
        return emap(interp, b, lambda x: f(a, x))
    if isinstance(b, P):
        return emap(interp, a, lambda x: f(x, b))
    if isinstance(a, BN) or isinstance(b, BN):
        return emap2(interp, interp.num(a), interp.num(b), f)
    if isinstance(a, RowV) and isinstance(b, RowV):
        return RowV(emap2(interp, a.v, b.v, f))
    if isinstance(a, C3) and isinstance(b, C3) and len(a.cols) == len(b.cols):
        return C3([emap2(interp, x, y, f) for x, y in zip(a.cols, b.cols)])
    if isinstance(a, M) and isinstance(b, M):
        return T.mcols(tuple(emap2(interp, T.mcol(a, j), T.mcol(b, j), f) for j in range(3)))
    if isinstance(a, (V, Arr, C3)) and isinstance(b, (V, Arr, C3)):
        xs, ys = interp.comps(a), interp.comps(b)
        if len(xs) != len(ys):
            interp.event('shape', 'operands of different sizes')
            raise Undecided('operands of different sizes at %s' % interp.loc)
        rs = [f(x, y) for x, y in zip(xs, ys)]
        if isinstance(a, Arr):
            return mkarr(a.r, a.c, rs)
        return interp.mkvec(rs)
    raise Undecided('elementwise %s and %s at %s' % (type(a).__name__, type(b).__name__, interp.loc))


EIGV = (V, M, Q, C3, Arr, RowV, AA)


def binop(interp, op, a, b):
    """arithmetic where at least one operand is an Eigen value"""
    a = interp.num(a) if isinstance(a, BN) else a
    b = interp.num(b) if isinstance(b, BN) else b
    if isinstance(a, G):
        return merge(a.c, binop(interp, op, a.a, b), binop(interp, op, a.b, b))
    if isinstance(b, G):
        return merge(b.c, binop(interp, op, a, b.a), binop(interp, op, a, b.b))
    if op in ('+', '-'):
        if isinstance(a, V) and isinstance(b, V):
            return T.vadd(a, b) if op == '+' else T.vsub(a, b)
        if isinstance(a, M) and isinstance(b, M):
            return T.madd(a, b if op == '+' else T.mscale(b, T.const(-1)))
        return emap2(interp, a, b, T.add if op == '+' else T.sub)
    if op == '/':
        if isinstance(b, P):
            if b is ZERO:
                interp.event('div0', 'division by a constant zero')
            if isinstance(a, V):
                return T.vscale(a, T.inv(b))
            if isinstance(a, M):
                return T.mscale(a, T.inv(b))
            if isinstance(a, RowV):
                return RowV(T.vscale(a.v, T.inv(b)))
            return emap(interp, a, lambda x: T.div(x, b))
        return emap2(interp, a, b, T.div)
    if op == '*':
        if isinstance(a, P) and not isinstance(b, P):
            if isinstance(b, Q) or isinstance(b, AA):
                raise Undecided('scalar times rotation')
            a, b = b, a
        if isinstance(b, P):
            if isinstance(a, V):
                return T.vscale(a, b)
            if isinstance(a, M):
                return T.mscale(a, b)
            if isinstance(a, RowV):
                return RowV(T.vscale(a.v, b))
            if isinstance(a, C3):
                return C3([T.vscale(c, b) for c in a.cols])
            return emap(interp, a, lambda x: T.mul(x, b))
        if isinstance(a, AA):
            a = toq(interp, a)
        if isinstance(b, AA):
            b = toq(interp, b)
        if isinstance(a, Q):
            if isinstance(b, Q):
                return T.qmul(a, b)
            if isinstance(b, V):
                return T.qrot(a, b)
            if isinstance(b, M):
                return T.mmul(q_matrix(a), b)
            if isinstance(b, C3):
                return C3([T.qrot(a, c) for c in b.cols])
        if isinstance(a, M):
            if isinstance(b, V):
                return T.mvec(a, b)
            if isinstance(b, M):
                return T.mmul(a, b)
            if isinstance(b, Q):
                return T.mmul(a, q_matrix(b))
            if isinstance(b, C3):
                return C3([T.mvec(a, c) for c in b.cols])
        if isinstance(a, RowV):
            if isinstance(b, V):
                return T.vdot(a.v, b)
            if isinstance(b, M):
                return RowV(T.mvec(T.mT(b), a.v))
        if isinstance(a, V) and isinstance(b, RowV):
            return T.mcols(tuple(T.vscale(a, T.vcomp(b.v, j)) for j in range(3)))
        if isinstance(a, V) and isinstance(b, V):
            return emap2(interp, a, b, T.mul)
        if isinstance(a, C3) and isinstance(b, (Arr, V)) and dims_of(b)[0] == len(a.cols):
            bs, bc = interp.comps_all(b), dims_of(b)[1]
            cols = []
            for j in range(bc):
                s = T.VZERO
                for i, col in enumerate(a.cols):
                    s = T.vadd(s, T.vscale(col, bs[j * len(a.cols) + i]))
                cols.append(s)
            return cols[0] if bc == 1 else C3(cols)
        if isinstance(a, C3) and isinstance(b, M) and len(a.cols) == 3:
            return C3([T.mvec(T.mcols(tuple(a.cols)), T.mcol(b, j)) for j in range(3)])
        if isinstance(a, C3) and isinstance(b, C3) and len(a.cols) == 3:
            return C3([T.mvec(T.mcols(tuple(a.cols)), x) for x in b.cols])
        if isinstance(a, Arr) and isinstance(b, (Arr, V)) or isinstance(a, V) and isinstance(b, Arr):
            ys = interp.comps(b)
            if isinstance(a, Arr) and isinstance(b, Arr) and a.c == b.r and not (a.c == 1 and b.c == 1) and (a.r, a.c) != (b.r, b.c):
                rs = []
                for j in range(b.c):
                    for i in range(a.r):
                        rs.append(T.add(*[T.mul(a.items[k * a.r + i], b.items[j * b.r + k]) for k in range(a.c)]))
                return Arr(a.r, b.c, rs) if len(rs) > 1 else rs[0]
            if isinstance(a, Arr) and a.r == 1 and a.c == len(ys) and a.c > 1:
                return T.add(*[T.mul(x, y) for x, y in zip(a.items, ys)])
            return emap2(interp, a, b, T.mul)
    raise Undecided('%s of %s and %s at %s' % (op, type(a).__name__, type(b).__name__, interp.loc))


def sum_of(interp, v):
    return T.add(*interp.comps_all(v)) if interp.comps_all(v) else ZERO


def cast_of(interp, v, t):
    """elementwise conversion: truth values to numbers, numbers to integers"""
    def one(x):
        if isinstance(x, BN):
            return T.ite(x, ONE, ZERO)
        if isinstance(x, P) and re.search(r'scalar_cast_op<(double|float), *(int|long|unsigned|short)', t):
            return interp.trunc_int(x)
        if isinstance(x, P) and re.search(r'scalar_cast_op<[a-z ]+, *bool>', t):
            return T.cmp0(x, '!=')
        return x
    if isinstance(v, G):
        return merge(v.c, cast_of(interp, v.a, t), cast_of(interp, v.b, t))
    if isinstance(v, Arr):
        xs = [one(x) for x in v.items]
        return (interp.mkvec(xs) if v.c == 1 else mkarr(v.r, v.c, xs)) if all(isinstance(x, P) for x in xs) else Arr(v.r, v.c, xs)
    if isinstance(v, V) and 'scalar_cast_op' in t and not re.search(r'scalar_cast_op<\w+, *(double|float)>', t):
        xs = [one(x) for x in interp.comps(v)]
        return interp.mkvec(xs) if all(isinstance(x, P) for x in xs) else Arr(3, 1, xs)
    return v


def fold(interp, v, f):
    xs = interp.comps_all(v)
    if not xs:
        return T.pb(unk_base('reduction of an empty array'))
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def pmin(a, b):
    return T.ite(T.cmp0(T.sub(b, a), '<'), b, a)


def pmax(a, b):
    return T.ite(T.cmp0(T.sub(a, b), '<'), b, a)


def norm2(interp, v):
    if isinstance(v, G):
        return T.ite(v.c, norm2(interp, v.a), norm2(interp, v.b))
    if isinstance(v, V):
        return T.vnorm2(v)
    if isinstance(v, RowV):
        return T.vnorm2(v.v)
    if isinstance(v, Q):
        return T.mul(v.s, v.s)
    return T.add(ZERO, *[T.mul(x, x) for x in interp.comps_all(v)])


def norm(interp, v):
    if isinstance(v, G):
        return T.ite(v.c, norm(interp, v.a), norm(interp, v.b))
    if isinstance(v, V):
        return T.vnorm(v)
    if isinstance(v, RowV):
        return T.vnorm(v.v)
    if isinstance(v, Q):
        return T.absP(v.s)
    return T.sqrtP(norm2(interp, v))


def normalized(interp, v):
    """v / |v|, v itself when its norm is 0"""
    if isinstance(v, G):
        return merge(v.c, normalized(interp, v.a), normalized(interp, v.b))
    if isinstance(v, Q):
        return T.qnormalized(v)
    if isinstance(v, RowV):
        return RowV(normalized(interp, v.v))
    n = norm(interp, v)
    z = T.cmp0(n, '==')
    if z is TRUE:
        return v
    u = T.vunit(v) if isinstance(v, V) else emap(interp, v, lambda x: T.div(x, n))
    if z is FALSE:
        return u
    interp.norms.append((v, interp.s.pc, interp.loc))
    # unit(0) = 0 : the value for a vanishing vector is part of the meaning of the unit term
    if isinstance(v, V):
        return u
    return emap2(interp, v, u, lambda x, y: T.ite(z, x, y))


# ------------------------------------------------------------------ comma initialiser
def comma(interp, c, item):
    items = c.items + (item,)
    v = interp.read(c.lv)
    if isinstance(v, V):
        R, C = 3, 1
    elif isinstance(v, M):
        R, C = 3, 3
    elif isinstance(v, Arr):
        R, C = v.r, v.c
    elif isinstance(v, C3):
        R, C = 3, len(v.cols)
    elif isinstance(v, RowV):
        R, C = 1, 3
    else:
        raise Undecided('comma initialisation of %s at %s' % (type(v).__name__, interp.loc))
    grid = {}
    row = col = 0
    brows = None
    for it in items:
        if isinstance(it, (P, BN)):
            br, bc = 1, 1
            get = lambda i, j, it=it: interp.num(it)
        elif isinstance(it, V):
            br, bc = 3, 1
            get = lambda i, j, it=it: T.vcomp(it, i)
        elif isinstance(it, RowV):
            br, bc = 1, 3
            get = lambda i, j, it=it: T.vcomp(it.v, j)
        elif isinstance(it, M):
            br, bc = 3, 3
            get = lambda i, j, it=it: T.vcomp(T.mcol(it, j), i)
        elif isinstance(it, C3):
            br, bc = 3, len(it.cols)
            get = lambda i, j, it=it: T.vcomp(it.cols[j], i)
        elif isinstance(it, Arr):
            br, bc = it.r, it.c
            get = lambda i, j, it=it: it.items[j * it.r + i]
        else:
            raise Undecided('comma initialisation with %s at %s' % (type(it).__name__, interp.loc))
        if brows is None:
            brows = br
        if col == C and C:
            row += brows
            col = 0
            brows = br
        for i in range(br):
            for j in range(bc):
                if row + i >= R or col + j >= C:
                    interp.event('shape', 'too many coefficients in a comma initialiser')
                    raise Undecided('comma initialiser overflow at %s' % interp.loc)
                grid[(row + i, col + j)] = get(i, j)
        col += bc
    if len(grid) == R * C:
        if isinstance(v, V):
            if len(items) == 1 and isinstance(items[0], V):
                new = items[0]
            else:
                new = T.vec3(*[grid[(i, 0)] for i in range(3)])
        elif isinstance(v, M):
            if len(items) == 3 and all(isinstance(x, V) for x in items):
                new = T.mcols(tuple(items))
            elif len(items) == 3 and all(isinstance(x, RowV) for x in items):
                new = T.mT(T.mcols(tuple(x.v for x in items)))
            else:
                new = T.mcols(tuple(T.vec3(*[grid[(i, j)] for i in range(3)]) for j in range(3)))
        elif isinstance(v, Arr):
            new = Arr(R, C, [grid[(i, j)] for j in range(C) for i in range(R)])
        elif isinstance(v, C3):
            new = C3([T.vec3(*[grid[(i, j)] for i in range(3)]) for j in range(C)])
        else:
            new = RowV(T.vec3(*[grid[(0, j)] for j in range(3)]))
        interp.write(c.lv, new)
    return Comma(c.lv, items, c.ref)


# ------------------------------------------------------------------ calls
def val(interp, x):
    x = interp.rv(x)
    if isinstance(x, Comma):
        x = interp.read(x.lv)
    return x


def ext_call(interp, e, fn):
    n = fn['n']
    q = fn['q']
    interp.loc = e['l']
    h = interp.hooks.get(q)
    k = e['k']
    if k == 'mcall':
        o = e['o']
        if e.get('arrow') and not is_smart(o):
            obj = interp.deref(interp.ev(o))
        else:
            obj = interp.lvx(o)
        args = [interp.argval(a) for a in e['a'] if not a.get('dflt') or n in ('tail', 'head', 'segment')]
        if h is not None and not isinstance(h, dict):
            r = h(interp, obj, args, fn)
            if r is not NotImplemented:
                return r
        return method(interp, e, fn, n, obj, args)
    if k == 'opcall':
        op = e['op']
        a0 = e['a'][0]
        args = [interp.argval(a) for a in e['a']]
        return operator(interp, e, fn, op, args)
    args = [interp.argval(a) for a in e['a'] if not a.get('dflt')]
    if h is not None and not isinstance(h, dict):
        r = h(interp, None, args, fn)
        if r is not NotImplemented:
            return r
    return function(interp, e, fn, q, n, args)


def is_smart(o):
    return False


def unknown(interp, e, fn, args, obj=None):
    interp.unknowns.append('%s at %s' % (fn['q'], interp.loc))
    for a, t in zip(args, fn['pt']):
        if isinstance(a, (LV, LVG)) and t.rstrip().endswith('&') and not t.startswith('const ') and '&&' not in t:
            try:
                interp.write(a, interp.unknown_value(strip(t), fn['q']))
            except Undecided:
                pass
    if obj is not None and not fn.get('const'):
        try:
            interp.write(obj, Opq('after ' + fn['q']))
        except Undecided:
            pass
    t = e.get('t', '')
    v = interp.unknown_value(t, '%s at %s' % (fn['q'], interp.loc))
    return v


# ---- scalar functions
def s_abs(interp, x):
    return T.absP(x)


def s_pow(interp, x, y):
    c = T.cval(y)
    return T.powp(x, c if c is not None else y)


def s_round(name):
    def f(interp, x):
        import math
        g = {'floor': math.floor, 'ceil': math.ceil, 'round': lambda v: math.floor(v + F(1, 2)) if v >= 0 else -math.floor(-v + F(1, 2)), 'trunc': int}[name]
        r = map_leaves(x, lambda v: int(g(v)))
        if r is not None:
            return r
        return T.pb(T.base('fn', name, x))
    return f


def s_exp(interp, x):
    if isinstance(x, P) and len(x.t) == 1:
        # exp(k log u) = u^k where u is known to be positive
        for b, e in x.t[0][0]:
            if b.kind == 'fn' and b.args[0] == 'log' and e == 1 and interp.simp(T.cmp0(T.neg(b.args[1]), '<')) is TRUE:
                return T.powp(b.args[1], T.div(x, T.pb(b)))
    return T.fn('exp', x)


def s_fn(name):
    return lambda interp, *a: T.fn(name, *a)


def s_pred(name):
    return lambda interp, x: T.bpred(name, x)


def s_rand(interp):
    interp.nrand = getattr(interp, 'nrand', 0) + 1
    b = T.base('atom', ('rand', interp.nrand))
    b.facts.update(lo=F(0), hi=F(2147483647), int=True, nonneg=True)
    return T.pb(b)


SCALAR = {
    'abs': s_abs, 'fabs': s_abs, 'labs': s_abs, 'pow': s_pow, 'sqrt': lambda i, x: T.sqrtP(x), 'cbrt': lambda i, x: T.powp(x, F(1, 3)),
    'exp': s_exp, 'log': s_fn('log'), 'sin': s_fn('sin'), 'cos': s_fn('cos'), 'tan': s_fn('tan'), 'asin': s_fn('asin'), 'acos': s_fn('acos'),
    'atan': s_fn('atan'), 'atan2': s_fn('atan2'), 'tanh': s_fn('tanh'), 'cosh': s_fn('cosh'), 'sinh': s_fn('sinh'),
    'exp2': lambda i, x: T.powp(T.const(2), x), 'log10': s_fn('log10'), 'log2': s_fn('log2'),
    'floor': s_round('floor'), 'ceil': s_round('ceil'), 'round': s_round('round'), 'lround': s_round('round'), 'trunc': s_round('trunc'),
    'fmin': lambda i, x, y: pmin(x, y), 'fmax': lambda i, x, y: pmax(x, y), 'isnan': s_pred('isnan'), 'isfinite': s_pred('isfinite'), 'isinf': s_pred('isinf'),
    'hypot': lambda i, x, y: T.sqrtP(T.add(T.mul(x, x), T.mul(y, y))), 'rand': s_rand, 'fmod': lambda i, x, y: T.pb(T.base('fn', 'fmod', x, y)),
    'signbit': lambda i, x: T.cmp0(x, '<'), 'copysign': lambda i, x, y: T.ite(T.cmp0(y, '<'), T.neg(T.absP(x)), T.absP(x)),
}


def scalar_call(interp, name, vals):
    for i, x in enumerate(vals):
        if isinstance(x, G):
            return merge(x.c, scalar_call(interp, name, vals[:i] + [x.a] + vals[i + 1:]), scalar_call(interp, name, vals[:i] + [x.b] + vals[i + 1:]))
    vals = [interp.num(x) for x in vals]
    if all(isinstance(x, P) for x in vals):
        f = SCALAR[name]
        # a choice between constants stays a choice
        return f(interp, *vals)
    return None


def seq_range(interp, a, b):
    """(lv, i, j) of an iterator pair"""
    if isinstance(a, (LV, LVG)):
        a = interp.rv(a)
    if isinstance(b, (LV, LVG)):
        b = interp.rv(b)
    if isinstance(a, It) and isinstance(b, It):
        if a.lv != b.lv:
            interp.event('dangling', 'iterators of different containers')
            raise Undecided('iterators of different containers at %s' % interp.loc)
        i, j = interp.index(a.i), interp.index(b.i)
        if isinstance(i, int) and isinstance(j, int):
            return a.lv, i, j
        raise Undecided('symbolic iterator range at %s' % interp.loc)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.lv, LV) and isinstance(b.lv, LV) and a.lv.path[-1:] and b.lv.path[-1:] and a.lv.path[-1][0] == 'e':
        la, lb = LV(a.lv.root, a.lv.path[:-1]), LV(b.lv.root, b.lv.path[:-1])
        if la == lb:
            return la, interp.index(a.lv.path[-1][1]), interp.index(b.lv.path[-1][1])
    raise Undecided('iterator range at %s' % interp.loc)


def pure_apply(interp, f, vals):
    return interp.apply(f, vals)


def bool_apply(interp, f, vals):
    return interp.tobool(interp.rv(interp.apply(f, vals)))


def function(interp, e, fn, q, n, args):
    """free functions"""
    V_ = lambda i: val(interp, args[i])
    if len(args) >= 2 and q.startswith('std::'):
        it = interp.rv(args[0]) if isinstance(args[0], (LV, LVG)) else args[0]
        if isinstance(it, It):
            g = interp.read(it.lv)
            if isinstance(g, G):
                # finite case split on the container
                c = interp.simp(g.c)
                full = count(interp, g)

                def on(side, v):
                    interp.write(it.lv, side)
                    xs = []
                    for a in args:
                        b = interp.rv(a) if isinstance(a, (LV, LVG)) else a
                        if isinstance(b, It) and b.lv == it.lv and b.i is full:
                            b = mkit(b.lv, count(interp, side))
                        xs.append(b if isinstance(b, It) else a)
                    return function(interp, e, fn, q, n, xs)
                return interp.branch(c, lambda: on(g.a, True), lambda: on(g.b, False))
    if q.startswith('matplotlibcpp::'):
        interp.event('plt', (n, [val(interp, a) for a in args]))
        return TRUE if strip(e.get('t', '')) == 'bool' else None
    if n in SCALAR and len(args) >= 0:
        vals = [val(interp, a) for a in args]
        if all(isinstance(interp.num(x) if isinstance(x, BN) else x, (P, G)) for x in vals) and len(vals) == {'rand': 0, 'pow': 2, 'atan2': 2, 'fmin': 2, 'fmax': 2, 'hypot': 2, 'fmod': 2, 'copysign': 2}.get(n, 1):
            r = scalar_call(interp, n, vals)
            if r is not None:
                return r
        if vals and isinstance(vals[0], EIGV):
            if len(vals) == 2:
                return emap2(interp, vals[0], vals[1], lambda x, y: SCALAR[n](interp, x, y))
            return emap(interp, vals[0], lambda x: SCALAR[n](interp, x))
    if n in ('max', 'min') and args:
        vals = [val(interp, a) for a in args]
        lt = interp.ltv
        if len(vals) == 1 and isinstance(vals[0], Seq):
            r = vals[0].items[0]
            for x in vals[0].items[1:]:
                c = lt(r, x) if n == 'max' else lt(x, r)
                r = merge(c, x, r)
            return r
        if len(vals) == 2 and not isinstance(vals[0], Seq):
            c = lt(vals[0], vals[1]) if n == 'max' else lt(vals[1], vals[0])
            return merge(c, vals[1], vals[0])
        if len(vals) == 3:
            c = bool_apply(interp, vals[2], [args[0], args[1]] if n == 'max' else [args[1], args[0]])
            return merge(c, vals[1], vals[0])
    if q in ('std::clamp',) and len(args) == 3:
        x, lo, hi = V_(0), V_(1), V_(2)
        return merge(interp.ltv(x, lo), lo, merge(interp.ltv(hi, x), hi, x))
    if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof') and len(args) == 1:
        if n == 'addressof':
            return Ptr(args[0])
        return args[0]
    if q in ('std::make_pair', 'std::make_tuple'):
        return Tup([val(interp, a) for a in args])
    if q == 'std::tie' or q == 'std::forward_as_tuple':
        return Tup([a if isinstance(a, (LV, LVG)) else interp.alloc(a) for a in args])
    if q == 'std::get':
        ta = fn.get('ta') or []
        m = re.match(r'^(\d+)', ta[0]) if ta else None
        a = args[0] if isinstance(args[0], (LV, LVG)) else interp.alloc(args[0])
        if m:
            return a + ('t', int(m.group(1)))
        raise Undecided('std::get by type at %s' % interp.loc)
    if q == 'std::swap' or n == 'swap' and len(args) == 2:
        x, y = interp.rv(args[0]), interp.rv(args[1])
        interp.write(args[0], y)
        interp.write(args[1], x)
        return None
    if q in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
        t = tmpl_args(strip(fn['rt']))[0]
        lv = interp.alloc(make_object(interp, t, args), 'H')
        interp.owned[lv.root] = TRUE
        return Ptr(lv, 'shared')
    if q in ('std::static_pointer_cast', 'std::const_pointer_cast', 'std::reinterpret_pointer_cast'):
        v = V_(0)
        t = tmpl_args(strip(fn['rt']))[0]
        if isinstance(v, Ptr) and v.lv is not None:
            interp.check_downcast(v.lv, strip(t))
        return v
    if q == 'std::dynamic_pointer_cast':
        t = tmpl_args(strip(fn['rt']))[0]
        return interp.dyncast(V_(0), strip(t))
    if q in ('std::begin', 'std::cbegin'):
        return mkit(args[0], ZERO)
    if q in ('std::end', 'std::cend'):
        return mkit(args[0], csize(interp, args[0]))
    if q in ('std::next', 'std::prev'):
        k = V_(1) if len(args) > 1 else ONE
        return iter_arith(interp, '+' if n == 'next' else '-', V_(0), k)
    if q == 'std::advance':
        interp.write(args[0], iter_arith(interp, '+', V_(0), V_(1)))
        return None
    if q == 'std::distance':
        return iter_arith(interp, '-', V_(1), V_(0))
    if q in ('std::back_inserter', 'std::front_inserter'):
        return BackIns(args[0], n == 'front_inserter')
    if q == 'std::to_string':
        v = V_(0)
        c = T.cval(v) if isinstance(v, P) else None
        if c is not None and c.denominator == 1 and fn['pt'] and strip(fn['pt'][0]) not in ('double', 'float'):
            return Str(str(int(c)))
        if isinstance(v, P):
            return Str(('num', T.show(v), v))
        return Str(('num', repr(v), v))
    if q in ('std::setw', 'std::setprecision', 'std::setfill', 'std::boolalpha', 'std::fixed'):
        return Opq('manipulator')
    if q == 'std::isspace':
        return T.pb(unk_base('isspace'))
    if q in ('std::sort', 'std::stable_sort'):
        lv, i, j = seq_range(interp, args[0], args[1])
        cmp_ = V_(2) if len(args) > 2 else None
        return sort(interp, lv, i, j, cmp_)
    if q == 'std::reverse':
        lv, i, j = seq_range(interp, args[0], args[1])
        it = list(interp.read(lv).items)
        it[i:j] = it[i:j][::-1]
        interp.write(lv, Seq(it))
        return None
    if q == 'std::transform' and len(args) == 4:
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(3)
        return out_copy(interp, V_(2), [interp.rv(interp.apply(f, [lv + ('e', k)])) if True else None for k in range(i, j)])
    if q == 'std::copy':
        lv, i, j = seq_range(interp, args[0], args[1])
        return out_copy(interp, V_(2), [interp.read(lv + ('e', k)) for k in range(i, j)])
    if q == 'std::for_each':
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2)
        for k in range(i, j):
            interp.apply(f, [lv + ('e', k)])
        return f
    if q in ('std::any_of', 'std::all_of', 'std::none_of'):
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2)
        any_ = n != 'all_of'

        def rec(k):
            if k == j:
                return FALSE if any_ else TRUE
            c = bool_apply(interp, f, [lv + ('e', k)])
            if any_:
                return interp.branch(c, lambda: TRUE, lambda: rec(k + 1))
            return interp.branch(c, lambda: rec(k + 1), lambda: FALSE)
        r = rec(i)
        return T.b_not(r) if n == 'none_of' else r
    if q in ('std::count_if', 'std::count'):
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2)
        s = ZERO
        for k in range(i, j):
            c = bool_apply(interp, f, [lv + ('e', k)]) if n == 'count_if' else interp.eqv(interp.read(lv + ('e', k)), f)
            s = T.add(s, T.ite(c, ONE, ZERO))
        return s
    if q in ('std::find', 'std::find_if', 'std::find_if_not'):
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2)

        def rec(k):
            if k == j:
                return T.const(j)
            c = interp.eqv(interp.read(lv + ('e', k)), f) if n == 'find' else bool_apply(interp, f, [lv + ('e', k)])
            if n == 'find_if_not':
                c = T.b_not(c)
            return interp.branch(c, lambda: T.const(k), lambda: rec(k + 1))
        return mkit(lv, rec(i))
    if q in ('std::lower_bound', 'std::upper_bound'):
        lv, i, j = seq_range(interp, args[0], args[1])
        x = V_(2)
        f = V_(3) if len(args) > 3 else None
        r = T.const(j)
        for k in reversed(range(i, j)):
            y = lv + ('e', k)
            if n == 'lower_bound':
                c = bool_apply(interp, f, [y, args[2]]) if f is not None else interp.ltv(interp.read(y), x)
                c = T.b_not(c)
            else:
                c = bool_apply(interp, f, [args[2], y]) if f is not None else interp.ltv(x, interp.read(y))
            r = T.ite(c, T.const(k), r)
        return mkit(lv, r)
    if q in ('std::max_element', 'std::min_element'):
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2) if len(args) > 2 else None
        if i == j:
            return mkit(lv, T.const(j))
        bi, bv = T.const(i), interp.read(lv + ('e', i))
        for k in range(i + 1, j):
            y = interp.read(lv + ('e', k))
            a, b = (bv, y) if n == 'max_element' else (y, bv)
            c = bool_apply(interp, f, [interp.alloc(a), interp.alloc(b)]) if f is not None else interp.ltv(a, b)
            bi, bv = T.ite(c, T.const(k), bi), merge(c, y, bv)
        return mkit(lv, bi)
    if q == 'std::accumulate':
        lv, i, j = seq_range(interp, args[0], args[1])
        acc = V_(2)
        f = V_(3) if len(args) > 3 else None
        t0 = strip(fn['pt'][2]) if len(fn['pt']) > 2 else ''
        for k in range(i, j):
            x = interp.read(lv + ('e', k))
            if f is not None:
                acc = interp.rv(interp.apply(f, [acc, lv + ('e', k)]))
            elif isinstance(acc, Str):
                acc = Str(*(acc.p + x.p))
            elif isinstance(acc, P) and isinstance(x, (P, BN)):
                acc = T.add(acc, interp.num(x))
            else:
                acc = binop(interp, '+', acc, x)
            if isinstance(acc, P) and t0 in ('int', 'unsigned int', 'long', 'unsigned long'):
                acc = interp.trunc_int(acc)
            if isinstance(acc, P) and t0 == 'bool':
                acc = interp.tobool(acc)
        return acc
    if q == 'std::inner_product' and len(args) == 4:
        lv, i, j = seq_range(interp, args[0], args[1])
        b = V_(2)
        acc = V_(3)
        for k in range(i, j):
            acc = T.add(acc, T.mul(interp.read(lv + ('e', k)), interp.read(b.lv + ('e', T.add(idx(interp, b.i), T.const(k - i))))))
        return acc
    if q == 'std::copy_if':
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(3)
        out = V_(2)
        if isinstance(out, BackIns):
            for k in range(i, j):
                c = bool_apply(interp, f, [lv + ('e', k)])
                interp.branch(c, lambda: push(interp, out.lv, interp.read(lv + ('e', k)), out.front), lambda: None)
            return out
    if q == 'std::fill':
        lv, i, j = seq_range(interp, args[0], args[1])
        x = V_(2)
        for k in range(i, j):
            interp.write(lv + ('e', k), x)
        return None
    if q == 'std::iota':
        lv, i, j = seq_range(interp, args[0], args[1])
        x = V_(2)
        for k in range(i, j):
            interp.write(lv + ('e', k), T.add(x, T.const(k - i)))
        return None
    if q in ('std::remove', 'std::remove_if', 'std::unique', 'std::partition', 'std::stable_partition'):
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2) if len(args) > 2 else None
        xs = list(interp.read(lv).items)

        def place(k, keep, out):
            """the kept elements first; what is left behind them is unspecified for remove and unique"""
            if k == j:
                new = xs[:i] + keep + (out if 'partition' in n else xs[i + len(keep):j]) + xs[j:]
                interp.write(lv, Seq(new))
                return T.const(i + len(keep))
            y = lv + ('e', k)
            if n == 'remove':
                c = interp.eqv(xs[k], f)
            elif n == 'unique':
                if not keep:
                    return place(k + 1, [xs[k]], out)
                c = bool_apply(interp, f, [interp.alloc(keep[-1]), interp.alloc(xs[k])]) if f is not None else interp.eqv(keep[-1], xs[k])
            else:
                c = bool_apply(interp, f, [y])
                if 'partition' in n:
                    c = T.b_not(c)
            return interp.branch(c, lambda: place(k + 1, keep, out + [xs[k]]), lambda: place(k + 1, keep + [xs[k]], out))
        return mkit(lv, place(i, [], []))
    if q in ('std::transform',) and len(args) == 5:
        lv, i, j = seq_range(interp, args[0], args[1])
        b, f = V_(2), V_(4)
        return out_copy(interp, V_(3), [interp.rv(interp.apply(f, [lv + ('e', k), b.lv + ('e', T.add(idx(interp, b.i), T.const(k - i)))])) for k in range(i, j)])
    if q in ('std::fill_n', 'std::generate_n'):
        k = interp.index(V_(1))
        if isinstance(k, int):
            f = V_(2)
            return out_copy(interp, V_(0), [f if n == 'fill_n' else interp.rv(interp.apply(f, [])) for _ in range(k)])
    if q == 'std::copy_n':
        k = interp.index(V_(1))
        a = V_(0)
        if isinstance(k, int) and isinstance(a, It):
            return out_copy(interp, V_(2), [interp.read(a.lv + ('e', T.add(idx(interp, a.i), T.const(x)))) for x in range(k)])
    if q == 'std::generate':
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2)
        for k in range(i, j):
            interp.write(lv + ('e', k), interp.rv(interp.apply(f, [])))
        return None
    if q in ('std::replace_if', 'std::replace'):
        lv, i, j = seq_range(interp, args[0], args[1])
        f, x = V_(2), V_(3)
        for k in range(i, j):
            y = interp.read(lv + ('e', k))
            c = bool_apply(interp, f, [lv + ('e', k)]) if n == 'replace_if' else interp.eqv(y, f)
            interp.write(lv + ('e', k), merge(c, x, y))
        return None
    if q == 'std::for_each_n':
        a, k, f = V_(0), interp.index(V_(1)), V_(2)
        if isinstance(k, int) and isinstance(a, It):
            for x in range(k):
                interp.apply(f, [a.lv + ('e', T.add(idx(interp, a.i), T.const(x)))])
            return mkit(a.lv, T.add(idx(interp, a.i), T.const(k)))
    if q == 'std::equal' and len(args) in (3, 4, 5):
        lv, i, j = seq_range(interp, args[0], args[1])
        b = V_(2)
        rest = [V_(k) for k in range(3, len(args))]
        if rest and isinstance(rest[0], It):
            lv2, i2, j2 = seq_range(interp, args[2], args[3])
            if j2 - i2 != j - i:
                return FALSE
            rest = rest[1:]
        f = rest[0] if rest else None
        r = TRUE
        for k in range(i, j):
            x, y = lv + ('e', k), b.lv + ('e', T.add(idx(interp, b.i), T.const(k - i)))
            r = T.b_and(r, bool_apply(interp, f, [x, y]) if f is not None else interp.eqv(interp.read(x), interp.read(y)))
        return r
    if q in ('std::is_sorted',):
        lv, i, j = seq_range(interp, args[0], args[1])
        f = V_(2) if len(args) > 2 else None
        r = TRUE
        for k in range(i, j - 1):
            x, y = lv + ('e', k), lv + ('e', k + 1)
            r = T.b_and(r, T.b_not(bool_apply(interp, f, [y, x]) if f is not None else interp.ltv(interp.read(y), interp.read(x))))
        return r
    if q in ('std::rotate',):
        lv, i, m = seq_range(interp, args[0], args[1])
        lv, m, j = seq_range(interp, args[1], args[2])
        it = list(interp.read(lv).items)
        it[i:j] = it[m:j] + it[i:m]
        interp.write(lv, Seq(it))
        return mkit(lv, T.const(i + j - m))
    if q in ('std::terminate', 'abort', 'exit', 'std::abort', 'std::exit'):
        interp.event('abort', q)
        from .interp import Dead
        raise Dead()
    if q in ('std::srand', 'srand', 'time', 'std::time'):
        return ZERO
    if q == '__assert_fail':
        interp.event('assert', q)
        from .interp import Dead
        raise Dead()
    # static member functions and constants of Eigen
    if q.startswith('Eigen::'):
        r = eigen_static(interp, e, fn, q, n, args)
        if r is not None:
            return r
    if q.startswith('std::numeric_limits<'):
        b = T.base('atom', (q,))
        if n in ('max', 'infinity', 'epsilon', 'min'):
            b.facts['pos'] = True
        if n == 'epsilon':
            b.facts['hi'] = F(1, 10 ** 6)
        if n in ('max', 'infinity'):
            b.facts['lo'] = F(10 ** 9)
        if n == 'lowest':
            b.facts['hi'] = F(-10 ** 9)
        if n == 'quiet_NaN':
            b.facts['undef'] = True
        return T.pb(b)
    return unknown(interp, e, fn, args)


def make_object(interp, t, args):
    t = strip(t)
    if t in interp.p.records:
        if len(args) == 1:
            v = interp.rv(args[0])
            if isinstance(v, Rec) and interp.p.is_a(v.cls, t):
                if v.cls != t and not v.cls.startswith('#'):
                    v = Rec(t, {x['n']: v.f[x['n']] for x in interp.p.fields(t)})
                return interp.copyval(v)
            if isinstance(v, G):
                return interp.branch(v.c, lambda: make_object(interp, t, [v.a]), lambda: make_object(interp, t, [v.b]))
        if not args:
            for m in interp.p.records[t]['methods']:
                if m.get('ctor') and len(m['pn']) == 0:
                    return interp.construct(t, m, [])
        return interp.new(t, [a for a in args])
    if not args:
        return interp.default(t, 'make_shared')
    if len(args) == 1:
        return val(interp, args[0])
    raise Undecided('make_shared<%s> at %s' % (t, interp.loc))


def out_copy(interp, out, vals):
    if isinstance(out, BackIns):
        for v in vals:
            push(interp, out.lv, v, out.front)
        return out
    if isinstance(out, It):
        for k, v in enumerate(vals):
            interp.write(out.lv + ('e', T.add(idx(interp, out.i), T.const(k))), v)
        return mkit(out.lv, T.add(idx(interp, out.i), T.const(len(vals))))
    raise Undecided('output iterator at %s' % interp.loc)


def push(interp, lv, v, front=False):
    def f(c):
        if isinstance(c, G):
            return merge(c.c, f(c.a), f(c.b))
        if isinstance(c, Seq):
            return Seq((v,) + c.items if front else c.items + (v,))
        if isinstance(c, Map) and c.isset:
            return map_insert(interp, c, v, None)[0]
        raise Undecided('push_back on %s at %s' % (type(c).__name__, interp.loc))
    interp.write(lv, f(interp.read(lv)))


def sort(interp, lv, i, j, cmp_):
    xs = list(interp.read(lv).items)

    def less(a, b):
        if cmp_ is None or isinstance(cmp_, FnRef) and cmp_.fn.get('q') == 'std::less':
            return interp.ltv(a, b)
        if isinstance(cmp_, FnRef) and cmp_.fn.get('q') == 'std::greater':
            return interp.ltv(b, a)
        ka, kb = interp.alloc(a), interp.alloc(b)
        return bool_apply(interp, cmp_, [ka, kb])
    for k in range(i + 1, j):
        m = k
        while m > i:
            c = interp.simp(less(xs[m], xs[m - 1]))
            if c is FALSE:
                break
            xs[m - 1], xs[m] = merge(c, xs[m], xs[m - 1]), merge(c, xs[m - 1], xs[m])
            m -= 1
    interp.write(lv, Seq(xs))
    return None


def eigen_static(interp, e, fn, q, n, args):
    vals = [val(interp, a) for a in args]
    m = re.search(r'Base<(Eigen::(?:Matrix|Array)<.*>)>::', q) or re.search(r'(Eigen::(?:Matrix|Array)<[^>]*>)', q)
    s = shape(m.group(1)) if m else None
    if s is None and strip(e.get('t', '')).startswith('Eigen::'):
        s = shape(strip(e['t']))
    if n in ('Zero', 'Ones', 'Constant', 'Identity', 'Random', 'LinSpaced', 'UnitX', 'UnitY', 'UnitZ', 'UnitW', 'Unit') and s is not None:
        r, c = s
        dims = [interp.index(x) for x in vals] if n in ('Zero', 'Ones', 'Identity', 'Random') else []
        if n == 'Constant' and len(vals) > 1:
            dims = [interp.index(x) for x in vals[:-1]]
        if dims:
            if r < 0 and c < 0:
                r, c = dims[0], dims[1]
            elif r < 0:
                r = dims[0]
            elif c < 0:
                c = dims[0]
        if not isinstance(r, int) or not isinstance(c, int):
            raise Undecided('symbolic size at %s' % interp.loc)
        if n.startswith('Unit'):
            i = interp.index(vals[-1]) if n == 'Unit' else 'XYZW'.index(n[4])
            if s == (3, 1) and isinstance(i, int) and i < 3:
                return T.ev(i)
            if s == (1, 3):
                return RowV(T.ev(i))
            return interp.mkvec([ONE if k == i else ZERO for k in range(max(r, c))])
        if n == 'Identity':
            if (r, c) == (3, 3):
                return T.MID
            return Arr(r, c, [ONE if i == j else ZERO for j in range(c) for i in range(r)])
        if n == 'LinSpaced':
            k = interp.index(vals[0]) if len(vals) == 3 else max(r, c)
            lo, hi = vals[-2], vals[-1]
            if not isinstance(k, int):
                raise Undecided('symbolic size')
            return interp.mkvec([T.add(lo, T.scale(T.sub(hi, lo), F(i, k - 1))) for i in range(k)] if k > 1 else [hi])
        x = {'Zero': ZERO, 'Ones': ONE}.get(n)
        if n == 'Constant':
            x = vals[-1]
        if x is None:
            xs = [T.pb(unk_base('random')) for _ in range(r * c)]
        else:
            xs = [x] * (r * c)
        return block_val(interp, r, c, xs, dyn=s[0] < 0 and s[1] < 0 or s == (3, -1))
    if n == 'Identity' and 'Quaternion' in q:
        return T.QID
    if n == 'UnitRandom':
        return T.qunit('random%d' % interp.newid())
    if n == 'FromTwoVectors':
        return Q(ONE, ((T.base('rot', 'two', vals[0], vals[1]), 1),))
    if n in ('pow', 'sqrt', 'exp', 'abs', 'sin', 'cos', 'log') and vals:
        if len(vals) == 2:
            return emap2(interp, vals[0], vals[1], lambda x, y: SCALAR[n](interp, x, y))
        return emap(interp, vals[0], lambda x: SCALAR[n](interp, x))
    return None


def block_val(interp, r, c, xs, dyn=False):
    if (r, c) == (3, 3) and not dyn:
        return T.mcols(tuple(T.vec3(*xs[3 * j:3 * j + 3]) for j in range(3)))
    if r == 3 and (c != 1 or dyn):
        return C3([T.vec3(*xs[3 * j:3 * j + 3]) for j in range(c)])
    if r == 3 and c == 1:
        return T.vec3(*xs)
    if r == 1 and c == 3:
        return RowV(T.vec3(*xs))
    return Arr(r, c, xs)


def ext_apply(interp, fn, vals):
    n, q = fn.get('n'), fn.get('q')
    if n in SCALAR:
        r = scalar_call(interp, n, vals)
        if r is not None:
            return r
    if q and q.startswith('std::less'):
        return interp.ltv(vals[0], vals[1])
    if q and q.startswith('std::greater'):
        return interp.ltv(vals[1], vals[0])
    if q and q.startswith('std::plus'):
        return gen_add(interp, vals[0], vals[1])
    if q and q.startswith(('std::logical_or', 'std::logical_and')):
        f = T.b_or if 'or' in q else T.b_and
        return f(interp.tobool(vals[0]), interp.tobool(vals[1]))
    raise Undecided('call of %s at %s' % (q, interp.loc))


def gen_add(interp, a, b):
    if isinstance(a, P) and isinstance(b, P):
        return T.add(a, b)
    if isinstance(a, Str):
        return Str(*(a.p + b.p))
    return binop(interp, '+', a, b)


# ------------------------------------------------------------------ methods
def dist(interp, v, f):
    if isinstance(v, G):
        return merge(v.c, dist(interp, v.a, f), dist(interp, v.b, f))
    return f(v)


def method(interp, e, fn, n, obj, args):
    if isinstance(obj, LVG):
        # the object itself is selected by a condition
        return interp.branch(obj.c, lambda: interp.rv(method(interp, e, fn, n, obj.a, args)) if not e.get('lv') else method(interp, e, fn, n, obj.a, args),
                             lambda: interp.rv(method(interp, e, fn, n, obj.b, args)) if not e.get('lv') else method(interp, e, fn, n, obj.b, args))
    v = interp.read(obj)
    if isinstance(v, Comma):
        obj, v = v.lv, interp.read(v.lv)
    r = _method(interp, e, fn, n, obj, v, args)
    if r is NotImplemented:
        return unknown(interp, e, fn, args, obj)
    return r


MUT = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'pop_back', 'pop_front', 'clear', 'resize', 'reserve', 'shrink_to_fit', 'insert', 'erase', 'emplace', 'assign'}


def first(v):
    while isinstance(v, G):
        v = v.a
    return v


def _method(interp, e, fn, n, obj, v, args):
    A = lambda i: val(interp, args[i])
    f0 = first(v)
    if n == 'operator=' and len(args) == 1:
        interp.write(obj, norm_type(interp, A(0), strip(e['o'].get('t', '') or e.get('ot', ''))))
        return obj
    if n.startswith('operator ') and isinstance(f0, (Ptr, G)):
        return interp.tobool(v)
    if n.startswith('~'):
        return None
    if isinstance(f0, Ptr):
        if n == 'get':
            return dist(interp, v, lambda p: Ptr(p.lv, 'raw'))
        if n == 'reset':
            interp.write(obj, own(interp, [A(j) for j in range(len(args))]) if args else Ptr(None, 'shared'))
            return None
        if n == 'release':
            interp.write(obj, Ptr(None, 'shared'))
            if isinstance(v, Ptr) and isinstance(v.lv, LV):
                interp.owned.pop(v.lv.root, None)
                interp.raws.append((v.lv.root, interp.s.pc, interp.loc, 'released object'))
            return dist(interp, v, lambda p: Ptr(p.lv, 'raw'))
        if n in ('lock',):
            return v
        if n == 'expired':
            return T.b_not(interp.tobool(v))
        if n in ('use_count',):
            return T.pb(unk_base('use_count'))
        if n == 'unique':
            return T.bpred('unknown', unk_base('unique'))
        if n == 'swap':
            x, y = v, interp.rv(args[0])
            interp.write(obj, y)
            interp.write(args[0], x)
            return None
    if isinstance(f0, Seq):
        r = seq_method(interp, e, fn, n, obj, v, args)
        if r is not NotImplemented:
            return r
    if isinstance(f0, Map):
        r = map_method(interp, e, fn, n, obj, v, args)
        if r is not NotImplemented:
            return r
    if isinstance(f0, Tup):
        if n == 'size':
            return T.const(len(f0.items))
        if n in ('at', 'operator[]'):
            return obj + ('e', A(0))
        if n == 'begin':
            return mkit(obj, ZERO)
        if n == 'end':
            return mkit(obj, T.const(len(f0.items)))
        if n == 'front':
            return obj + ('e', ZERO)
        if n == 'back':
            return obj + ('e', T.const(len(f0.items) - 1))
        if n == 'data':
            return Ptr(obj + ('e', 0))
        if n == 'fill':
            interp.write(obj, Tup([A(0)] * len(f0.items)))
            return None
    if isinstance(f0, Str):
        r = str_method(interp, e, fn, n, obj, v, args)
        if r is not NotImplemented:
            return r
    if isinstance(f0, Stream):
        if n == 'str':
            return Str(*[x for t in v.toks for x in (t.p if isinstance(t, Str) else [('val', repr(t), t)])]) if isinstance(v, Stream) else Opq('stream')
        if n in ('flush', 'setf', 'precision', 'width', 'fill', 'clear'):
            return obj
        if n in ('put', 'write'):
            interp.write(obj, Stream(v.toks + (A(0),)))
            return obj
        if n == 'operator<<':
            return stream_out(interp, obj, args[0])
    if isinstance(f0, It):
        if n == 'operator->':
            return Ptr(v.lv + ('e', v.i))
        if n == 'base':
            return v
    if isinstance(f0, Tup) and n == 'swap':
        x, y = v, interp.rv(args[0])
        interp.write(obj, y)
        interp.write(args[0], x)
        return None
    if isinstance(f0, VW):
        return vectorwise(interp, n, f0, args)
    if isinstance(f0, EIGV) or isinstance(f0, P):
        return eigen_method(interp, e, fn, n, obj, v, args)
    if isinstance(f0, (Clo, FnRef, PyFn)) and n == 'operator()':
        return interp.apply(v, args, e)
    if n == 'what':
        return v.f.get('#what', Opq('what')) if isinstance(v, Rec) else Opq('what')
    return NotImplemented


def seq_method(interp, e, fn, n, obj, v, args):
    A = lambda i: val(interp, args[i])
    if n == 'size':
        return count(interp, v)
    if n == 'empty':
        return T.cmp0(count(interp, v), '==')
    if n in ('at', 'operator[]'):
        i = A(0)
        if n == 'at':
            # out of range: exception
            c = T.b_or(T.cmp0(T.sub(i, count(interp, v)), '>='), T.cmp0(i, '<'))
            c = interp.simp(c)
            if c is not FALSE:
                interp.branch(c, lambda: interp.throw('std::out_of_range'), lambda: None)
        return obj + ('e', i)
    if n in ('begin', 'cbegin'):
        return mkit(obj, ZERO)
    if n in ('end', 'cend'):
        return mkit(obj, count(interp, v))
    if n in ('rbegin', 'rend', 'crbegin', 'crend'):
        return NotImplemented
    if n == 'front':
        return obj + ('e', ZERO)
    if n == 'back':
        return obj + ('e', T.sub(count(interp, v), ONE))
    if n == 'data':
        return Ptr(obj + ('e', 0))
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n in ('capacity', 'max_size'):
        return T.pb(unk_base(n))
    if n in ('push_back', 'push_front'):
        push(interp, obj, A(0), n == 'push_front')
        return None
    if n in ('emplace_back', 'emplace_front'):
        et = tmpl_args(strip(e['o'].get('t', '')))
        if len(args) == 1 and not (et and strip(et[0]) in interp.p.records):
            x = A(0)
        else:
            x = construct_as(interp, et[0] if et else '', args)
        push(interp, obj, x, n == 'emplace_front')
        return obj + ('e', T.sub(count(interp, interp.read(obj)), ONE))
    if n in ('pop_back', 'pop_front'):
        def f(c):
            if not c.items:
                interp.event('oob', 'pop from an empty container')
                return c
            return Seq(c.items[:-1] if n == 'pop_back' else c.items[1:])
        interp.write(obj, dist(interp, v, f))
        return None
    if n == 'clear':
        interp.write(obj, Seq())
        return None
    if n in ('resize', 'assign'):
        if n == 'assign' and len(args) == 2 and isinstance(A(0), (It, Ptr)):
            lv, i, j = seq_range(interp, args[0], args[1])
            interp.write(obj, Seq([interp.read(lv + ('e', k)) for k in range(i, j)]))
            return None
        if len(args) == 1 and n == 'assign':
            x = A(0)
            if isinstance(x, Seq):
                interp.write(obj, x)
                return None
        k = interp.index(A(0))
        if not isinstance(k, int):
            raise Undecided('symbolic size at %s' % interp.loc)
        et = tmpl_args(strip(e['o'].get('t', '')))
        old = v.items if n == 'resize' and isinstance(v, Seq) else ()
        new = list(old[:k])
        while len(new) < k:
            new.append(A(1) if len(args) > 1 else interp.default(et[0] if et else '', 'resize'))
        interp.write(obj, Seq(new))
        return None
    if n == 'insert':
        p = A(0)
        if isinstance(p, It) and isinstance(v, Seq):
            i = interp.index(p.i)
            if isinstance(i, int):
                if len(args) == 2:
                    x = A(1)
                    xs = list(x.items) if isinstance(x, Seq) and not isinstance(first_item(v), Seq) else [x]
                elif len(args) == 3 and isinstance(A(1), It):
                    lv, a, b = seq_range(interp, args[1], args[2])
                    xs = [interp.read(lv + ('e', k)) for k in range(a, b)]
                elif len(args) == 3:
                    xs = [A(2)] * interp.index(A(1))
                else:
                    return NotImplemented
                interp.write(obj, Seq(v.items[:i] + tuple(xs) + v.items[i:]))
                return mkit(obj, T.const(i))
    if n == 'erase':
        p = A(0)
        if isinstance(p, It) and isinstance(v, Seq):
            i = interp.index(p.i)
            j = interp.index(A(1).i) if len(args) > 1 else None
            if isinstance(i, int) and (j is None or isinstance(j, int)):
                if j is None:
                    if i >= len(v.items):
                        interp.event('oob', 'erase past the end')
                        return p
                    j = i + 1
                interp.write(obj, Seq(v.items[:i] + v.items[j:]))
                return mkit(obj, T.const(i))
            if j is None:
                ls = leaves(i)
                if ls is not None:
                    r = None
                    for c, kk in ls:
                        kk = int(kk)
                        if not feasible_pc(interp, c):
                            continue
                        if kk >= len(v.items):
                            interp.event('oob', 'erase past the end', T.b_and(interp.s.pc, c))
                            continue
                        x = Seq(v.items[:kk] + v.items[kk + 1:])
                        r = x if r is None else merge(c, x, r)
                    if r is not None:
                        interp.write(obj, r)
                    return p
    if n == 'swap':
        x, y = v, interp.rv(args[0])
        interp.write(obj, y)
        interp.write(args[0], x)
        return None
    return NotImplemented


def first_item(v):
    return v.items[0] if v.items else None


def feasible_pc(interp, c):
    from .interp import feasible
    return feasible(T.b_and(interp.s.pc, c))


def construct_as(interp, t, args):
    t = strip(t)
    if t in interp.p.records:
        return make_object(interp, t, args)
    if t.startswith('Eigen::'):
        return eigen_ctor(interp, t, [val(interp, a) for a in args], [])
    if t.startswith(('std::pair<', 'std::tuple<')):
        return Tup([val(interp, a) for a in args])
    if len(args) == 1:
        return val(interp, args[0])
    if not args:
        return interp.default(t, 'emplace')
    raise Undecided('emplace of %s at %s' % (t, interp.loc))


# ---- maps (keys are compared, concrete names in the analyses)
def key_cmp(interp, a, b):
    """-1, 0, 1 for concrete keys"""
    x = a.lit() if isinstance(a, Str) else (T.cval(a) if isinstance(a, P) else None)
    y = b.lit() if isinstance(b, Str) else (T.cval(b) if isinstance(b, P) else None)
    if x is None or y is None:
        if isinstance(a, Str) and a == b:
            return 0
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return 0 if a == b else (-1 if repr(a) < repr(b) else 1)
        raise Undecided('comparison of symbolic keys at %s' % interp.loc)
    return 0 if x == y else (-1 if x < y else 1)


def map_find(interp, m, k):
    for i, (kk, vv) in enumerate(m.items):
        if key_cmp(interp, kk, k) == 0:
            return i
    return None


def map_insert(interp, m, k, v, overwrite=False):
    i = map_find(interp, m, k)
    if i is not None:
        if overwrite:
            it = list(m.items)
            it[i] = (it[i][0], v)
            return Map(it, m.isset), i, False
        return m, i, False
    pos = len(m.items)
    for j, (kk, vv) in enumerate(m.items):
        if key_cmp(interp, k, kk) < 0:
            pos = j
            break
    it = list(m.items)
    it.insert(pos, (k, v))
    return Map(it, m.isset), pos, True


def map_method(interp, e, fn, n, obj, v, args):
    A = lambda i: val(interp, args[i])
    if n == 'size':
        return count(interp, v)
    if n == 'empty':
        return T.cmp0(count(interp, v), '==')
    if n in ('begin', 'cbegin'):
        return mkit(obj, ZERO)
    if n in ('end', 'cend'):
        return mkit(obj, count(interp, v))
    if n == 'clear':
        interp.write(obj, Map((), first(v).isset))
        return None
    if isinstance(v, G):
        # finite case split on the container
        def on(x):
            interp.write(obj, x)
            return interp.rv(map_method(interp, e, fn, n, obj, x, args)) if not e.get('lv') else map_method(interp, e, fn, n, obj, x, args)
        return interp.branch(v.c, lambda: on(v.a), lambda: on(v.b))
    if n == 'find':
        i = map_find(interp, v, A(0))
        return mkit(obj, T.const(len(v.items) if i is None else i))
    if n in ('count', 'contains'):
        i = map_find(interp, v, A(0))
        if n == 'contains':
            return FALSE if i is None else TRUE
        return ZERO if i is None else ONE
    if n == 'at':
        i = map_find(interp, v, A(0))
        if i is None:
            interp.throw('std::out_of_range')
        return obj + ('e', i) + ('f', 'second')
    if n == 'operator[]':
        i = map_find(interp, v, A(0))
        if i is None:
            ta = tmpl_args(strip(e['a'][0].get('t', '') if e['k'] == 'opcall' else e['o'].get('t', '')))
            d = interp.default(ta[1] if len(ta) > 1 else '', 'map')
            m, i, _ = map_insert(interp, v, A(0), d)
            interp.write(obj, m)
        return obj + ('e', i) + ('f', 'second')
    if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
        if n in ('insert', 'emplace') and len(args) == 1:
            x = A(0)
            if v.isset:
                m, i, ok = map_insert(interp, v, x, None)
                interp.write(obj, m)
                return Tup([mkit(obj, T.const(i)), TRUE if ok else FALSE])
            if isinstance(x, Tup):
                m, i, ok = map_insert(interp, v, x.items[0], x.items[1])
                interp.write(obj, m)
                return Tup([mkit(obj, T.const(i)), TRUE if ok else FALSE])
        elif len(args) == 2 and isinstance(A(0), It) and isinstance(A(1), Tup):
            m, i, ok = map_insert(interp, v, A(1).items[0], A(1).items[1])
            interp.write(obj, m)
            return mkit(obj, T.const(i))
        elif len(args) == 2 and n != 'emplace_hint':
            m, i, ok = map_insert(interp, v, A(0), A(1), n == 'insert_or_assign')
            interp.write(obj, m)
            return Tup([mkit(obj, T.const(i)), TRUE if ok else FALSE])
    if n == 'erase':
        x = A(0)
        if isinstance(x, It):
            i = interp.index(x.i)
            if len(args) > 1:
                j = interp.index(A(1).i)
            else:
                j = i + 1
                if i >= len(v.items):
                    interp.event('oob', 'erase of the end iterator')
                    return x
            interp.write(obj, Map(v.items[:i] + v.items[j:], v.isset))
            return mkit(obj, T.const(i))
        i = map_find(interp, v, x)
        if i is None:
            return ZERO
        interp.write(obj, Map(v.items[:i] + v.items[i + 1:], v.isset))
        return ONE
    if n in ('lower_bound', 'upper_bound'):
        k = A(0)
        for i, (kk, vv) in enumerate(v.items):
            c = key_cmp(interp, kk, k)
            if c > 0 or c == 0 and n == 'lower_bound':
                return mkit(obj, T.const(i))
        return mkit(obj, T.const(len(v.items)))
    return NotImplemented


def strint(x):
    c = T.cval(x) if isinstance(x, P) else None
    if c is None:
        raise Undecided('symbolic position in a string')
    c = int(c)
    return c + 2 ** 64 if c < 0 else c


def is_charp(fn, i):
    pt = fn.get('pt') or []
    return i < len(pt) and 'char *' in pt[i] and 'basic_string' not in pt[i]


def substr(interp, s, i, k):
    i = strint(i) if i is not None else 0
    if i > len(s):
        interp.throw('std::out_of_range')
    return s[i:] if k is None else s[i:i + strint(k)]


def str_method(interp, e, fn, n, obj, v, args):
    A = lambda i: val(interp, args[i])
    if n == 'compare':
        if len(args) >= 3:
            if not isinstance(v, Str) or v.lit() is None:
                return T.pb(unk_base('comparison of parts of strings'))
            x, y = substr(interp, v.lit(), A(0), A(1)), A(2)
            if not isinstance(y, Str) or y.lit() is None:
                return T.pb(unk_base('comparison of parts of strings'))
            y = y.lit()
            if len(args) == 4:
                y = y[:strint(A(3))] if is_charp(fn, 2) else substr(interp, y, A(3), None)
            elif len(args) > 4:
                y = substr(interp, y, A(3), A(4))
            return T.const((x > y) - (x < y))
        x = A(0)
        return T.ite(interp.eqv(v, x), ZERO, T.ite(interp.ltv(v, x), T.const(-1), ONE))
    if n in ('size', 'length'):
        return count(interp, v)
    if n == 'empty':
        if isinstance(v, Str):
            s = v.lit()
            if s is not None:
                return TRUE if s == '' else FALSE
            return T.bpred('strempty', repr(v))
        return NotImplemented
    if n in ('c_str', 'data'):
        return v
    if n in ('append', 'operator+='):
        x = A(0)
        r = dist(interp, v, lambda s: dist(interp, x, lambda y: concat(interp, s, y)))
        interp.write(obj, r)
        return obj
    if n == 'push_back':
        x = A(0)
        c = T.cval(x)
        if c is None:
            return NotImplemented
        interp.write(obj, concat(interp, v, Str(chr(int(c)))))
        return None
    if n == 'clear':
        interp.write(obj, Str())
        return None
    if n == 'assign':
        interp.write(obj, A(0))
        return obj
    if n in ('reserve',):
        return None
    if n in ('at', 'operator[]', 'front', 'back'):
        s = v.lit() if isinstance(v, Str) else None
        if s is None:
            return T.pb(unk_base('character'))
        i = {'front': 0, 'back': len(s) - 1}.get(n)
        return obj + ('e', A(0) if i is None else i)
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and isinstance(v, Str):
        s, x = v.lit(), A(0)
        y = x.lit() if isinstance(x, Str) else (chr(int(T.cval(x))) if isinstance(x, P) and T.cval(x) is not None else None)
        if s is None or y is None:
            return T.pb(unk_base('string search'))
        start = strint(A(1)) if len(args) > 1 else None
        if len(args) > 2:
            y = y[:strint(A(2))]
        if n == 'find':
            r = s.find(y, start or 0)
        elif n == 'rfind':
            r = s.rfind(y) if start is None else s.rfind(y, 0, start + len(y))
        else:
            ks = [i for i, ch in enumerate(s) if (ch in y) != ('_not_' in n)]
            if 'first' in n:
                ks = [i for i in ks if i >= (start or 0)]
                r = ks[0] if ks else -1
            else:
                ks = [i for i in ks if start is None or i <= start]
                r = ks[-1] if ks else -1
        return T.const(r if r >= 0 else 2 ** 64 - 1)
    if n == 'substr' and isinstance(v, Str):
        s = v.lit()
        if s is None:
            return Str(('substr', repr(v)))
        return Str(substr(interp, s, A(0) if args else None, A(1) if len(args) > 1 else None))
    if n in ('erase', 'insert', 'replace', 'pop_back', 'resize') and isinstance(v, Str) and v.lit() is not None:
        s = v.lit()
        xs = [A(i) for i in range(len(args))]
        if any(not isinstance(x, (P, Str)) for x in xs):
            return NotImplemented
        if n == 'pop_back':
            interp.write(obj, Str(s[:-1]))
            return None
        if n == 'resize':
            k = strint(xs[0])
            interp.write(obj, Str((s + (chr(strint(xs[1])) if len(xs) > 1 else chr(0)) * k)[:k]))
            return None
        i = strint(xs[0]) if xs else 0
        if i > len(s):
            interp.throw('std::out_of_range')
        if n == 'erase':
            k = strint(xs[1]) if len(xs) > 1 else len(s)
            interp.write(obj, Str(s[:i] + s[i + k:]))
            return obj
        if n == 'insert' and len(xs) == 2 and isinstance(xs[1], Str) and xs[1].lit() is not None:
            interp.write(obj, Str(s[:i] + xs[1].lit() + s[i:]))
            return obj
        if n == 'replace' and len(xs) == 3 and isinstance(xs[2], Str) and xs[2].lit() is not None:
            interp.write(obj, Str(s[:i] + xs[2].lit() + s[i + strint(xs[1]):]))
            return obj
    return NotImplemented


def concat(interp, a, b):
    if isinstance(a, Str) and isinstance(b, Str):
        return Str(*(a.p + b.p))
    if isinstance(a, Str) and isinstance(b, P) and T.cval(b) is not None:
        return Str(*(a.p + (chr(int(T.cval(b))),)))
    if isinstance(b, Str) and isinstance(a, P) and T.cval(a) is not None:
        return Str(*((chr(int(T.cval(a))),) + b.p))
    if isinstance(a, (Str, Opq)) or isinstance(b, (Str, Opq)):
        return Opq('string')
    raise Undecided('concatenation at %s' % interp.loc)


# ---- Eigen methods
VIEW = {'array', 'matrix', 'noalias', 'derived', 'eval', 'const_cast_derived', 'nestedExpression', 'real'}
ELEM = {'abs': T.absP, 'square': lambda x: T.mul(x, x), 'sqrt': T.sqrtP, 'cube': lambda x: T.powp(x, F(3)), 'inverse': T.inv, 'cwiseAbs': T.absP, 'cwiseSqrt': T.sqrtP,
        'cwiseAbs2': lambda x: T.mul(x, x), 'abs2': lambda x: T.mul(x, x), 'cwiseInverse': T.inv, 'exp': lambda x: T.fn('exp', x), 'log': lambda x: T.fn('log', x), 'sin': lambda x: T.fn('sin', x), 'cos': lambda x: T.fn('cos', x),
        'acos': lambda x: T.fn('acos', x), 'asin': lambda x: T.fn('asin', x), 'tan': lambda x: T.fn('tan', x), 'sign': lambda x: T.ite(T.cmp0(x, '<'), T.const(-1), T.ite(T.cmp0(x, '=='), ZERO, ONE))}
ELEM2 = {'cwiseProduct': T.mul, 'cwiseQuotient': T.div, 'cwiseMin': pmin, 'cwiseMax': pmax}


BLOCKS = {'block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'leftCols', 'rightCols', 'middleCols', 'middleRows', 'topRows', 'bottomRows'}


class VW:
    """a matrix taken row by row or column by column"""
    __slots__ = ('how', 'v')

    def __init__(self, how, v):
        self.how, self.v = how, v


def dims_of(x):
    if isinstance(x, C3):
        return 3, len(x.cols)
    if isinstance(x, Arr):
        return x.r, x.c
    return {'V': (3, 1), 'M': (3, 3), 'RowV': (1, 3)}.get(type(x).__name__) or (1, 1)


def vectorwise(interp, n, v, args):
    A = lambda i: val(interp, args[i])
    x = v.v
    if isinstance(x, G):
        return dist(interp, x, lambda y: vectorwise(interp, n, VW(v.how, y), args))
    r, c = dims_of(x)
    xs = interp.comps_all(x)
    lines = [[xs[j * r + i] for j in range(c)] for i in range(r)] if v.how == 'rowwise' else [xs[j * r:(j + 1) * r] for j in range(c)]

    def arr(l):
        return interp.mkvec(l) if len(l) == 3 else Arr(len(l), 1, l)
    one = {'sum': lambda l: T.add(ZERO, *l), 'mean': lambda l: T.scale(T.add(ZERO, *l), F(1, len(l))), 'norm': lambda l: norm(interp, arr(l)), 'squaredNorm': lambda l: norm2(interp, arr(l)),
           'prod': lambda l: fold(interp, arr(l), T.mul), 'minCoeff': lambda l: fold(interp, arr(l), pmin), 'maxCoeff': lambda l: fold(interp, arr(l), pmax)}.get(n)
    if one is not None and all(lines):
        out = [one(l) for l in lines]
        return block_val(interp, r, 1, out) if v.how == 'rowwise' else block_val(interp, 1, c, out)
    if n in ('normalized', 'reverse'):
        out = [interp.comps_all(normalized(interp, arr(l))) if n[0] == 'n' else l[::-1] for l in lines]
    elif n in ('operator+', 'operator-', 'operator*', 'operator/'):
        b = interp.comps_all(A(0))
        out = [interp.comps_all(emap2(interp, arr(l), arr(b), {'+': T.add, '-': T.sub, '*': T.mul, '/': T.div}[n[8]])) for l in lines]
    else:
        return NotImplemented
    flat = [out[i][j] for j in range(c) for i in range(r)] if v.how == 'rowwise' else [y for l in out for y in l]
    return block_val(interp, r, c, flat, dyn=isinstance(x, C3))


def eigen_method(interp, e, fn, n, obj, v, args):
    A = lambda i: val(interp, args[i])
    f0 = first(v)
    isarr = 'Array' in fn['q'].split('::' + n)[0]
    if isinstance(f0, Q):
        r = quat_method(interp, e, fn, n, obj, v, args)
        if r is not NotImplemented:
            return r
    if isinstance(f0, AA):
        if n == 'angle':
            return obj + ('ang',)
        if n == 'axis':
            return obj + ('axis',)
        if n == 'toRotationMatrix' or n == 'matrix':
            return dist(interp, v, lambda x: q_matrix(toq(interp, x)))
        if n == 'inverse':
            return dist(interp, v, lambda x: AA(T.neg(x.ang), x.axis))
    if n in VIEW:
        return obj
    if n in ('x', 'y', 'z', 'w'):
        i = 'xyzw'.index(n)
        return obj + ('e', i)
    if n in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        if len(args) == 1:
            return obj + ('e', A(0))
        return obj + ('rc', A(0), A(1))
    if n == 'col':
        return obj + ('col', A(0))
    if n == 'row':
        i = interp.index(A(0))
        if not isinstance(i, int):
            raise Undecided('symbolic row at %s' % interp.loc)
        return obj + ('row', i)
    if n in BLOCKS and (n not in ('topRows', 'bottomRows') or dims_of(f0)[1] > 1):
        R, C = dims_of(f0)
        ta = [int(x) for x in (fn.get('ta') or []) if re.match(r'-?\d+$', str(x))]
        def k(i):
            x = interp.index(A(i))
            if not isinstance(x, int):
                raise Undecided('block of symbolic size at %s' % interp.loc)
            return x
        if n == 'block':
            i, j = A(0), A(1)
            r, c = (k(2), k(3)) if len(args) > 2 else ta[:2]
        elif n.endswith('Corner'):
            r, c = (k(0), k(1)) if len(args) > 1 else ta[:2]
            i, j = 0 if n.startswith('top') else R - r, 0 if 'Left' in n else C - c
        elif n.startswith('middle'):
            m = k(1) if len(args) > 1 else ta[0]
            i, j, r, c = (A(0), 0, m, C) if n == 'middleRows' else (0, A(0), R, m)
        else:
            m = k(0) if args else ta[0]
            i, j, r, c = {'leftCols': (0, 0, R, m), 'rightCols': (0, C - m, R, m), 'topRows': (0, 0, m, C), 'bottomRows': (R - m, 0, m, C)}[n]
        return obj + ('blk', i, j, r, c)
    if n in ('rowwise', 'colwise'):
        return VW(n, v)
    if n == 'reverse':
        def rev(x):
            r, c = dims_of(x)
            return block_val(interp, r, c, interp.comps_all(x)[::-1])
        return dist(interp, v, rev)
    if n in ('head', 'tail', 'segment', 'topRows', 'bottomRows'):
        size = interp.size_of(f0)
        ta = [x for x in (fn.get('ta') or [])]
        if n == 'segment':
            st = interp.index(A(0))
            k = interp.index(A(1)) if len(args) > 1 else int(ta[0])
        else:
            k = interp.index(A(0)) if args else int(ta[0])
            st = 0 if n in ('head', 'topRows') else size - k
        if not isinstance(k, int) or not isinstance(st, int):
            raise Undecided('symbolic segment at %s' % interp.loc)
        if k == size and st == 0:
            return obj
        return obj + ('seg', st, k)
    if n in ('replicate', 'reshaped', 'cast') or n == 'template cast':
        if n == 'cast':
            return cast_of(interp, v, e.get('t') or (fn or {}).get('r') or '')
        return NotImplemented
    if n == 'diagonal':
        if isinstance(f0, M):
            return obj + ('diag',)
    if n in ('rows', 'cols', 'size', 'outerSize', 'innerSize'):
        def dim(x):
            r, c = {'V': (3, 1), 'M': (3, 3), 'RowV': (1, 3)}.get(type(x).__name__, (None, None))
            if isinstance(x, Arr):
                r, c = x.r, x.c
            if isinstance(x, C3):
                r, c = 3, len(x.cols)
            return T.const({'rows': r, 'cols': c, 'size': r * c}.get(n, r))
        return dist(interp, v, dim)
    if n == 'norm' or n == 'stableNorm':
        return norm(interp, v)
    if n == 'squaredNorm':
        return norm2(interp, v)
    if n in ('normalized', 'stableNormalized'):
        return normalized(interp, v)
    if n in ('normalize', 'stableNormalize'):
        interp.write(obj, normalized(interp, v))
        return None
    if n == 'dot':
        b = A(0)
        if isinstance(v, V) and isinstance(b, V):
            return T.vdot(v, b)
        if isinstance(v, G) or isinstance(b, G):
            return dist(interp, v, lambda x: dist(interp, b, lambda y: eigen_dot(interp, x, y)))
        return eigen_dot(interp, v, b)
    if n == 'cross':
        b = A(0)
        b = norm_type(interp, b, 'Eigen::Matrix<double, 3, 1>')
        return dist(interp, v, lambda x: dist(interp, b, lambda y: T.vcross(interp.tov(x), interp.tov(y))))
    if n == 'transpose' or n == 'adjoint':
        def tr(x):
            if isinstance(x, V):
                return RowV(x)
            if isinstance(x, RowV):
                return x.v
            if isinstance(x, M):
                return T.mT(x)
            if isinstance(x, Arr):
                return Arr(x.c, x.r, [x.items[j * x.r + i] for i in range(x.r) for j in range(x.c)])
            if isinstance(x, C3):
                return Arr(len(x.cols), 3, [T.vcomp(c, i) for i in range(3) for c in x.cols])
            raise Undecided('transpose')
        return dist(interp, v, tr)
    if n == 'transposeInPlace':
        interp.write(obj, dist(interp, v, T.mT))
        return None
    if n == 'inverse':
        def iv(x):
            if isinstance(x, M):
                return T.minv(x)
            return emap(interp, x, T.inv)
        return dist(interp, v, iv)
    if n == 'determinant':
        def dt(m):
            c = [T.mcol(m, i) for i in range(3)]
            return T.vdot(c[0], T.vcross(c[1], c[2]))
        return dist(interp, v, dt)
    if n == 'trace':
        return dist(interp, v, lambda m: T.add(*[T.vcomp(T.mcol(m, i), i) for i in range(3)]))
    if n == 'sum':
        if isinstance(v, V):
            return T.add(*interp.comps(v))
        return dist(interp, v, lambda x: sum_of(interp, x))
    if n == 'mean':
        return dist(interp, v, lambda x: T.scale(sum_of(interp, x), F(1, len(interp.comps_all(x)))))
    if n == 'prod':
        return dist(interp, v, lambda x: fold(interp, x, T.mul))
    if n in ('minCoeff', 'maxCoeff'):
        if args:
            # position of the extreme coefficient
            def pos(x):
                xs = interp.comps_all(x)
                bi, bv = ZERO, xs[0]
                for k in range(1, len(xs)):
                    c = interp.ltv(xs[k], bv) if n == 'minCoeff' else interp.ltv(bv, xs[k])
                    bi, bv = T.ite(c, T.const(k), bi), T.ite(c, xs[k], bv)
                return bi, bv
            bi, bv = pos(v)
            p = A(0)
            interp.write(interp.deref(p) if isinstance(p, Ptr) else args[0], bi)
            return bv
        return dist(interp, v, lambda x: fold(interp, x, pmin if n == 'minCoeff' else pmax))
    if n in ('allFinite', 'hasNaN'):
        return dist(interp, v, lambda x: T.bpred(n, *interp.comps_all(x)) if not isinstance(x, V) else T.bpred(n, x))
    if n in ('isZero', 'isApprox', 'isOnes', 'isIdentity', 'isMuchSmallerThan', 'isUnitary', 'isOrthogonal'):
        return T.bpred(n, *([v] + [A(i) for i in range(len(args))])) if all(isinstance(x, (P, V, M)) for x in [v] + [A(i) for i in range(len(args))]) else T.bpred('unknown', unk_base(n))
    if n in ('all', 'any', 'count'):
        bs = [interp.tobool(x) for x in (interp.comps_all(v))]
        if n == 'all':
            return T.b_and(*bs)
        if n == 'any':
            return T.b_or(*bs)
        return T.add(ZERO, *[T.ite(b, ONE, ZERO) for b in bs])
    if n == 'select':
        a, b = A(0), A(1)
        cs = interp.comps_all(v)
        xa = interp.comps_all(a) if not isinstance(a, P) else [a] * len(cs)
        xb = interp.comps_all(b) if not isinstance(b, P) else [b] * len(cs)
        return block_val(interp, f0.r, f0.c, [T.ite(interp.tobool(c), x, y) for c, x, y in zip(cs, xa, xb)])
    if n == 'pow':
        b = A(0)
        return emap2(interp, v, b, lambda x, y: s_pow(interp, x, y))
    if n in ('min', 'max'):
        return emap2(interp, v, A(0), pmin if n == 'min' else pmax)
    if n in ELEM2:
        return emap2(interp, v, A(0), ELEM2[n])
    if n in ELEM:
        return emap(interp, v, ELEM[n])
    if n == 'unaryExpr':
        f = A(0)
        return emap(interp, v, lambda x: interp.rv(interp.apply(f, [x])))
    if n == 'binaryExpr':
        f = A(1)
        return emap2(interp, v, A(0), lambda x, y: interp.rv(interp.apply(f, [x, y])))
    if n in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity'):
        dims = args if n in ('setZero', 'setOnes') else []
        if dims:
            raise Undecided('setZero with a size')
        if n == 'setIdentity' and isinstance(f0, M):
            interp.write(obj, T.MID)
            return obj
        x = {'setZero': ZERO, 'setOnes': ONE}.get(n)
        if x is None:
            x = A(0)
        interp.write(obj, emap(interp, v, lambda y: x))
        return obj
    if n in ('resize', 'conservativeResize'):
        ks = [interp.index(A(i)) for i in range(len(args))]
        if not all(isinstance(k, int) for k in ks):
            raise Undecided('symbolic resize')
        if isinstance(f0, (C3,)):
            r, c = ks
            if r != 3:
                raise Undecided('resize')
            old = list(v.cols) if n[0] == 'c' or len(v.cols) == c else []
            interp.write(obj, C3((old + [undef_v('resized')] * c)[:c]))
            return None
        if isinstance(f0, (Arr, V)):
            k = max(ks)
            old = interp.comps(v) if n[0] == 'c' or interp.size_of(v) == k else []
            interp.write(obj, Arr(k, 1, (old + [undef_p('resized') for _ in range(k)])[:k]))
            return None
    if n == 'asDiagonal':
        return T.mdiag(*interp.comps(v))
    if n == 'toDenseMatrix':
        return v
    if n == 'swap':
        y = interp.rv(args[0])
        interp.write(obj, y)
        interp.write(args[0], v)
        return None
    if n == 'data':
        return Ptr(obj + ('e', 0))
    if n == 'value':
        return interp.comps_all(v)[0] if not isinstance(v, P) else v
    if n in ('begin', 'cbegin'):
        return mkit(obj, ZERO)
    if n in ('end', 'cend'):
        return mkit(obj, T.const(interp.size_of(f0)))
    if n == 'finished':
        return obj
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        interp.write(obj, binop(interp, n[8], v, A(0)))
        return obj
    if n == 'applyOnTheLeft':
        interp.write(obj, binop(interp, '*', A(0), v))
        return None
    return NotImplemented


def eigen_dot(interp, a, b):
    if isinstance(a, RowV):
        a = a.v
    if isinstance(b, RowV):
        b = b.v
    if isinstance(a, V) and isinstance(b, V):
        return T.vdot(a, b)
    xs, ys = interp.comps_all(a), interp.comps_all(b)
    if len(xs) != len(ys):
        interp.event('shape', 'operands of different sizes')
        raise Undecided('dot at %s' % interp.loc)
    return T.add(ZERO, *[T.mul(x, y) for x, y in zip(xs, ys)])


def quat_method(interp, e, fn, n, obj, v, args):
    A = lambda i: val(interp, args[i])
    if n in 'wxyz' and len(n) == 1:
        return obj + ('q', n)
    if n == 'vec':
        return obj + ('qvec',)
    if n == 'coeffs':
        return Arr(4, 1, [T.qcomp(v, k) for k in 'xyzw']) if isinstance(v, Q) else NotImplemented
    if n == 'conjugate':
        return dist(interp, v, lambda q: Q(q.s, T.word_inv(q.w)))
    if n == 'inverse':
        # conjugate / squared norm; the zero quaternion stays zero
        return dist(interp, v, lambda q: Q(T.inv(q.s) if q.s is not ZERO else ZERO, T.word_inv(q.w)))
    if n == 'normalized':
        return dist(interp, v, T.qnormalized)
    if n == 'normalize':
        interp.write(obj, dist(interp, v, T.qnormalized))
        return None
    if n == 'norm':
        return norm(interp, v)
    if n == 'squaredNorm':
        return norm2(interp, v)
    if n in ('toRotationMatrix', 'matrix'):
        return dist(interp, v, q_matrix)
    if n == '_transformVector':
        return binop(interp, '*', v, A(0))
    if n == 'setIdentity':
        interp.write(obj, T.QID)
        return obj
    if n == 'dot':
        b = A(0)
        if isinstance(v, Q) and isinstance(b, Q):
            if v.w == b.w:
                return T.mul(v.s, b.s)
            return T.add(*[T.mul(T.qcomp(v, k), T.qcomp(b, k)) for k in 'wxyz'])
    if n == 'slerp':
        return Q(ONE, ((T.base('rot', 'slerp', A(0), v.key(), A(1).key()), 1),))
    if n == 'angularDistance':
        return T.pb(T.base('fn', 'qdist', v.key(), A(0).key()))
    if n in ('operator*=',):
        interp.write(obj, binop(interp, '*', v, A(0)))
        return obj
    if n == 'cast':
        return v
    if n == 'isApprox':
        return T.bpred('unknown', unk_base(n))
    return NotImplemented


# ------------------------------------------------------------------ operators
def operator(interp, e, fn, op, args):
    A = lambda i: val(interp, args[i])
    a0 = args[0]
    t0 = e['a'][0].get('t', '')
    if op == '=' :
        lv = a0
        if isinstance(lv, (LV, LVG)):
            x = A(1)
            t = strip(t0)
            if isinstance(x, Opq) and 'ignore' in x.why:
                return lv
            cur = None
            if t.startswith('Eigen::'):
                x = norm_type(interp, x, real_type(e['a'][0]))
            if t.startswith(('std::tuple<', 'std::pair<')) and '&' in t:
                # tie
                tup = interp.read(lv)
                if isinstance(tup, Tup) and isinstance(x, Tup):
                    for l, y in zip(tup.items, x.items):
                        if isinstance(l, (LV, LVG)):
                            interp.write(l, y)
                    return lv
            if isinstance(x, Ptr) and 'shared_ptr' in t:
                x = own(interp, [x])
            interp.write(lv, x)
            return lv
        if isinstance(lv, Tup):
            x = A(1)
            for l, y in zip(lv.items, x.items):
                if isinstance(l, (LV, LVG)):
                    interp.write(l, y)
            return lv
    v0 = interp.rv(a0)
    if isinstance(v0, Comma):
        if op == ',':
            return comma(interp, v0, A(1))
        v0 = interp.read(v0.lv)
    if isinstance(a0, Comma):
        if op == ',':
            return comma(interp, a0, A(1))
    f0 = first(v0)
    if isinstance(f0, VW) and len(args) == 2:
        r = vectorwise(interp, 'operator' + op, f0, args[1:])
        return r if r is not NotImplemented else unknown(interp, e, fn, args)
    if op in ('->', '*') and len(args) == 1:
        if isinstance(f0, Ptr) or isinstance(v0, G):
            return v0 if op == '->' else interp.deref(v0)
        if isinstance(f0, It):
            lv = v0.lv + ('e', v0.i)
            return Ptr(lv) if op == '->' else lv
        if isinstance(f0, BackIns):
            return v0
    if op in ('++', '--'):
        if isinstance(f0, It):
            new = iter_arith(interp, '+' if op == '++' else '-', v0, ONE)
            interp.write(a0, new)
            return v0 if len(args) > 1 else a0
        if isinstance(f0, BackIns):
            return a0
    if op == '()':
        if isinstance(f0, (Clo, PyFn, FnRef)) or isinstance(v0, G) and not isinstance(f0, EIGV):
            return interp.apply(v0, args[1:], e)
        if isinstance(a0, (LV, LVG)):
            if len(args) == 2:
                return a0 + ('e', A(1))
            if len(args) == 3:
                return a0 + ('rc', A(1), A(2))
        lv = interp.alloc(v0)
        return lv + (('e', A(1)) if len(args) == 2 else ('rc', A(1), A(2)))
    if op == '[]':
        lv = a0 if isinstance(a0, (LV, LVG)) else interp.alloc(v0)
        if isinstance(f0, Map):
            r = map_method(interp, e, fn, 'operator[]', lv, v0, args[1:])
            return r
        if isinstance(f0, It):
            return v0.lv + ('e', T.add(idx(interp, v0.i), A(1)))
        if isinstance(f0, Ptr):
            return interp.deref(v0) + ('e', A(1))
        return lv + ('e', A(1))
    if op == '<<':
        if isinstance(f0, Stream) or 'stream' in t0:
            return stream_out(interp, a0, args[1])
        if isinstance(f0, EIGV):
            lv = a0
            return comma(interp, Comma(lv, (), None), A(1))
    if op == '>>' and isinstance(f0, Stream):
        return unknown(interp, e, fn, args)
    if op in ('==', '!='):
        x, y = v0, A(1)
        if isinstance(y, Opq) and isinstance(first(x), Ptr):
            y = Ptr(None)
        if isinstance(first(x), (Arr,)) and isinstance(first(y), (Arr, P)) and 'Array' in fn.get('cls', ''):
            r = emap2(interp, x, y, lambda p, q: T.ite(T.cmp0(T.sub(p, q), '=='), ONE, ZERO))
            return r
        r = eq_any(interp, x, y)
        return r if op == '==' else T.b_not(r)
    if op in ('<', '>', '<=', '>='):
        x, y = v0, A(1)
        if isinstance(first(x), (V, Arr)) or isinstance(first(y), (V, Arr)):
            g = {'<': lambda p, q: T.cmp0(T.sub(p, q), '<'), '>': lambda p, q: T.cmp0(T.sub(q, p), '<'),
                 '<=': lambda p, q: T.cmp0(T.sub(p, q), '<='), '>=': lambda p, q: T.cmp0(T.sub(q, p), '<=')}[op]
            xs = interp.comps_all(x) if not isinstance(x, P) else None
            ys = interp.comps_all(y) if not isinstance(y, P) else None
            nn = len(xs if xs is not None else ys)
            xs = xs if xs is not None else [x] * nn
            ys = ys if ys is not None else [y] * nn
            return Arr(nn, 1, [g(p, q) for p, q in zip(xs, ys)])
        if op == '<':
            return interp.ltv(x, y)
        if op == '>':
            return interp.ltv(y, x)
        if op == '<=':
            return T.b_not(interp.ltv(y, x))
        return T.b_not(interp.ltv(x, y))
    if op in ('+', '-') and len(args) == 1:
        if op == '+':
            return v0
        return dist(interp, v0, lambda x: T.vneg(x) if isinstance(x, V) else T.mscale(x, T.const(-1)) if isinstance(x, M) else RowV(T.vneg(x.v)) if isinstance(x, RowV) else emap(interp, x, T.neg))
    if op in ('+', '-', '*', '/'):
        y = A(1)
        fy = first(y)
        if isinstance(f0, (It, BackIns)) or isinstance(fy, It):
            return iter_arith(interp, op, v0, y)
        if isinstance(f0, Str) or isinstance(fy, Str):
            return dist(interp, v0, lambda s: dist(interp, y, lambda z: concat(interp, s, z)))
        if isinstance(f0, Opq) or isinstance(fy, Opq):
            return interp.unknown_value(e.get('t', ''), 'operator ' + op)
        return binop(interp, op, v0, y)
    if op in ('+=', '-=', '*=', '/='):
        y = A(1)
        if isinstance(f0, It):
            interp.write(a0, iter_arith(interp, op[0], v0, y))
            return a0
        if isinstance(f0, Str):
            interp.write(a0, dist(interp, v0, lambda s: dist(interp, y, lambda z: concat(interp, s, z))))
            return a0
        r = binop(interp, op[0], v0, y)
        if isinstance(a0, (LV, LVG)):
            interp.write(a0, r)
            return a0
        return r
    if op == '!' :
        if isinstance(f0, Arr):
            return emap(interp, v0, lambda x: T.b_not(interp.tobool(x)))
        return T.b_not(interp.tobool(v0))
    if op in ('&&', '||', '&', '|'):
        y = A(1)
        if isinstance(f0, Arr) and isinstance(y, Arr):
            g = T.b_and if op[0] == '&' else T.b_or
            return Arr(f0.r, f0.c, [g(interp.tobool(p), interp.tobool(q)) for p, q in zip(f0.items, y.items)])
    if op == ',':
        return args[1]
    return unknown(interp, e, fn, args)


def real_type(a):
    """declared Eigen type below the base class casts of an operand"""
    while a['k'] == 'cast' and 'e' in a:
        a = a['e']
    t = strip(a.get('t', ''))
    m = re.match(r'^Eigen::(?:Block|VectorBlock|ArrayWrapper|NoAlias|Transpose)<', t)
    if m:
        # a column of a 3 x n matrix
        if t.startswith('Eigen::Block<') and re.search(r', -1, 1(, true)?>$', t):
            return 'Eigen::Matrix<double, 3, 1>' if 'Matrix<double, 3' in t else 'Eigen::Matrix<double, -1, 1>'
        return ''
    return t


def eq_any(interp, x, y):
    if isinstance(x, G):
        return T.b_ite(x.c, eq_any(interp, x.a, y), eq_any(interp, x.b, y))
    if isinstance(y, G):
        return eq_any(interp, y, x)
    if isinstance(x, It) and isinstance(y, It):
        if x.lv != y.lv:
            interp.event('dangling', 'comparison of iterators of different containers')
            return T.bpred('unknown', unk_base('iterators'))
        return T.cmp0(T.sub(idx(interp, x.i), idx(interp, y.i)), '==')
    if isinstance(x, (Arr, RowV, M, C3)) and isinstance(y, (Arr, RowV, M, C3)):
        a, b = interp.comps_all(x), interp.comps_all(y)
        if len(a) != len(b):
            return FALSE
        return T.b_and(*[T.cmp0(T.sub(p, q), '==') for p, q in zip(a, b)])
    if isinstance(x, Map) and isinstance(y, Map):
        if len(x.items) != len(y.items):
            return FALSE
        return T.b_and(*[T.b_and(interp.eqv(a, c), interp.eqv(b, d)) for (a, b), (c, d) in zip(x.items, y.items)])
    if isinstance(x, Q) and isinstance(y, Q):
        return T.b_and(*[T.cmp0(T.sub(T.qcomp(x, k), T.qcomp(y, k)), '==') for k in 'wxyz'])
    return interp.eqv(x, y)


def stream_out(interp, lv, arg):
    if not isinstance(lv, (LV, LVG)):
        lv = interp.alloc(lv)
    st = interp.read(lv)
    x = val(interp, arg)
    if isinstance(x, FnRef):
        x = Str('\n') if x.fn.get('n') == 'endl' else None
    if isinstance(x, Opq) and x.why == 'manipulator':
        x = None
    if x is not None:
        interp.write(lv, dist(interp, st, lambda s: Stream(s.toks + (x,)) if isinstance(s, Stream) else s))
    return lv


# ------------------------------------------------------------------ constructors
def ext_ctor(interp, e, fn, t):
    n = fn['n']
    args = [interp.argval(a) for a in e['a'] if not a.get('dflt')]
    vals = [val(interp, a) for a in args]
    cls = fn.get('cls', '')
    if t.startswith('Eigen::') and 'PrivateType' not in t:
        return eigen_ctor(interp, t, vals, fn['pt'])
    if 'PrivateType' in t:
        return Opq('private')
    if t.startswith(SEQS):
        if not vals:
            return Seq()
        et = tmpl_args(t)[0]
        pt0 = strip(fn['pt'][0]) if fn['pt'] else ''
        if e.get('stdil') or pt0.startswith('std::initializer_list'):
            return Seq([convert(interp, x, et) for x in vals[0].items]) if isinstance(vals[0], Seq) else vals[0]
        if len(vals) == 1 and isinstance(first(vals[0]), Seq):
            return vals[0]
        if isinstance(vals[0], It) and len(vals) >= 2:
            lv, i, j = seq_range(interp, vals[0], vals[1])
            return Seq([interp.read(lv + ('e', k)) for k in range(i, j)])
        if isinstance(vals[0], Ptr) and len(vals) >= 2 and isinstance(vals[1], Ptr):
            lv, i, j = seq_range(interp, vals[0], vals[1])
            return Seq([interp.read(lv + ('e', k)) for k in range(i, j)])
        if isinstance(vals[0], P):
            k = interp.index(vals[0])
            if not isinstance(k, int):
                raise Undecided('container of symbolic size at %s' % interp.loc)
            if k < 0 or k > 200000:
                interp.event('oob', 'container of size %d' % k)
                raise Undecided('container size at %s' % interp.loc)
            x = vals[1] if len(vals) > 1 and not isinstance(vals[1], (FnRef, Opq)) else None
            if x is None:
                return Seq([interp.default(et, 'element', init=True) for i in range(k)])
            return Seq([convert(interp, x, et)] * k)
        if len(vals) == 1:
            return vals[0]
    if t.startswith(('std::map<', 'std::set<', 'std::unordered_map<', 'std::unordered_set<')):
        isset = 'set<' in t.split('<')[0] + '<'
        if not vals or not isinstance(vals[0], (Map, Seq, G, It)):
            return Map((), isset)
        if isinstance(vals[0], Seq):
            m = Map((), isset)
            for x in vals[0].items:
                m = map_insert(interp, m, x, None)[0] if isset else map_insert(interp, m, x.items[0], x.items[1])[0]
            return m
        if isinstance(vals[0], It):
            m = Map((), isset)
            lv, i, j = seq_range(interp, vals[0], vals[1])
            for k in range(i, j):
                x = interp.read(lv + ('e', k))
                m = map_insert(interp, m, x, None)[0] if isset else map_insert(interp, m, x.items[0], x.items[1])[0]
            return m
        return vals[0]
    if t.startswith(('std::basic_string<', 'std::string')) or cls.startswith('std::basic_string'):
        if not vals or isinstance(vals[0], FnRef):
            return Str()
        if isinstance(vals[0], P) and len(vals) > 1 and isinstance(vals[1], P):
            k, c = T.cval(vals[0]), T.cval(vals[1])
            if k is not None and c is not None:
                return Str(chr(int(c)) * int(k))
        return vals[0]
    if t.startswith(('std::pair<', 'std::tuple<')):
        ts = tmpl_args(t)
        if len(vals) == 1 and isinstance(first(vals[0]), Tup):
            return vals[0]
        if not vals:
            return Tup([interp.default(x, 'pair') for x in ts])
        if len(vals) == len(ts):
            return Tup([convert(interp, x, y) for x, y in zip(vals, ts)])
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
        if not vals:
            return Ptr(None, 'shared')
        return own(interp, vals)
    if t.startswith('std::array<'):
        if vals:
            return vals[0]
        return std_default(interp, t, 'array')
    if 'iterator' in t or t.endswith('*'):
        return vals[0] if vals else Opq('iterator')
    if 'stringstream' in t or 'ostream' in t:
        if vals and isinstance(vals[0], Stream):
            return vals[0]
        return Stream((vals[0],)) if vals and isinstance(vals[0], Str) else Stream()
    if t.startswith('std::function<'):
        return vals[0] if vals else Opq('empty function')
    if cls.startswith('std::') and len(vals) >= 1 and ('error' in t or 'invalid_argument' in t or 'out_of_range' in t or 'exception' in t):
        return Rec(t, {'#what': vals[0]})
    if t.startswith(('std::allocator<', 'std::less<', 'std::greater<', 'std::plus<')):
        return FnRef({'q': t.split('<')[0], 'n': t.split('<')[0]})
    if (e.get('copy') or e.get('move')) and len(vals) == 1:
        return vals[0]
    if '(lambda' in t or 'lambda' in cls:
        return vals[0] if vals else Opq('lambda')
    interp.unknowns.append('constructor of %s at %s' % (t, interp.loc))
    return Opq('object of type ' + t)


def own(interp, vals):
    """the smart pointer made from a pointer (and a deleter, or an owner and a pointer)"""
    v = vals[0]
    if len(vals) > 1 and isinstance(vals[1], Ptr) and isinstance(v, Ptr):
        if v.lv is None and vals[1].lv is not None:
            return Ptr(vals[1].lv, 'foreign')
        return Ptr(vals[1].lv, v.kind)
    if len(vals) > 1 and isinstance(v, Ptr) and isinstance(vals[1], (Clo, FnRef, Rec, Opq)):
        return Ptr(v.lv, 'foreign')
    if isinstance(v, Ptr):
        if v.kind == 'raw':
            interp.adopt(v)
        return v if v.kind in ('shared', 'foreign') else Ptr(v.lv, 'shared')
    return v


def convert(interp, v, t):
    t = strip(t)
    if t.startswith('Eigen::'):
        return norm_type(interp, v, t)
    if t.startswith(('std::shared_ptr<',)) and isinstance(v, Ptr):
        return own(interp, [v])
    if isinstance(v, BN) and t in ('int', 'double', 'unsigned int', 'float'):
        return T.ite(v, ONE, ZERO)
    if isinstance(v, P) and t == 'bool':
        return interp.tobool(v)
    if isinstance(v, P) and t in ('int', 'unsigned int', 'long', 'unsigned long') and not isint_p(v):
        return interp.trunc_int(v)
    return v


def isint_p(v):
    return all(c.denominator == 1 and all(b.facts.get('int') for b, e in m) for m, c in v.t)


def eigen_ctor(interp, t, vals, pt):
    vals = [interp.num(x) if isinstance(x, BN) else x for x in vals]
    s = shape(t)
    if not vals:
        return eigen_default(t, 'local')
    if t.startswith('Eigen::Quaternion<'):
        if len(vals) == 4:
            return T.q4(*vals)
        return dist(interp, vals[0], lambda x: toq(interp, x))
    if t.startswith('Eigen::AngleAxis<'):
        if len(vals) == 2:
            return AA(vals[0], interp.tov(vals[1]))
        v = vals[0]
        if isinstance(v, M):
            v = toq(interp, v)
        return dist(interp, v, lambda x: aa_of_q(x) if isinstance(x, Q) else x)
    if t.startswith('Eigen::DiagonalMatrix<'):
        if len(vals) == 3:
            return T.mdiag(*vals)
        v = vals[0]
        if isinstance(v, (V, Arr)):
            return T.mdiag(*interp.comps(v))
        return v
    if t.startswith('Eigen::Translation'):
        return Opq('translation')
    if t.startswith('Eigen::Map<') and vals and isinstance(vals[0], Ptr) and isinstance(vals[0].lv, LV):
        ms = shape(strip(tmpl_args(t)[0]))
        ks = [interp.index(x) for x in vals[1:] if isinstance(x, P)]
        p = vals[0].lv
        if ms and all(isinstance(k, int) for k in ks) and p.path and p.path[-1][0] == 'e' and interp.index(idx(interp, p.path[-1][1])) == 0:
            r, c = ms
            if len(ks) == 2:
                r, c = ks
            elif len(ks) == 1:
                r, c = (ks[0], c) if r < 0 else (r, ks[0])
            if r >= 0 and c >= 0:
                return LV(p.root, p.path[:-1] + (('map', r, c),))
    if s is None:
        if len(vals) == 1:
            return vals[0]
        return Opq('object of type ' + t)
    r, c = s
    if len(vals) == 1:
        v = vals[0]
        if isinstance(v, P):
            integral = not pt or strip(pt[0]) in ('int', 'unsigned int', 'long', 'unsigned long')
            k = interp.index(v) if T.cval(v) is not None else (v if leaves(v) is None else None)
            if r < 0 and c == 1 or r == 1 and c < 0:
                if not isinstance(k, int):
                    raise Undecided('array of symbolic size at %s' % interp.loc)
                xs = [undef_p('array[%d]' % i) for i in range(k)]
                return interp.mkvec(xs) if k == 3 and c == 1 else Arr(k, 1, xs) if c == 1 else Arr(1, k, xs)
            if (r, c) == (1, 1):
                return Arr(1, 1, [v])
            return eigen_default(t, 'local')
        if isinstance(v, Seq):
            return interp.mkvec(list(v.items))
        if isinstance(v, Ptr) and isinstance(v.lv, LV):
            xs = [interp.read(v.lv + ('e', i)) for i in range(r * c)] if r > 0 and c > 0 else None
            if xs:
                return block_val(interp, r, c, xs)
        return norm_type(interp, v, t)
    if (r < 0 or c < 0) and c != 1 and r != 1 and len(vals) == 2:
        R, C = interp.index(vals[0]), interp.index(vals[1])
        if not isinstance(R, int) or not isinstance(C, int):
            raise Undecided('matrix of symbolic size at %s' % interp.loc)
        if R == 3:
            return C3([undef_v('matrix.col%d' % j) for j in range(C)])
        return Arr(R, C, [undef_p('matrix') for _ in range(R * C)])
    if all(isinstance(x, (P, G)) for x in vals):
        if r * c == len(vals) or r == -1:
            if (r, c) == (1, 3):
                return RowV(T.vec3(*vals))
            return interp.mkvec(list(vals), row=r == 1)
    return Opq('object of type ' + t)
