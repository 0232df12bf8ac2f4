"""Abstract values of the interpreter (immutable), lvalues, access paths and merges."""
from . import terms as T
from .terms import P, V, M, Q, BN, TRUE, FALSE, F, ZERO, ONE


class Undecided(Exception):
    pass


class Rec:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % x for x in self.f.items()))


class Seq:
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.items))


class Map:
    """ordered by key; items (key, value)"""
    __slots__ = ('items', 'isset')

    def __init__(self, items=(), isset=False):
        self.items = tuple(items)
        self.isset = isset

    def __repr__(self):
        return 'map{%s}' % ', '.join('%r:%r' % x for x in self.items)


class Str:
    __slots__ = ('p',)

    def __init__(self, *parts):
        out = []
        for x in parts:
            if isinstance(x, str):
                if x == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        self.p = tuple(out)

    def lit(self):
        if len(self.p) == 0:
            return ''
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return '"%s"' % ''.join(x if isinstance(x, str) else '<%s>' % (x[1],) for x in self.p)


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def __add__(self, acc):
        return LV(self.root, self.path + (acc,))

    def __eq__(self, o):
        return isinstance(o, LV) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return '&%s%s' % (self.root, ''.join('.' + str(a[1] if len(a) > 1 else a[0]) for a in self.path))


class LVG:
    """conditional lvalue"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __add__(self, acc):
        return LVG(self.c, self.a + acc, self.b + acc)

    def __eq__(self, o):
        return isinstance(o, LVG) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class Ptr:
    __slots__ = ('lv', 'kind')

    def __init__(self, lv, kind='raw'):
        self.lv, self.kind = lv, kind

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return 'null' if self.lv is None else '*%r' % (self.lv,)


class It:
    __slots__ = ('lv', 'i')

    def __init__(self, lv, i):
        self.lv, self.i = lv, i

    def __eq__(self, o):
        return isinstance(o, It) and self.lv == o.lv and self.i == o.i

    def __hash__(self):
        return hash((self.lv, self.i))


class BackIns:
    __slots__ = ('lv', 'front')

    def __init__(self, lv, front=False):
        self.lv, self.front = lv, front


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Clo:
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FnRef:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FnRef) and self.fn.get('q') == o.fn.get('q')

    def __hash__(self):
        return hash(self.fn.get('q'))


class G:
    """value selected by a condition when no native merge exists"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return '{%s ? %r : %r}' % (T.show_b(self.c), self.a, self.b)


class C3:
    """3 x n matrix, columns are V"""
    __slots__ = ('cols',)

    def __init__(self, cols):
        self.cols = tuple(cols)

    def __repr__(self):
        return 'C3[%s]' % '; '.join(map(repr, self.cols))


class Arr:
    """r x c array of scalars (or booleans), column major"""
    __slots__ = ('r', 'c', 'items')

    def __init__(self, r, c, items):
        self.r, self.c, self.items = r, c, tuple(items)

    def __repr__(self):
        return 'Arr%dx%d[%s]' % (self.r, self.c, ', '.join(map(repr, self.items)))


class RowV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class AA:
    __slots__ = ('ang', 'axis')

    def __init__(self, ang, axis):
        self.ang, self.axis = ang, axis


class Comma:
    __slots__ = ('lv', 'items', 'ref')

    def __init__(self, lv, items, ref):
        self.lv, self.items, self.ref = lv, items, ref


class Stream:
    __slots__ = ('toks',)

    def __init__(self, toks=()):
        self.toks = tuple(toks)

    def __repr__(self):
        return 'Stream%r' % (self.toks,)


class Opq:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opq(%s)' % self.why


_unk = [0]


def unk_base(why, facts=None):
    _unk[0] += 1
    b = T.base('atom', ('unknown', str(why), _unk[0]))
    b.facts['unknown'] = True
    if facts:
        b.facts.update(facts)
    return b


def undef_base(why):
    _unk[0] += 1
    b = T.base('atom', ('undef', str(why), _unk[0]))
    b.facts['undef'] = True
    return b


def undef_p(why):
    return T.pb(undef_base(why))


def undef_v(why):
    return T.vec3(undef_p(why + '.x'), undef_p(why + '.y'), undef_p(why + '.z'))


def undef_arr(r, c, why):
    if r == 3:
        if c == 1:
            return undef_v(why)
        return C3([undef_v('%s.col%d' % (why, j)) for j in range(c)])
    return Arr(r, c, [undef_p('%s[%d]' % (why, i)) for i in range(r * c)])


# ---------------------------------------------------------------- integers with conditional values
def leaves(p, limit=64):
    """[(condition, Fraction)] for a value that is a choice between constants, else None"""
    out = []

    def rec(p, c):
        v = T.cval(p)
        if v is not None:
            out.append((c, v))
            return len(out) <= limit
        for m, k in p.t:
            for b, e in m:
                if b.kind == 'ite':
                    cnd = b.args[0]
                    for val, cc in ((True, cnd), (False, T.b_not(cnd))):
                        nc = T.b_and(c, cc)
                        if nc is FALSE:
                            continue
                        if not rec(T.assume_b(p, b, val), nc):
                            return False
                    return True
        return False
    if not rec(p, TRUE):
        return None
    return out


def map_leaves(p, f):
    """apply an integer function to a constant or a choice of constants"""
    v = T.cval(p)
    if v is not None:
        return T.const(f(v))
    for m, k in p.t:
        for b, e in m:
            if b.kind == 'ite':
                x = map_leaves(T.assume_b(p, b, True), f)
                y = map_leaves(T.assume_b(p, b, False), f)
                if x is None or y is None:
                    return None
                return T.ite(b.args[0], x, y)
    return None


# ---------------------------------------------------------------- merge
def merge(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, P) and isinstance(b, P):
        return T.ite(c, a, b)
    if isinstance(a, BN) and isinstance(b, BN):
        return T.b_ite(c, a, b)
    if isinstance(a, V) and isinstance(b, V):
        return T.vite(c, a, b)
    if isinstance(a, M) and isinstance(b, M):
        return T.mite(c, a, b)
    if isinstance(a, Q) and isinstance(b, Q):
        return T.qite(c, a, b)
    if type(a) is type(b):
        if isinstance(a, Rec) and a.cls == b.cls and a.f.keys() == b.f.keys():
            return Rec(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Seq) and len(a.items) == len(b.items):
            return Seq([merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Tup) and len(a.items) == len(b.items):
            return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, C3) and len(a.cols) == len(b.cols):
            return C3([merge(c, x, y) for x, y in zip(a.cols, b.cols)])
        if isinstance(a, Arr) and (a.r, a.c) == (b.r, b.c):
            return Arr(a.r, a.c, [merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, RowV):
            return RowV(merge(c, a.v, b.v))
        if isinstance(a, AA):
            return AA(T.ite(c, a.ang, b.ang), T.vite(c, a.axis, b.axis))
        if isinstance(a, (Str, It, LV, LVG)) and a == b:
            return a
        if isinstance(a, (Clo, FnRef)) and (a is b or a == b):
            return a
        if isinstance(a, Map) and len(a.items) == len(b.items) and all(x[0] == y[0] for x, y in zip(a.items, b.items)):
            return Map([(x[0], merge(c, x[1], y[1])) for x, y in zip(a.items, b.items)], a.isset)
        if isinstance(a, Stream):
            if a.toks == b.toks:
                return a
            n = 0
            while n < min(len(a.toks), len(b.toks)) and a.toks[n] == b.toks[n]:
                n += 1
            return Stream(a.toks[:n] + (('choice', c, a.toks[n:], b.toks[n:]),))
        if isinstance(a, Ptr):
            if a.lv == b.lv:
                return a
            if a.lv is None or b.lv is None:
                return G(c, a, b)
            return Ptr(merge_lv(c, a.lv, b.lv), a.kind)
    if isinstance(a, V) and isinstance(b, Arr) and (b.r, b.c) == (3, 1):
        return T.vite(c, a, T.vec3(*b.items))
    if isinstance(b, V) and isinstance(a, Arr) and (a.r, a.c) == (3, 1):
        return T.vite(c, T.vec3(*a.items), b)
    if isinstance(a, (LV, LVG)) and isinstance(b, (LV, LVG)):
        return merge_lv(c, a, b)
    if isinstance(a, Opq):
        return a
    if isinstance(b, Opq):
        return b
    return G(c, a, b)


def merge_lv(c, a, b):
    if a == b:
        return a
    return LVG(c, a, b)


def cofactor(v, c, val):
    """value under the assumption that c has the truth value val (only for G / LVG tops)"""
    while isinstance(v, (G, LVG)):
        if v.c is c:
            v = v.a if val else v.b
        else:
            break
    return v
