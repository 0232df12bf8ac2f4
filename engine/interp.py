"""Structured abstract interpreter over the extracted program.

Every join of control flow merges the two states with conditional (gamma) values, so the result of a
function is one value graph, normalised by engine.terms.  Nothing is executed and no path is enumerated.
"""
import json
from . import terms as T
from .terms import P, V, M, Q, BN, TRUE, FALSE, F, ZERO, ONE
from .values import *
from . import libmodel

ROOTNS = 'DynamicObstacleAvoidance'
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char',
        'long long', 'unsigned long long'}
FLOATS = {'double', 'float', 'long double'}


class Dead(Exception):
    """no execution continues from here"""


def type_like(pat, t):
    """the pattern names the parameter type (plain numbers exactly: not inside a template argument)"""
    return pat == t.replace('const ', '').rstrip(' &') if pat in ('double', 'int', 'bool') else pat in t


def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for s in (' &&', ' &', '&&', '&', ' const'):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


class State:
    __slots__ = ('st', 'pc')

    def __init__(self, st, pc):
        self.st, self.pc = st, pc

    def copy(self, pc=None):
        return State(dict(self.st), self.pc if pc is None else pc)


def constrain(f, c):
    """generalised cofactor: agrees with f wherever c holds"""
    if c is TRUE or f is TRUE or f is FALSE or c is FALSE:
        return f
    if f is c:
        return TRUE
    k = (f, c)
    r = _cmemo.get(k)
    if r is None:
        top = min((n.a.id, n.a) for n in (f, c) if n.a is not None)[1]
        fh, fl = T._cof(f, top, True), T._cof(f, top, False)
        ch, cl = T._cof(c, top, True), T._cof(c, top, False)
        if ch is FALSE:
            r = constrain(fl, cl)
        elif cl is FALSE:
            r = constrain(fh, ch)
        else:
            r = T._bn(top, constrain(fh, ch), constrain(fl, cl))
        _cmemo[k] = r
    return r


_cmemo = {}
_feas = {}


def feasible(b, cap=200):
    """False when every way of making b true contradicts the numeric bounds of its atoms"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    r = _feas.get(b)
    if r is not None:
        return r
    n = [0]

    def rec(x, con):
        if x is FALSE:
            return False
        if x is TRUE:
            return True
        n[0] += 1
        if n[0] > cap:
            return True
        for v, y in ((True, x.h), (False, x.l)):
            if y is FALSE:
                continue
            c2 = con.copy()
            if not c2.add(x.a, v):
                continue
            if rec(y, c2):
                return True
        return False
    r = rec(b, T.Constr())
    _feas[b] = r
    return r


def idxp(i):
    return T.const(i) if isinstance(i, int) else i


class Program:
    """merged extraction of all translation units"""

    def __init__(self, files):
        self.funcs, self.records, self.vars = {}, {}, {}
        for name, d in files:
            for u, f in d['funcs'].items():
                old = self.funcs.get(u)
                if old is None or (old.get('body') is None and f.get('body') is not None):
                    f['tu'] = name
                    self.funcs[u] = f
            for q, r in d['records'].items():
                self.records.setdefault(q, r)
            for u, v in d['vars'].items():
                v['tu'] = name
                self.vars.setdefault(v['q'], v)
        self.byq = {}
        for u, f in self.funcs.items():
            self.byq.setdefault(f['q'], []).append(f)
            f['usr'] = u
        self._over = {}
        self.methods = {}
        for q, r in self.records.items():
            for m in r['methods']:
                if 'usr' in m:
                    self.methods[m['usr']] = m

    def bases(self, cls):
        r = self.records.get(cls)
        out = []
        for b in (r['bases'] if r else []):
            out.append(b)
            out += self.bases(b)
        return out

    def is_a(self, cls, base):
        return cls == base or base in self.bases(cls)

    def overrides(self, usr):
        """transitive set of methods that usr overrides"""
        r = self._over.get(usr)
        if r is None:
            r = set()
            m = self.methods.get(usr)
            for o in (m.get('over') if m else []) or []:
                r.add(o)
                r |= self.overrides(o)
            self._over[usr] = r
        return r

    def resolve(self, cls, usr):
        """final overrider of the virtual method usr in the dynamic class cls"""
        for c in [cls] + self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m.get('usr') == usr or (m.get('usr') and usr in self.overrides(m['usr'])):
                    return m
        return None

    def fields(self, cls):
        """all data members, bases first"""
        r = self.records.get(cls)
        if r is None:
            return []
        out = []
        for b in r['bases']:
            out += self.fields(b)
        return out + r['fields']

    def find(self, q, n=None, pt=None):
        """functions with the qualified name (optionally n parameters / parameter types containing)"""
        out = []
        for f in self.byq.get(ROOTNS + '::' + q if not q.startswith(ROOTNS) else q, []):
            if n is not None and len(f['pt']) != n:
                continue
            if pt is not None and not all(type_like(x, y) for x, y in zip(pt, f['pt'])):
                continue
            out.append(f)
        return out


class Frame:
    __slots__ = ('id', 'env', 'this', 'fn', 'rets', 'rref', 'loops')

    def __init__(self, id, fn):
        self.id, self.fn = id, fn
        self.env = {}
        self.this = None
        self.rets = []
        self.rref = False
        self.loops = []


class Interp:
    MAXSYM = 12
    MAXIT = 2500

    def __init__(self, prog, hooks=None, absm=None, sample=False, maxsteps=3000000, fp=False):
        self.p = prog
        self.s = State({}, TRUE)
        self.hooks = hooks or {}
        self.absm = absm or {}
        self.sample = sample
        self.fp = fp
        self.nroot = 0
        self.events = []
        self.raws = []
        self.owned = {}
        self.throws = []
        self.frames = []
        self.steps = 0
        self.maxsteps = maxsteps
        self.visited = set()
        self.trunc = False
        self.unknowns = []
        self.loc = ''
        self.depth = 0
        self.sampled = set()
        self.norms = []
        self.nrand = 0
        self.new_streams()

    def new_streams(self):
        for n in ('cout', 'cerr', 'clog'):
            self.s.st[('G', 'std::' + n)] = Stream()

    # ------------------------------------------------------------ store
    def fresh(self, tag='T'):
        self.nroot += 1
        return (tag, self.nroot)

    def alloc(self, val, tag='T'):
        r = self.fresh(tag)
        self.s.st[r] = val
        return LV(r)

    def sides(self, c, fa, fb):
        """value selected by c, each side observed under its condition"""
        pc = self.s.pc
        a = b = None
        try:
            ca = T.b_and(pc, c)
            if feasible(ca):
                self.s.pc = ca
                a = fa()
            cb = T.b_and(pc, T.b_not(c))
            if feasible(cb):
                self.s.pc = cb
                b = fb()
        finally:
            self.s.pc = pc
        if a is None and b is None:
            return fa()
        return self.mval(c, a, b)

    def read(self, lv):
        if isinstance(lv, LVG):
            return self.sides(lv.c, lambda: self.read(lv.a), lambda: self.read(lv.b))
        if not isinstance(lv, LV):
            raise Undecided('not an lvalue: %r at %s' % (lv, self.loc))
        if lv.root not in self.s.st:
            raise Undecided('read of a dead object %r at %s' % (lv, self.loc))
        v = self.s.st[lv.root]
        for a in lv.path:
            v = self.get(v, a)
        return v

    def write(self, lv, val):
        if isinstance(lv, LVG):
            self.write(lv.a, merge(lv.c, val, self.read(lv.a)))
            self.write(lv.b, merge(lv.c, self.read(lv.b), val))
            return
        if not isinstance(lv, LV):
            raise Undecided('write to a non lvalue at %s' % self.loc)
        if not lv.path:
            self.s.st[lv.root] = val
        else:
            if lv.root not in self.s.st:
                raise Undecided('write to a dead object %r at %s' % (lv, self.loc))
            self.s.st[lv.root] = self.put(self.s.st[lv.root], lv.path, val)

    def put(self, v, path, new):
        if not path:
            return new
        a = path[0]
        if len(path) > 1:
            new = self.put(self.get(v, a), path[1:], new)
        return self.put1(v, a, new)

    def oob(self, i, n, what):
        self.event('oob', '%s[%s] of size %s' % (what, i, n))
        return unk_base('out of range access at %s' % self.loc)

    def plus(self, i, k):
        i = self.index(i)
        return i + k if isinstance(i, int) else T.add(i, T.const(k))

    def index(self, i):
        if isinstance(i, int):
            return i
        c = T.cval(i)
        if c is not None:
            if c.denominator != 1:
                raise Undecided('fractional index at %s' % self.loc)
            return int(c)
        return i

    def get(self, v, a):
        if isinstance(v, G):
            return self.sides(v.c, lambda: self.get(v.a, a), lambda: self.get(v.b, a))
        k = a[0]
        if k == 'f':
            if isinstance(v, Rec):
                if a[1] in v.f:
                    return v.f[a[1]]
                raise Undecided('unknown field %s at %s' % (a[1], self.loc))
            if isinstance(v, Tup):
                return v.items[0 if a[1] == 'first' else 1]
            raise Undecided('field %s of %s at %s' % (a[1], type(v).__name__, self.loc))
        if k == 't':
            if isinstance(v, Tup):
                return v.items[a[1]]
            raise Undecided('tuple element of %s at %s' % (type(v).__name__, self.loc))
        if k == 'e':
            return self.elem(v, a[1])
        if k == 'rc':
            return self.elem2(v, a[1], a[2])
        if k == 'col':
            return self.col(v, a[1])
        if k == 'row':
            if isinstance(v, C3):
                return Arr(1, len(v.cols), [T.vcomp(c, a[1]) for c in v.cols])
            if isinstance(v, M):
                return RowV(T.mvec(T.mT(v), T.ev(a[1])))
            if isinstance(v, Arr):
                return Arr(1, v.c, [v.items[j * v.r + a[1]] for j in range(v.c)])
        if k == 'map':
            from . import libmodel
            n = a[1] * a[2]
            xs = list(v.items) if isinstance(v, (Seq, Tup)) else self.comps_all(v)
            if n > len(xs):
                self.event('oob', 'view of %d elements of %d' % (n, len(xs)))
                raise Undecided('view out of range')
            return libmodel.block_val(self, a[1], a[2], xs[:n])
        if k == 'blk':
            i, j, r, c = a[1:]
            from . import libmodel
            return libmodel.block_val(self, r, c, [self.elem2(v, self.plus(i, y), self.plus(j, x)) for x in range(c) for y in range(r)])
        if k == 'seg':
            xs = self.comps(v)
            if a[1] < 0 or a[1] + a[2] > len(xs):
                self.event('oob', 'segment')
                raise Undecided('segment out of range')
            return self.mkvec(xs[a[1]:a[1] + a[2]])
        if k == 'q':
            if isinstance(v, Q):
                return T.qcomp(v, a[1])
        if k == 'qvec':
            if isinstance(v, Q):
                return T.vec3(*[T.qcomp(v, n) for n in 'xyz'])
        if k == 'ang' and isinstance(v, AA):
            return v.ang
        if k == 'axis' and isinstance(v, AA):
            return v.axis
        if k == 'diag':
            if isinstance(v, M):
                return T.vec3(*[T.vcomp(T.mcol(v, i), i) for i in range(3)])
        if k == 'kv':
            return Tup(v.items[a[1]])
        raise Undecided('access %s of %s at %s' % (k, type(v).__name__, self.loc))

    def comps(self, v):
        if isinstance(v, V):
            return [T.vcomp(v, i) for i in range(3)]
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, RowV):
            return self.comps(v.v)
        if isinstance(v, G):
            x, y = self.comps(v.a), self.comps(v.b)
            if len(x) == len(y):
                return [merge(v.c, p, q) for p, q in zip(x, y)]
        raise Undecided('components of %s at %s' % (type(v).__name__, self.loc))

    def comps_all(self, v):
        if isinstance(v, M):
            return [T.vcomp(T.mcol(v, j), i) for j in range(3) for i in range(3)]
        if isinstance(v, C3):
            return [T.vcomp(c, i) for c in v.cols for i in range(3)]
        return self.comps(v)

    def mkvec(self, xs, row=False):
        if len(xs) == 3 and not row and all(isinstance(x, P) for x in xs):
            return T.vec3(*xs)
        return Arr(1, len(xs), xs) if row else Arr(len(xs), 1, xs)

    def size_of(self, v):
        if isinstance(v, V):
            return 3
        if isinstance(v, Arr):
            return len(v.items)
        if isinstance(v, (Seq, Map)):
            return len(v.items)
        if isinstance(v, C3):
            return 3 * len(v.cols)
        if isinstance(v, M):
            return 9
        if isinstance(v, RowV):
            return self.size_of(v.v)
        if isinstance(v, Tup):
            return len(v.items)
        raise Undecided('size of %s at %s' % (type(v).__name__, self.loc))

    def pick(self, i, n, f, what):
        """f(k) selected by the index value i"""
        i = self.index(i)
        if isinstance(i, int):
            if i < 0 or i >= n:
                return self.from_unk(f, n, self.oob(i, n, what))
            return f(i)
        ls = leaves(i)
        if ls is None:
            raise Undecided('symbolic index %s at %s' % (T.show(i), self.loc))
        r = None
        for c, k in ls:
            k = int(k)
            if not feasible(T.b_and(self.s.pc, c)):
                continue
            if k < 0 or k >= n:
                self.event('oob', '%s[%s] of size %s' % (what, k, n), T.b_and(self.s.pc, c))
                continue
            x = f(k)
            r = x if r is None else merge(c, x, r)
        if r is None:
            raise Undecided('no valid index at %s' % self.loc)
        return r

    def from_unk(self, f, n, b):
        if n > 0:
            x = f(0)
            return self.like(x, b)
        return Opq('out of range')

    def like(self, x, b):
        if isinstance(x, P):
            return T.pb(b)
        if isinstance(x, V):
            return T.vscale(T.vatom(('unknown', b.id)), T.pb(b))
        if isinstance(x, BN):
            return T.bpred('unknown', b)
        return Opq('unknown')

    def elem(self, v, i):
        if isinstance(v, G):
            return self.sides(v.c, lambda: self.elem(v.a, i), lambda: self.elem(v.b, i))
        if isinstance(v, V):
            return self.pick(i, 3, lambda k: T.vcomp(v, k), 'vector')
        if isinstance(v, RowV):
            return self.elem(v.v, i)
        if isinstance(v, (Seq, Arr)):
            return self.pick(i, len(v.items), lambda k: v.items[k], 'container')
        if isinstance(v, Map):
            return self.pick(i, len(v.items), lambda k: Tup(v.items[k]) if not v.isset else v.items[k][0], 'map')
        if isinstance(v, Tup):
            return self.pick(i, len(v.items), lambda k: v.items[k], 'array')
        if isinstance(v, Str):
            s = v.lit()
            i = self.index(i)
            if s is not None and isinstance(i, int):
                if i == len(s):
                    return ZERO
                if 0 <= i < len(s):
                    return T.const(ord(s[i]))
                return T.pb(self.oob(i, len(s), 'string'))
            return T.pb(unk_base('character of a string'))
        if isinstance(v, C3) and len(v.cols) == 1:
            return self.elem(v.cols[0], i)
        if isinstance(v, Ptr):
            raise Undecided('pointer arithmetic at %s' % self.loc)
        raise Undecided('element of %s at %s' % (type(v).__name__, self.loc))

    def elem2(self, v, r, c):
        if isinstance(v, G):
            return self.sides(v.c, lambda: self.elem2(v.a, r, c), lambda: self.elem2(v.b, r, c))
        if isinstance(v, M):
            return self.pick(c, 3, lambda j: self.pick(r, 3, lambda i: T.vcomp(T.mcol(v, j), i), 'row'), 'column')
        if isinstance(v, C3):
            return self.pick(c, len(v.cols), lambda j: self.pick(r, 3, lambda i: T.vcomp(v.cols[j], i), 'row'), 'column')
        if isinstance(v, Arr):
            return self.pick(c, v.c, lambda j: self.pick(r, v.r, lambda i: v.items[j * v.r + i], 'row'), 'column')
        if isinstance(v, V):
            return self.pick(r, 3, lambda i: T.vcomp(v, i), 'row')
        if isinstance(v, RowV):
            return self.pick(c, 3, lambda i: T.vcomp(v.v, i), 'column')
        raise Undecided('element of %s at %s' % (type(v).__name__, self.loc))

    def col(self, v, j):
        if isinstance(v, G):
            return self.sides(v.c, lambda: self.col(v.a, j), lambda: self.col(v.b, j))
        if isinstance(v, C3):
            return self.pick(j, len(v.cols), lambda k: v.cols[k], 'column')
        if isinstance(v, M):
            return self.pick(j, 3, lambda k: T.mcol(v, k), 'column')
        if isinstance(v, V):
            return v
        if isinstance(v, Arr):
            return self.pick(j, v.c, lambda k: self.mkvec(v.items[k * v.r:(k + 1) * v.r]), 'column')
        raise Undecided('column of %s at %s' % (type(v).__name__, self.loc))

    def put1(self, v, a, new):
        k = a[0]
        if isinstance(v, G):
            return self.sides(v.c, lambda: self.put1(v.a, a, new), lambda: self.put1(v.b, a, new))
        if k == 'f':
            if isinstance(v, Rec):
                return v.set(a[1], new)
            if isinstance(v, Tup):
                it = list(v.items)
                it[0 if a[1] == 'first' else 1] = new
                return Tup(it)
        elif k == 't' and isinstance(v, Tup):
            it = list(v.items)
            it[a[1]] = new
            return Tup(it)
        elif k == 'e':
            if isinstance(v, V):
                xs = self.upd([T.vcomp(v, i) for i in range(3)], a[1], new, 'vector')
                return T.vec3(*xs)
            if isinstance(v, RowV):
                return RowV(self.put1(v.v, a, new))
            if isinstance(v, Seq):
                return Seq(self.upd(list(v.items), a[1], new, 'container'))
            if isinstance(v, Tup):
                return Tup(self.upd(list(v.items), a[1], new, 'array'))
            if isinstance(v, Arr):
                return Arr(v.r, v.c, self.upd(list(v.items), a[1], new, 'array'))
            if isinstance(v, Map):
                i = self.index(a[1])
                it = list(v.items)
                it[i] = (it[i][0], new.items[1]) if isinstance(new, Tup) else it[i]
                return Map(it, v.isset)
            if isinstance(v, C3) and len(v.cols) == 1:
                return C3([self.put1(v.cols[0], a, new)])
        elif k == 'rc':
            if isinstance(v, M):
                cols = [T.mcol(v, j) for j in range(3)]
                j = self.index(a[2])
                if isinstance(j, int) and 0 <= j < 3:
                    cols[j] = self.put1(cols[j], ('e', a[1]), new)
                    return T.mcols(tuple(cols))
            if isinstance(v, C3):
                cols = list(v.cols)
                i = self.index(a[2])
                if isinstance(i, int):
                    if not 0 <= i < len(cols):
                        self.oob(i, len(cols), 'column')
                        return v
                    cols[i] = self.put1(cols[i], ('e', a[1]), new)
                    return C3(cols)
                ls = leaves(i)
                if ls is not None:
                    for c, kk in ls:
                        kk = int(kk)
                        if 0 <= kk < len(cols):
                            cols[kk] = merge(c, self.put1(cols[kk], ('e', a[1]), new), cols[kk])
                    return C3(cols)
            if isinstance(v, Arr):
                r, c = self.index(a[1]), self.index(a[2])
                if isinstance(r, int) and isinstance(c, int):
                    if not (0 <= r < v.r and 0 <= c < v.c):
                        self.oob((r, c), (v.r, v.c), 'array')
                        return v
                    it = list(v.items)
                    it[c * v.r + r] = new
                    return Arr(v.r, v.c, it)
            if isinstance(v, V):
                return self.put1(v, ('e', a[1]), new)
        elif k == 'col':
            if isinstance(v, M):
                cols = self.upd([T.mcol(v, j) for j in range(3)], a[1], self.tov(new), 'column')
                return T.mcols(tuple(cols))
            if isinstance(v, C3):
                return C3(self.upd(list(v.cols), a[1], self.tov(new), 'column'))
            if isinstance(v, V):
                return new
            if isinstance(v, Arr):
                j = self.index(a[1])
                xs = self.comps(new)
                it = list(v.items)
                it[j * v.r:(j + 1) * v.r] = xs
                return Arr(v.r, v.c, it)
        elif k == 'row':
            xs = self.comps(new)
            if isinstance(v, C3):
                return C3([self.put1(c, ('e', a[1]), x) for c, x in zip(v.cols, xs)])
            if isinstance(v, M):
                return T.mcols(tuple(self.put1(T.mcol(v, j), ('e', a[1]), xs[j]) for j in range(3)))
        elif k == 'map' and isinstance(v, (Seq, Tup)):
            ys = self.comps_all(new)
            return type(v)(ys + list(v.items)[len(ys):])
        elif k == 'blk':
            i, j, r, c = a[1:]
            xs = self.comps_all(new) if not isinstance(new, P) else [new] * (r * c)
            if len(xs) != r * c:
                self.event('shape', 'assignment of another size')
                raise Undecided('size mismatch at %s' % self.loc)
            for x in range(c):
                for y in range(r):
                    v = self.put1(v, ('rc', self.plus(i, y), self.plus(j, x)), xs[x * r + y])
            return v
        elif k == 'seg':
            xs = self.comps(v)
            ys = self.comps(new)
            xs[a[1]:a[1] + a[2]] = ys
            return self.mkvec(xs, isinstance(v, Arr) and v.r == 1 and v.c > 1)
        elif k == 'q' and isinstance(v, Q):
            c = {n: T.qcomp(v, n) for n in 'wxyz'}
            c[a[1]] = new
            return T.q4(c['w'], c['x'], c['y'], c['z'])
        elif k == 'qvec' and isinstance(v, Q):
            return T.q4(T.qcomp(v, 'w'), *self.comps(new))
        elif k == 'ang' and isinstance(v, AA):
            return AA(new, v.axis)
        elif k == 'axis' and isinstance(v, AA):
            return AA(v.ang, new)
        elif k == 'diag' and isinstance(v, M):
            return T.mdiag(*self.comps(new))
        raise Undecided('assignment through %s of %s at %s' % (k, type(v).__name__, self.loc))

    def tov(self, x):
        if isinstance(x, V):
            return x
        xs = self.comps(x)
        if len(xs) != 3:
            raise Undecided('size mismatch at %s' % self.loc)
        return T.vec3(*xs)

    def upd(self, xs, i, new, what):
        i = self.index(i)
        if isinstance(i, int):
            if not 0 <= i < len(xs):
                self.oob(i, len(xs), what)
                return xs
            xs[i] = new
            return xs
        ls = leaves(i)
        if ls is None:
            raise Undecided('symbolic index at %s' % self.loc)
        for c, k in ls:
            k = int(k)
            if not feasible(T.b_and(self.s.pc, c)):
                continue
            if not 0 <= k < len(xs):
                self.event('oob', '%s[%s] of size %s' % (what, k, len(xs)), T.b_and(self.s.pc, c))
                continue
            xs[k] = merge(c, new, xs[k])
        return xs

    # ------------------------------------------------------------ events
    def event(self, kind, data, pc=None):
        pc = self.s.pc if pc is None else pc
        self.events.append((kind, pc, data, self.loc, tuple(f.fn['q'] for f in self.frames if f.fn)))

    def throw(self, tt, val=None):
        self.throws.append({'pc': self.s.pc, 'type': tt, 'state': self.s.copy(), 'loc': self.loc, 'val': val,
                            'stack': tuple(f.fn['q'] for f in self.frames if f.fn)})
        raise Dead()

    # ------------------------------------------------------------ states
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        pc = T.b_or(a.pc, b.pc)
        c = constrain(a.pc, pc)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        st = {}
        for k, v in a.st.items():
            w = b.st.get(k, None)
            if w is None or v is w:
                st[k] = v
            else:
                st[k] = merge(c, v, w)
        for k, w in b.st.items():
            if k not in st:
                st[k] = w
        return State(st, pc)

    def simp(self, c):
        """condition under the current path condition"""
        c = constrain(c, self.s.pc)
        if c is TRUE or c is FALSE:
            return c
        if not feasible(T.b_and(self.s.pc, c)):
            return FALSE
        if not feasible(T.b_and(self.s.pc, T.b_not(c))):
            return TRUE
        return c

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, merge states and values"""
        c = self.simp(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        s0 = self.s
        outs = []
        for cc, f in ((c, fa), (T.b_not(c), fb)):
            self.s = s0.copy(T.b_and(s0.pc, cc))
            try:
                v = f()
                outs.append((self.s, v))
            except Dead:
                outs.append(None)
        if outs[0] is None and outs[1] is None:
            raise Dead()
        if outs[0] is None:
            self.s = outs[1][0]
            return outs[1][1]
        if outs[1] is None:
            self.s = outs[0][0]
            return outs[0][1]
        (sa, va), (sb, vb) = outs
        self.s = self.join(sa, sb)
        return self.mval(constrain(sa.pc, self.s.pc), va, vb)

    def mval(self, c, a, b):
        if a is None or b is None:
            return a if b is None else b
        return merge(c, a, b)

    # ------------------------------------------------------------ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('step budget exhausted')

    def xs(self, n):
        """execute; True when control continues after the statement"""
        if n is None:
            return True
        self.tick()
        try:
            return getattr(self, 'x_' + n['k'], self.x_unknown)(n)
        except Dead:
            return False

    def x_unknown(self, n):
        self.unknowns.append('statement %s at %s' % (n.get('c', n['k']), n.get('l')))
        if n.get('c') in ('GCCAsmStmt',):
            return True
        raise Undecided('statement %s at %s' % (n.get('c', n['k']), n.get('l')))

    def x_null(self, n):
        return True

    def x_block(self, n):
        for c in n['b']:
            if not self.xs(c):
                return False
        return True

    def x_expr(self, n):
        self.loc = n['l']
        self.ev(n['e'])
        return True

    def x_decl(self, n):
        for v in n['d']:
            self.decl(v)
        return True

    def decl(self, v):
        fr = self.frames[-1]
        self.loc = v['l']
        if v.get('static'):
            root = ('G', (fr.fn.get('usr') if fr.fn else '') + '/' + v['n'])
            if root not in self.s.st:
                self.event('static_init', v['n'])
                self.s.st[root] = self.initval(v)
            fr.env[v['id']] = LV(root)
            return
        if v.get('decomp'):
            init = v['init']
            if v.get('ref'):
                lv = self.lvx(init)
            else:
                lv = self.alloc(self.ev(init), 'L')
            self.bind_decomp(v, lv)
            return
        if v.get('ref'):
            fr.env[v['id']] = self.lvx(v['init'])
            return
        t = strip(v['t'])
        if 'init' in v and t.startswith(('Eigen::Block<', 'Eigen::VectorBlock<', 'Eigen::ArrayWrapper<', 'Eigen::Ref<', 'Eigen::Transpose<', 'Eigen::Diagonal<', 'Eigen::Map<')):
            ini = v['init']
            try:
                fr.env[v['id']] = self.lvx(self.skip_elide(ini))
                return
            except Undecided:
                pass
        fr.env[v['id']] = LV(('L', fr.id, v['id']))
        self.s.st[('L', fr.id, v['id'])] = self.initval(v)

    def skip_elide(self, e):
        while e.get('k') in ('mat', 'cast') or (e.get('k') == 'ctor' and (e.get('copy') or e.get('move')) and len(e['a']) == 1):
            e = e['e'] if 'e' in e else e['a'][0]
        return e

    def bind_decomp(self, v, lv):
        fr = self.frames[-1]
        val = self.read(lv)
        for i, b in enumerate(v['bindings']):
            if isinstance(val, Tup):
                acc = ('t', i)
            elif isinstance(val, Rec):
                acc = ('f', list(val.f)[i])
            elif isinstance(val, Seq):
                acc = ('e', i)
            else:
                raise Undecided('structured binding at %s' % self.loc)
            fr.env[b['id']] = lv + acc

    def initval(self, v):
        e = v.get('init')
        if e is None:
            return self.default(v['t'], v['n'], init=False)
        return self.conv(self.ev(e), v['t'])

    def conv(self, val, t):
        """adapt a value to a declared type (sizes of Eigen expressions)"""
        if isinstance(val, Comma):
            return self.read(val.lv)
        return val

    def default(self, t, why='', init=True):
        """value of a default initialised object of type t (init: value initialised)"""
        t = strip(t)
        if t.endswith('*'):
            return Ptr(None) if init else Opq('uninitialised pointer')
        if t in INTS or t in FLOATS:
            return ZERO if init else undef_p(why)
        if t == 'bool':
            return FALSE if init else T.cmp0(undef_p(why), '!=')
        if t.startswith(ROOTNS + '::') and t in self.p.records:
            return self.construct_default(t)
        if t.startswith('Eigen::'):
            return libmodel.eigen_default(t, why)
        r = libmodel.std_default(self, t, why)
        if r is not None:
            return r
        if t.endswith(']'):
            base, n = t[:t.rindex('[')].strip(), int(t[t.rindex('[') + 1:-1])
            return Seq([self.default(base, '%s[%d]' % (why, i), init) for i in range(n)])
        return Opq('default of ' + t)

    def x_if(self, n):
        self.loc = n['l']
        if n.get('init') is not None and not self.xs(n['init']):
            return False
        if n.get('cv') is not None and not self.xs(n['cv']):
            return False
        c = self.simp(self.cond(n['c']))
        if c is TRUE:
            return self.xs(n['a'])
        if c is FALSE:
            return self.xs(n.get('b'))
        s0 = self.s
        outs = []
        for cc, b in ((c, n['a']), (T.b_not(c), n.get('b'))):
            self.s = s0.copy(T.b_and(s0.pc, cc))
            env = dict(self.frames[-1].env)
            ok = self.xs(b)
            self.frames[-1].env = env
            outs.append(self.s if ok else None)
        s = self.join(*outs)
        if s is None:
            return False
        self.s = s
        return True

    def x_ret(self, n):
        self.loc = n['l']
        fr = self.frames[-1]
        v = None
        if n.get('e') is not None:
            if fr.rref:
                v = self.lvx(n['e'])
                self.check_dangling(v, fr)
            else:
                v = self.ev(n['e'])
                if isinstance(v, Comma):
                    v = self.read(v.lv)
                self.check_dangling_value(v, fr)
        fr.rets.append((self.s, v))
        return False

    def check_dangling(self, lv, fr):
        if isinstance(lv, LVG):
            self.check_dangling(lv.a, fr)
            self.check_dangling(lv.b, fr)
        elif isinstance(lv, LV) and (lv.root[0] == 'L' and lv.root[1] >= fr.id or lv.root[0] == 'T' and lv.root[1] > fr.id):
            self.event('dangling', 'reference to a local object returned')

    def check_dangling_value(self, v, fr):
        if isinstance(v, Ptr) and v.kind == 'raw' and v.lv is not None:
            self.check_dangling(v.lv, fr)

    def x_break(self, n):
        self.frames[-1].loops[-1][0].append(self.s)
        return False

    def x_continue(self, n):
        self.frames[-1].loops[-1][1].append(self.s)
        return False

    def loop_body(self, body):
        """one iteration; True when control reaches the increment"""
        fr = self.frames[-1]
        lp = fr.loops[-1]
        lp[1] = []
        env = dict(fr.env)
        ok = self.xs(body)
        fr.env = env
        s = self.s if ok else None
        for c in lp[1]:
            s = self.join(s, c)
        if s is None:
            return False
        self.s = s
        return True

    def run_loop(self, cond, body, inc, first_check=True):
        fr = self.frames[-1]
        fr.loops.append([[], []])
        exits = []
        nsym = nit = 0
        alive = True
        try:
            first = True
            while True:
                self.tick()
                if cond is not None and (first_check or not first):
                    c = self.simp(self.cond(cond))
                else:
                    c = TRUE
                first = False
                if c is FALSE:
                    break
                if c is not TRUE:
                    nsym += 1
                    if nsym > self.MAXSYM:
                        self.trunc = True
                        self.event('truncated', 'loop')
                        raise Undecided('loop with a symbolic bound at %s' % self.loc)
                    e = self.s.copy(T.b_and(self.s.pc, T.b_not(c)))
                    exits.append(e)
                    self.s = self.s.copy(T.b_and(self.s.pc, c))
                nit += 1
                if nit > self.MAXIT:
                    raise Undecided('loop does not end at %s' % self.loc)
                if not self.loop_body(body):
                    alive = False
                    break
                if inc is not None:
                    self.ev(inc)
        except Dead:
            alive = False
        lp = fr.loops.pop()
        s = self.s if alive else None
        for e in reversed(exits):
            s = self.join(e, s)
        for e in lp[0]:
            s = self.join(s, e)
        if s is None:
            return False
        self.s = s
        return True

    def x_for(self, n):
        env = dict(self.frames[-1].env)
        try:
            if n.get('init') is not None and not self.xs(n['init']):
                return False
            self.loc = n['l']
            if self.sample:
                r = self.sampled_for(n)
                if r is not None:
                    return r
            return self.run_loop(n.get('c'), n['b'], n.get('inc'))
        finally:
            self.frames[-1].env = env

    def x_while(self, n):
        return self.run_loop(n['c'], n['b'], None)

    def x_do(self, n):
        return self.run_loop(n['c'], n['b'], None, first_check=False)

    def sampled_for(self, n):
        c, inc = n.get('c'), n.get('inc')
        if not c or not inc or c['k'] != 'bin' or c['op'] not in ('<', '!=', '<='):
            return None
        if not (inc['k'] == 'un' and inc['op'] == '++' or inc['k'] == 'asg' and inc['op'] == '+='):
            return None
        tgt = inc['e'] if inc['k'] == 'un' else inc['a']
        if tgt['k'] != 'ref' or grows(n['b']):
            return None
        lhs = c['a']
        while lhs['k'] == 'cast':
            lhs = lhs['e']
        if lhs['k'] != 'ref' or lhs.get('id') != tgt.get('id'):
            return None
        lv = self.lvx(tgt)
        i0 = T.cval(self.read(lv))
        n1 = self.ev(c['b'])
        n1 = T.cval(n1) if isinstance(n1, P) else None
        if i0 is None or n1 is None:
            return None
        last = int(n1) - (0 if c['op'] == '<=' else 1)
        if last - i0 < 16:
            return None
        fr = self.frames[-1]
        fr.loops.append([[], []])
        ok = True
        for k in (int(i0), int(i0) + 1, int(i0) + 2, last):
            self.write(lv, T.const(k))
            self.sampled.add(k)
            try:
                ok = self.loop_body(n['b'])
            except Dead:
                ok = False
            if not ok:
                break
        lp = fr.loops.pop()
        s = self.s if ok else None
        if ok:
            self.write(lv, T.const(last + 1))
        for e in lp[0]:
            s = self.join(s, e)
        if s is None:
            return False
        self.s = s
        return True

    def x_forr(self, n):
        self.loc = n['l']
        return self.x_forr_lv(n, self.lvx(n['r']))

    def x_forr_lv(self, n, lv):
        fr = self.frames[-1]
        cont = self.read(lv)
        if isinstance(cont, G):
            c = self.simp(cont.c)
            s0 = self.s
            outs = []
            for cc, w in ((c, cont.a), (T.b_not(c), cont.b)):
                if cc is FALSE:
                    outs.append(None)
                    continue
                self.s = s0.copy(T.b_and(s0.pc, cc))
                self.write(lv, w)
                env = dict(fr.env)
                try:
                    ok = self.forr_over(n, lv)
                except Dead:
                    ok = False
                fr.env = env
                outs.append(self.s if ok else None)
            s = self.join(*outs)
            if s is None:
                return False
            self.s = s
            return True
        return self.forr_over(n, lv)

    def forr_over(self, n, lv):
        fr = self.frames[-1]
        cont = self.read(lv)
        if isinstance(cont, G):
            return self.x_forr_lv(n, lv)
        if isinstance(cont, V):
            size = 3
        else:
            size = self.size_of(cont)
        idx = range(size)
        if self.sample and size > 16 and not grows(n['b']):
            idx = [0, 1, 2, size - 1]
            self.sampled.update(idx)
        fr.loops.append([[], []])
        v = n['v']
        alive = True
        for i in idx:
            env = dict(fr.env)
            if v.get('decomp'):
                e = lv + ('e', i)
                if not v.get('ref'):
                    e = self.alloc(self.read(e), 'L')
                self.bind_decomp(v, e)
            elif v.get('ref'):
                fr.env[v['id']] = lv + ('e', i)
            else:
                root = ('L', fr.id, v['id'])
                self.s.st[root] = self.read(lv + ('e', i))
                fr.env[v['id']] = LV(root)
            try:
                alive = self.loop_body(n['b'])
            except Dead:
                alive = False
            fr.env = env
            if not alive:
                break
            now = self.read(lv)
            if not isinstance(now, G) and not isinstance(now, V) and self.size_of(now) != size:
                self.event('invalidated', 'container changes size while it is iterated')
                raise Undecided('container changes size while it is iterated at %s' % n['l'])
        lp = fr.loops.pop()
        s = self.s if alive else None
        for e in lp[0]:
            s = self.join(s, e)
        if s is None:
            return False
        self.s = s
        return True

    def x_switch(self, n):
        """cases of a block body; fallthrough supported"""
        val = self.ev(n['c'])
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        flat = []

        def flatten(st):
            if st is None:
                return
            if st['k'] in ('case', 'default'):
                flat.append((st, None))
                flatten(st['b'])
            else:
                flat.append((None, st))
        for st in body:
            flatten(st)
        fr = self.frames[-1]
        fr.loops.append([[], []])
        outer = fr.loops[-2] if len(fr.loops) > 1 else None
        conts = []
        matched = FALSE
        pend = self.s
        cur = None
        allc = FALSE
        for lab, st in flat:
            if lab is not None and lab['k'] == 'case':
                allc = T.b_or(allc, self.eqv(val, self.ev(lab['c'])))
        for lab, st in flat:
            if lab is not None:
                if lab['k'] == 'case':
                    self.s = pend
                    c = self.simp(self.eqv(val, self.ev(lab['c'])))
                else:
                    self.s = pend
                    c = self.simp(T.b_not(allc))
                if c is FALSE:
                    continue
                e = pend.copy(T.b_and(pend.pc, c))
                # entry joins whatever falls through
                cur = self.join(cur, e) if cur is not None else e
                continue
            if cur is None:
                continue
            self.s = cur
            cur = self.s if self.xs(st) else None
        rest = self.simp_state(pend, T.b_not(T.b_or(allc, TRUE if any(l and l['k'] == 'default' for l, s in flat) else FALSE)))
        lp = fr.loops.pop()
        if outer is not None:
            outer[1] += lp[1]
        s = cur
        for e in lp[0]:
            s = self.join(s, e)
        if rest is not None:
            s = self.join(s, rest)
        if s is None:
            return False
        self.s = s
        return True

    def simp_state(self, st, c):
        self.s = st
        c = self.simp(c)
        if c is FALSE:
            return None
        return st.copy(T.b_and(st.pc, c))

    def x_try(self, n):
        k0 = len(self.throws)
        ok = self.xs(n['b'])
        s = self.s if ok else None
        new = self.throws[k0:]
        del self.throws[k0:]
        for t in new:
            done = False
            for h in n['h']:
                ht = strip(h['v']['t']) if 'v' in h else None
                if ht is None or ht == strip(t['type']) or self.p.is_a(strip(t['type']), ht) or ht in ('std::exception',) or libmodel.std_exc_is(self.p, strip(t['type']), ht):
                    self.s = t['state']
                    if 'v' in h:
                        self.frames[-1].env[h['v']['id']] = self.alloc(t['val'] if t['val'] is not None else Opq('exception'))
                    if self.xs(h['b']):
                        s = self.join(s, self.s)
                    done = True
                    break
            if not done:
                self.throws.append(t)
        if s is None:
            return False
        self.s = s
        return True

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        return self.tobool(self.ev(e))

    def tobool(self, v):
        if isinstance(v, BN):
            return v
        if isinstance(v, P):
            return T.cmp0(v, '!=')
        if isinstance(v, Ptr):
            return FALSE if v.lv is None else TRUE
        if isinstance(v, G):
            return T.b_ite(v.c, self.tobool(v.a), self.tobool(v.b))
        if isinstance(v, (Clo, FnRef)):
            return TRUE
        if isinstance(v, Opq):
            return T.bpred('unknown', unk_base(v.why))
        raise Undecided('condition on %s at %s' % (type(v).__name__, self.loc))

    def eqv(self, a, b):
        if isinstance(a, G):
            return T.b_ite(a.c, self.eqv(a.a, b), self.eqv(a.b, b))
        if isinstance(b, G):
            return self.eqv(b, a)
        if isinstance(a, P) and isinstance(b, P):
            return T.cmp0(T.sub(a, b), '==')
        if isinstance(a, BN) and isinstance(b, BN):
            return T.b_ite(a, b, T.b_not(b))
        if isinstance(a, BN) and isinstance(b, P):
            return self.eqv(T.ite(a, ONE, ZERO), b)
        if isinstance(a, P) and isinstance(b, BN):
            return self.eqv(b, a)
        if isinstance(a, Str) and isinstance(b, Str):
            if a == b:
                return TRUE
            x, y = a.lit(), b.lit()
            if x is not None and y is not None:
                return FALSE
            # common literal prefix / suffix make some symbolic strings different
            return T.bpred('streq', *sorted([repr(a), repr(b)]))
        if isinstance(a, (Ptr, It)) and isinstance(b, (Ptr, It)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if isinstance(a.lv, LVG):
                    return T.b_ite(a.lv.c, self.eqv(Ptr(a.lv.a), b), self.eqv(Ptr(a.lv.b), b))
                if isinstance(b.lv, LVG):
                    return self.eqv(b, a)
            if isinstance(a, It) and isinstance(b, It) and a.lv == b.lv:
                return T.cmp0(T.sub(idxp(a.i), idxp(b.i)), '==')
            return TRUE if a == b else FALSE
        if isinstance(a, V) and isinstance(b, V):
            return T.b_and(*[self.eqv(x, y) for x, y in zip(self.comps(a), self.comps(b))])
        if isinstance(a, (Seq, Tup)) and isinstance(b, (Seq, Tup)):
            if len(a.items) != len(b.items):
                return FALSE
            return T.b_and(*[self.eqv(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Opq) or isinstance(b, Opq):
            return T.bpred('unknown', unk_base('comparison'))
        raise Undecided('comparison of %s and %s at %s' % (type(a).__name__, type(b).__name__, self.loc))

    def ltv(self, a, b):
        if isinstance(a, P) and isinstance(b, P):
            return T.cmp0(T.sub(a, b), '<')
        if isinstance(a, Str) and isinstance(b, Str):
            x, y = a.lit(), b.lit()
            if x is not None and y is not None:
                return TRUE if x < y else FALSE
            if a == b:
                return FALSE
            return T.bpred('strlt', repr(a), repr(b))
        if isinstance(a, G):
            return T.b_ite(a.c, self.ltv(a.a, b), self.ltv(a.b, b))
        if isinstance(b, G):
            return T.b_ite(b.c, self.ltv(a, b.a), self.ltv(a, b.b))
        if isinstance(a, BN):
            return self.ltv(T.ite(a, ONE, ZERO), b)
        if isinstance(b, BN):
            return self.ltv(a, T.ite(b, ONE, ZERO))
        if isinstance(a, It) and isinstance(b, It) and a.lv == b.lv:
            return T.cmp0(T.sub(idxp(a.i), idxp(b.i)), '<')
        if isinstance(a, (Tup, Seq)) and isinstance(b, (Tup, Seq)):
            r = FALSE
            eq = TRUE
            for x, y in zip(a.items, b.items):
                r = T.b_or(r, T.b_and(eq, self.ltv(x, y)))
                eq = T.b_and(eq, self.eqv(x, y))
            return r
        raise Undecided('order of %s and %s at %s' % (type(a).__name__, type(b).__name__, self.loc))

    def ev(self, e):
        self.tick()
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.unknown_expr(e)
        return m(e)

    def unknown_expr(self, e):
        self.unknowns.append('%s at %s' % (e.get('c', e['k']), e.get('l')))
        return self.unknown_value(e.get('t', ''), '%s at %s' % (e.get('c', e['k']), e.get('l')))

    def unknown_value(self, t, why):
        t = strip(t)
        b = unk_base(why)
        if t in INTS or t in FLOATS:
            return T.pb(b)
        if t == 'bool':
            return T.bpred('unknown', b)
        if t.startswith('Eigen::'):
            r = libmodel.eigen_unknown(t, b)
            if r is not None:
                return r
        if t == 'void':
            return None
        return Opq(why)

    def e_int(self, e):
        return T.const(int(e['v']))

    def e_char(self, e):
        return T.const(int(e['v']))

    def e_float(self, e):
        return T.lit(e['src']) if e.get('src') and (e['src'][0].isdigit() or e['src'][0] == '.') else self.floatlit(e['v'])

    def floatlit(self, v):
        x = float(v)
        if abs(x - 3.141592653589793) < 1e-15:
            return T.PI
        if abs(x - 1.5707963267948966) < 1e-15:
            return T.scale(T.PI, F(1, 2))
        if abs(x - 0.7853981633974483) < 1e-15:
            return T.scale(T.PI, F(1, 4))
        try:
            return T.lit(v)
        except Exception:
            return T.pb(unk_base('literal ' + v))

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_str(self, e):
        return Str(e['v'])

    def e_null(self, e):
        return Ptr(None)

    def e_this(self, e):
        return Ptr(self.frames[-1].this)

    def e_zero(self, e):
        return self.default(e['t'], 'zero')

    def e_sizeof(self, e):
        return T.pb(unk_base('sizeof'))

    def e_ref(self, e):
        if 'fn' in e:
            return FnRef(e['fn'])
        return self.read(self.lvx(e))

    def e_binding(self, e):
        return self.read(self.lvx(e))

    def e_member(self, e):
        if 'fn' in e:
            return FnRef(e['fn'])
        b = e['b']
        if not e['arrow'] and not b.get('lv') and b['k'] not in ('ref', 'member', 'mat'):
            v = self.ev(b)
            return self.get(v, ('f', e['f']))
        return self.read(self.lvx(e))

    def e_mat(self, e):
        return self.ev(e['e'])

    def e_stdinit(self, e):
        return self.ev(e['e'])

    def e_arrcopy(self, e):
        return self.ev(e['e'])

    def e_init(self, e):
        vals = [self.ev(a) for a in e['a']]
        t = strip(e['t'])
        if e.get('fs'):
            if t in self.p.records:
                return Rec(t, dict(zip(e['fs'], vals)))
            if len(vals) == 1 and t.startswith('std::array<'):
                return vals[0]
            return Tup(vals)
        if t in INTS or t in FLOATS or t == 'bool' or t.endswith('*'):
            return vals[0] if vals else self.default(t)
        return Seq(vals)

    def e_lambda(self, e):
        fr = self.frames[-1]
        env = {}
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                if c.get('copy'):
                    this = self.alloc(self.read(fr.this))
                continue
            if c['byref']:
                env[c['id']] = self.lvx(c['init'])
            else:
                env[c['id']] = self.alloc(self.ev(c['init']))
        return Clo(e, env, this)

    def e_sub(self, e):
        return self.read(self.lvx(e))

    def e_new(self, e):
        v = self.ev(e['e']) if e.get('e') is not None else self.default(e['at'], 'new')
        self.event('new', e['at'])
        lv = self.alloc(v, 'H')
        self.raws.append((lv.root, self.s.pc, self.loc, e['at']))
        return Ptr(lv)

    def e_delete(self, e):
        v = self.ev(e['e'])
        self.event('delete', v)
        self.release(v)
        return None

    # ownership: every object of the free store has one owner (a group of smart pointers), or is deleted by hand
    def adopt(self, p, what='a smart pointer'):
        if isinstance(p, G):
            self.sides(p.c, lambda: self.adopt(p.a, what), lambda: self.adopt(p.b, what))
            return
        lv = p.lv if isinstance(p, Ptr) else p
        if lv is None:
            return
        if isinstance(lv, LVG):
            self.sides(lv.c, lambda: self.adopt(lv.a, what), lambda: self.adopt(lv.b, what))
            return
        if lv.root[0] != 'H' or lv.path:
            self.event('ownership', '%s takes an object that it does not own' % what)
        elif lv.root in self.owned and feasible(T.b_and(self.owned[lv.root], self.s.pc)):
            self.event('ownership', '%s takes an object that already has an owner' % what)
        else:
            self.owned[lv.root] = T.b_or(self.owned.get(lv.root, FALSE), self.s.pc)

    def release(self, p):
        if isinstance(p, G):
            self.sides(p.c, lambda: self.release(p.a), lambda: self.release(p.b))
            return
        lv = p.lv if isinstance(p, Ptr) else p
        if lv is None:
            return
        if isinstance(lv, LVG):
            self.sides(lv.c, lambda: self.release(lv.a), lambda: self.release(lv.b))
            return
        if lv.root[0] != 'H' or lv.path:
            self.event('ownership', 'delete of an object that was not allocated')
        elif lv.root in self.owned and feasible(T.b_and(self.owned[lv.root], self.s.pc)):
            self.event('ownership', 'delete of an object that has an owner or was deleted before')
        else:
            self.owned[lv.root] = T.b_or(self.owned.get(lv.root, FALSE), self.s.pc)

    def e_throw(self, e):
        if e.get('e') is None:
            self.throw('rethrow')
        v = self.ev(e['e'])
        self.loc = e['l']
        self.throw(strip(e['tt']), v)

    def e_typeid(self, e):
        return Opq('typeid')

    def e_cond(self, e):
        c = self.cond(e['c'])
        return self.branch(c, lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    # casts -------------------------------------------------------
    def e_cast(self, e):
        ck = e['ck']
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived',
                  'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'IntegralCast', 'IntegralToFloating',
                  'FloatingCast', 'BuiltinFnToFnPtr', 'BitCast'):
            if ck == 'ArrayToPointerDecay' and e['e']['k'] != 'str':
                return Ptr(self.lvx(e['e']))
            v = self.ev(e['e'])
            if ck in ('IntegralCast', 'IntegralToFloating') and isinstance(v, BN):
                v = T.ite(v, ONE, ZERO)
            if ck == 'IntegralCast' and isinstance(v, P):
                v = self.wrap(v, strip(e['t']))
            return v
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck == 'FloatingToIntegral':
            v = self.ev(e['e'])
            return self.trunc_int(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(self.ev(e['e']))
        if ck in ('NullToPointer',):
            return Ptr(None)
        if ck == 'Dynamic':
            v = self.ev(e['e']) if e['t'].endswith('*') else None
            if v is None:
                lv = self.lvx(e['e'])
                return self.read(lv)
            return self.dyncast(v, strip(e['t'][:-1].strip()))
        if ck == 'LValueBitCast':
            return self.unknown_expr(e)
        return self.unknown_expr(e)

    def dyncast(self, p, cls):
        if isinstance(p, G):
            return merge(p.c, self.dyncast(p.a, cls), self.dyncast(p.b, cls))
        if p.lv is None:
            return p
        if isinstance(p.lv, LVG):
            return merge(p.lv.c, self.dyncast(Ptr(p.lv.a, p.kind), cls), self.dyncast(Ptr(p.lv.b, p.kind), cls))
        o = self.read(p.lv)
        if isinstance(o, Rec):
            return p if self.p.is_a(o.cls, cls) else Ptr(None, p.kind)
        return p

    def wrap(self, v, t):
        c = T.cval(v)
        if c is not None and c < 0:
            if t in ('unsigned int',):
                return T.const(c + 2 ** 32)
            if t in ('unsigned long', 'unsigned long long'):
                return T.const(c + 2 ** 64)
        if c is not None and c >= 2 ** 31 and t == 'int':
            return T.const(c - 2 ** 32 if c < 2 ** 32 else c)
        return v

    def trunc_int(self, v):
        if isinstance(v, BN):
            return T.ite(v, ONE, ZERO)
        if not isinstance(v, P):
            raise Undecided('conversion to integer at %s' % self.loc)
        r = map_leaves(v, lambda x: int(x))
        if r is not None:
            return r
        # integer valued terms stay as they are
        if all(c.denominator == 1 and all(b.facts.get('int') for b, e in m) for m, c in v.t):
            return v
        self.event('trunc', v)
        return T.pb(T.base('fn', 'trunc', v))

    # arithmetic --------------------------------------------------
    def isint(self, t):
        return strip(t) in INTS

    def num(self, v):
        if isinstance(v, BN):
            return T.ite(v, ONE, ZERO)
        return v

    def arith(self, op, a, b, t):
        a, b = self.num(a), self.num(b)
        if isinstance(a, (It, Ptr)) or isinstance(b, (It, Ptr)):
            return libmodel.iter_arith(self, op, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.unknown_value(t, 'arithmetic')
        if isinstance(a, G):
            return merge(a.c, self.arith(op, a.a, b, t), self.arith(op, a.b, b, t))
        if isinstance(b, G):
            return merge(b.c, self.arith(op, a, b.a, t), self.arith(op, a, b.b, t))
        if not isinstance(a, P) or not isinstance(b, P):
            raise Undecided('%s of %s and %s at %s' % (op, type(a).__name__, type(b).__name__, self.loc))
        integer = self.isint(t)
        if self.fp and not integer and op in '+-*/':
            return self.fparith(op, a, b)
        if op == '+':
            r = T.add(a, b)
        elif op == '-':
            r = T.sub(a, b)
        elif op == '*':
            r = T.mul(a, b)
        elif op == '/':
            if integer:
                return self.idiv(a, b, False)
            if b is ZERO:
                self.event('div0', 'division by a constant zero')
            return T.div(a, b)
        elif op == '%':
            return self.idiv(a, b, True)
        elif op in ('&', '|', '^'):
            la, lb = leaves(a), leaves(b)
            if la and lb and all(v in (0, 1) for c, v in la + lb):
                x, y = T.cmp0(a, '!='), T.cmp0(b, '!=')
                z = {'&': T.b_and(x, y), '|': T.b_or(x, y), '^': T.b_ite(x, T.b_not(y), y)}[op]
                return T.ite(z, ONE, ZERO)
            ca, cb = T.cval(a), T.cval(b)
            if ca is not None and cb is not None:
                ca, cb = int(ca), int(cb)
                return T.const({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
            return T.pb(unk_base('bit operation'))
        elif op in ('<<', '>>'):
            ca, cb = T.cval(a), T.cval(b)
            if ca is not None and cb is not None:
                return T.const(int(ca) << int(cb) if op == '<<' else int(ca) >> int(cb))
            return T.pb(unk_base('shift'))
        else:
            raise Undecided('operator %s at %s' % (op, self.loc))
        return self.wrap(r, strip(t)) if integer else r

    def fparith(self, op, a, b):
        """double arithmetic with rounding: exact where the result is exact for all values, opaque elsewhere"""
        x, y = T.cval(a), T.cval(b)
        if op == '/' and b is ZERO:
            self.event('div0', 'division by a constant zero')
            return T.div(a, b)
        if x is not None and y is not None:
            u, v = float(x), float(y)
            r = u + v if op == '+' else u - v if op == '-' else u * v if op == '*' else u / v
            if r - r == 0:
                return T.const(F(r))
        if op in '+-' and b is ZERO:
            return a
        if op == '+' and a is ZERO:
            return b
        if op == '-' and (a is ZERO or a is b):
            return T.neg(b) if a is ZERO else ZERO
        if op == '*' and (a is ZERO or b is ZERO) or op == '/' and a is ZERO:
            return ZERO
        if op in '*/' and y in (1, -1):
            return a if y == 1 else T.neg(a)
        if op == '*' and x in (1, -1):
            return b if x == 1 else T.neg(b)
        if op == '/' and a is b:
            return ONE
        return T.pb(T.base('fn', 'fl' + op, a, b))

    def idiv(self, a, b, rem):
        cb = T.cval(b)
        if cb is None:
            lb = leaves(b)
            if lb is None:
                return T.pb(T.base('fn', 'imod' if rem else 'idiv', a, b))
            r = None
            for c, k in lb:
                x = self.idiv(a, T.const(k), rem)
                r = x if r is None else T.ite(c, x, r)
            return r
        if cb == 0:
            self.event('div0', 'integer division by zero')
            return T.pb(unk_base('division by zero'))

        def f(x):
            q = abs(int(x)) // abs(int(cb))
            if (x < 0) != (cb < 0):
                q = -q
            return int(x) - q * int(cb) if rem else q
        r = map_leaves(a, f)
        if r is None:
            return T.pb(T.base('fn', 'imod' if rem else 'idiv', a, b))
        return r

    def e_un(self, e):
        op = e['op']
        self.loc = e['l']
        if op in ('++', '--'):
            lv = self.lvx(e['e'])
            old = self.read(lv)
            new = self.arith('+' if op == '++' else '-', old, ONE, e['e']['t'])
            self.write(lv, new)
            return old if e.get('post') else new
        if op == '&':
            if e['e']['k'] == 'ref' and 'fn' in e['e'] or e['e']['k'] == 'member' and 'fn' in e['e']:
                return self.ev(e['e'])
            return Ptr(self.lvx(e['e']))
        if op == '*':
            return self.read(self.lvx(e))
        v = self.ev(e['e'])
        if op == '!':
            return T.b_not(self.tobool(v))
        if op == '-':
            v = self.num(v)
            if isinstance(v, P):
                return T.neg(v)
            if isinstance(v, G):
                return merge(v.c, T.neg(v.a), T.neg(v.b))
        if op == '+':
            return self.num(v)
        if op == '~':
            return T.pb(unk_base('~'))
        raise Undecided('unary %s at %s' % (op, self.loc))

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.cond(e['a'])
            return self.branch(a, lambda: self.cond(e['b']), lambda: FALSE)
        if op == '||':
            a = self.cond(e['a'])
            return self.branch(a, lambda: TRUE, lambda: self.cond(e['b']))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        self.loc = e['l']
        if op in ('==', '!='):
            r = self.eqv(a, b)
            return r if op == '==' else T.b_not(r)
        if op == '<':
            return self.ltv(a, b)
        if op == '>':
            return self.ltv(b, a)
        if op == '<=':
            return self.lev(a, b)
        if op == '>=':
            return self.lev(b, a)
        return self.arith(op, a, b, e['t'])

    def lev(self, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, P) and isinstance(b, P):
            # not the negation of the opposite order, both are false for NaN
            return T.cmp0(T.sub(a, b), '<=')
        return T.b_not(self.ltv(b, a))

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['b'])
            lv = self.lvx(e['a'])
            self.loc = e['l']
            self.write(lv, self.num_for(v, e['a']['t']))
            return self.read(lv)
        b = self.ev(e['b'])
        lv = self.lvx(e['a'])
        self.loc = e['l']
        v = self.read(lv)
        t = e.get('ct') or e['t']
        r = self.arith(op[:-1], v, b, t)
        at = strip(e['a']['t'])
        if at == 'bool':
            r = self.tobool(r)
        elif at in INTS and strip(t) in FLOATS:
            r = self.trunc_int(r)
        self.write(lv, r)
        return r

    def num_for(self, v, t):
        t = strip(t)
        if t == 'bool' and isinstance(v, P):
            return self.tobool(v)
        if (t in INTS or t in FLOATS) and isinstance(v, BN):
            return T.ite(v, ONE, ZERO)
        return v

    # lvalues -----------------------------------------------------
    def lvx(self, e):
        k = e['k']
        if k == 'ref':
            if 'fn' in e:
                return self.alloc(FnRef(e['fn']))
            fr = self.frames[-1]
            if 'global' in e and not e.get('slocal'):
                return self.global_lv(e)
            lv = fr.env.get(e['id'])
            if lv is None:
                if e.get('slocal'):
                    return self.global_lv(e)
                raise Undecided('unbound variable %s at %s' % (e['n'], e['l']))
            if e.get('slocal'):
                self.event('static', (e['n'], bool(e.get('constq'))))
            return lv
        if k == 'binding':
            lv = self.frames[-1].env.get(e['id'])
            if lv is None:
                raise Undecided('unbound binding %s' % e['n'])
            return lv
        if k == 'member' and 'fn' not in e:
            if e['arrow']:
                lv = self.deref(self.ev(e['b']))
            else:
                lv = self.lvx(e['b'])
            return lv + ('f', e['f'])
        if k == 'mat':
            x = e['e']
            if x.get('lv'):
                return self.lvx(x)
            if x['k'] in ('mcall', 'opcall') and x.get('fn') and x['fn']['q'].startswith('Eigen'):
                # a view of the matrix, not a copy
                r = self.callx(x, want_lv=True)
                return r if isinstance(r, (LV, LVG)) else self.alloc(r)
            return self.alloc(self.ev(e['e']))
        if k == 'cast':
            ck = e['ck']
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and not e['t'].endswith('*') and self.is_glv(e['e']):
                lv = self.lvx(e['e'])
                if ck == 'BaseToDerived':
                    self.check_downcast(lv, strip(e['t']))
                return lv
            if ck == 'Dynamic' and not e['t'].endswith('*'):
                return self.lvx(e['e'])
            return self.alloc(self.ev(e))
        if k == 'un':
            if e['op'] == '*':
                return self.deref(self.ev(e['e']))
            if e['op'] in ('++', '--') and not e.get('post'):
                self.ev(e)
                return self.lvx(e['e'])
        if k == 'sub':
            b = e['a']
            i = self.ev(e['i'])
            while b['k'] == 'cast' and b['ck'] in ('ArrayToPointerDecay', 'LValueToRValue', 'NoOp'):
                if b['ck'] == 'ArrayToPointerDecay':
                    return self.lvx(b['e']) + ('e', i)
                b = b['e']
            p = self.ev(e['a'])
            if isinstance(p, Ptr) and isinstance(p.lv, LV) and p.lv.path and p.lv.path[-1][0] == 'e':
                base = LV(p.lv.root, p.lv.path[:-1])
                return base + ('e', T.add(T.const(p.lv.path[-1][1]) if isinstance(p.lv.path[-1][1], int) else p.lv.path[-1][1], i))
            if isinstance(p, Ptr) and isinstance(p.lv, LV):
                return p.lv + ('e', i)
            raise Undecided('subscript at %s' % e['l'])
        if k == 'asg':
            self.ev(e)
            return self.lvx(e['a'])
        if k == 'cond' and e.get('lv'):
            c = self.cond(e['c'])
            return self.branch(c, lambda: self.lvx(e['a']), lambda: self.lvx(e['b']))
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'])
            return self.lvx(e['b'])
        if k in ('mcall', 'opcall', 'call'):
            r = self.callx(e, want_lv=True)
            if isinstance(r, (LV, LVG)):
                return r
            return self.alloc(r)
        return self.alloc(self.ev(e))

    def is_glv(self, e):
        return bool(e.get('lv')) or e['k'] in ('mat',) or (e['k'] == 'cast' and e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and self.is_glv(e['e']))

    def check_downcast(self, lv, cls):
        if cls not in self.p.records:
            return
        try:
            o = self.read(lv)
        except Undecided:
            return
        self.check_cls(o, cls, self.s.pc)

    def check_cls(self, o, cls, pc):
        if isinstance(o, G):
            self.check_cls(o.a, cls, T.b_and(pc, o.c))
            self.check_cls(o.b, cls, T.b_and(pc, T.b_not(o.c)))
        elif isinstance(o, Rec) and not o.cls.startswith('#') and not self.p.is_a(o.cls, cls) and feasible(pc):
            self.event('badcast', '%s downcast to %s' % (o.cls.split('::')[-1], cls.split('::')[-1]), pc)

    def global_lv(self, e):
        q = e.get('global', e['n'])
        root = ('G', q)
        if e.get('slocal'):
            fr = self.frames[-1]
            root = ('G', (fr.fn.get('usr') if fr.fn else '') + '/' + e['n'])
        if e.get('proj') or e.get('slocal'):
            self.event('static', (q, bool(e.get('constq'))))
        if root not in self.s.st:
            v = self.p.vars.get(q)
            if v is not None:
                self.frames.append(Frame(self.newid(), None))
                try:
                    self.s.st[root] = self.initval(v)
                finally:
                    self.frames.pop()
            else:
                self.s.st[root] = libmodel.std_global(q) or Opq('global ' + q)
        return LV(root)

    def newid(self):
        self.nroot += 1
        return self.nroot

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.lv is None:
                self.event('nullderef', 'null pointer dereferenced')
                raise Dead()
            return p.lv
        if isinstance(p, It):
            return p.lv + ('e', p.i)
        if isinstance(p, G):
            # a null alternative is undefined behaviour
            alt = []
            for x, c in ((p.a, p.c), (p.b, T.b_not(p.c))):
                if isinstance(x, Ptr) and x.lv is None:
                    if feasible(T.b_and(self.s.pc, c)):
                        self.event('nullderef', 'null pointer dereferenced', T.b_and(self.s.pc, c))
                    alt.append(None)
                else:
                    alt.append(self.deref(x))
            if alt[0] is None and alt[1] is None:
                raise Dead()
            if alt[0] is None or alt[1] is None:
                return alt[0] if alt[1] is None else alt[1]
            return merge_lv(p.c, alt[0], alt[1])
        if isinstance(p, (LV, LVG)):
            return p
        raise Undecided('dereference of %s at %s' % (type(p).__name__, self.loc))

    # ------------------------------------------------------------ calls
    def e_mcall(self, e):
        return self.rv(self.callx(e, False))

    e_opcall = e_mcall
    e_call = e_mcall

    def rv(self, r):
        if isinstance(r, (LV, LVG)):
            return self.read(r)
        return r

    def callx(self, e, want_lv):
        """value or lvalue of a call"""
        self.loc = e['l']
        fn = e.get('fn')
        if fn is None:
            if 'callee' in e:
                f = self.ev(e['callee'])
                return self.apply(f, [self.argval(a) for a in e['a']], e)
            return self.unknown_expr(e)
        hook = self.hooks.get(fn['q'])
        if fn.get('proj') and not (fn.get('cls') and '(lambda' in fn['cls']) and not ('lambda' in fn.get('cls', '')):
            k = e['k']
            if k == 'mcall':
                o = e['o']
                if e.get('arrow'):
                    this = self.deref(self.ev(o))
                else:
                    this = self.lvx(o)
                return self.invoke(fn, this, e['a'], virt=fn.get('virt') and not e.get('qual'))
            if k == 'opcall' and e.get('mem'):
                this = self.lvx(e['a'][0])
                return self.invoke(fn, this, e['a'][1:], virt=fn.get('virt'))
            return self.invoke(fn, None, e['a'])
        return libmodel.ext_call(self, e, fn)

    def argval(self, a):
        """argument for a model: an lvalue when it denotes one, else the value"""
        if a.get('lv') or a['k'] == 'mat' and a['e'].get('lv'):
            return self.lvx(a)
        return self.ev(a)

    def invoke(self, fn, this, args, virt=False):
        """call of a project function with argument expressions"""
        if isinstance(this, LVG):
            return self.branch(this.c, lambda: self.invoke(fn, this.a, args, virt), lambda: self.invoke(fn, this.b, args, virt))
        if this is not None and virt:
            o = self.read(this)
            if isinstance(o, G):
                return self.branch(o.c, lambda: self.invoke_on(fn, this, o.a, args), lambda: self.invoke_on(fn, this, o.b, args))
            return self.invoke_on(fn, this, o, args)
        return self.invoke_final(fn, fn['usr'], this, args)

    def invoke_on(self, fn, this, o, args):
        if isinstance(o, Rec) and o.cls.startswith('#'):
            h = self.absm.get(fn['n'])
            if isinstance(h, dict):
                h = h.get(len(fn['pt']))
            if h is not None:
                vals = [self.bind_arg(a, t) for a, t in zip(args, fn['pt'])]
                return h(self, this, vals, fn)
            if fn.get('usr') in self.p.funcs:
                return self.invoke_final(fn, fn['usr'], this, args)
            raise Undecided('virtual %s of an abstract obstacle' % fn['n'])
        if isinstance(o, Rec):
            m = self.p.resolve(o.cls, fn['usr'])
            if m is not None:
                return self.invoke_final(m, m['usr'], this, args)
        return self.invoke_final(fn, fn['usr'], this, args)

    def bind_arg(self, a, t):
        if t.endswith('&'):
            return self.lvx(a)
        return self.ev(a)

    def invoke_final(self, fn, usr, this, args):
        f = self.p.funcs.get(usr)
        pt = fn['pt']
        vals = [self.bind_arg(a, t) for a, t in zip(args, pt)]
        return self.call_fn(f, fn, this, vals)

    def call_fn(self, f, fn, this, vals):
        """vals: lvalues for reference parameters, values otherwise"""
        h = self.hooks.get(fn['q'])
        if isinstance(h, dict):
            h = h.get(len(fn['pt']))
        if h is not None:
            r = h(self, this, vals, fn)
            if r is not NotImplemented:
                return r
        if f is None or f.get('body') is None:
            if f is not None and f.get('copyctor') or fn['n'] == 'operator=':
                pass
            if fn['n'] == 'operator=':
                return self.implicit_assign(fn, this, vals)
            if fn['n'].startswith('~'):
                return None
            raise Undecided('no body for %s at %s' % (fn['q'], self.loc))
        if f.get('impl') and fn['n'] == 'operator=':
            return self.implicit_assign(fn, this, vals)
        return self.run(f, this, vals)

    def run(self, f, this, vals):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Undecided('recursion in %s' % f['q'])
        self.visited.add(f['usr'])
        vals = [self.alloc(v) if p.get('ref') and not isinstance(v, (LV, LVG)) else v for p, v in zip(f['ps'], vals)]
        fr = Frame(self.newid(), f)
        fr.this = this
        fr.rref = f['rt'].endswith('&')
        loc = self.loc
        for p, v in zip(f['ps'], vals):
            if p.get('ref'):
                fr.env[p['id']] = v
            else:
                if isinstance(v, (LV, LVG)):
                    v = self.read(v)
                root = ('L', fr.id, p['id'])
                self.s.st[root] = v
                fr.env[p['id']] = LV(root)
        self.frames.append(fr)
        try:
            ok = self.xs(f['body'])
            if ok:
                fr.rets.append((self.s, None))
        finally:
            self.frames.pop()
            self.depth -= 1
        self.loc = loc
        if not fr.rets:
            raise Dead()
        s, v = fr.rets[0]
        for s2, v2 in fr.rets[1:]:
            j = self.join(s, s2)
            c = constrain(s.pc, j.pc)
            v = self.mval(c, v, v2)
            s = j
        self.s = s
        # drop the locals of the frame
        for k in [k for k in s.st if k[0] == 'L' and k[1] == fr.id]:
            del s.st[k]
        return v

    def apply(self, f, vals, e=None):
        """call a callable value"""
        if isinstance(f, (LV, LVG)):
            f = self.read(f)
        if isinstance(f, Clo):
            n = f.node
            if 'body' not in n:
                raise Undecided('lambda without body at %s' % n['l'])
            fr = Frame(self.newid(), None)
            fr.env = dict(f.env)
            fr.this = f.this
            rt = n['rt']
            fr.rref = rt.endswith('&')
            for p, v in zip(n['ps'], vals):
                if p.get('ref'):
                    fr.env[p['id']] = v if isinstance(v, (LV, LVG)) else self.alloc(v)
                else:
                    root = ('L', fr.id, p['id'])
                    self.s.st[root] = self.rv(v)
                    fr.env[p['id']] = LV(root)
            self.frames.append(fr)
            self.depth += 1
            try:
                ok = self.xs(n['body'])
                if ok:
                    fr.rets.append((self.s, None))
            finally:
                self.frames.pop()
                self.depth -= 1
            if not fr.rets:
                raise Dead()
            s, v = fr.rets[0]
            for s2, v2 in fr.rets[1:]:
                j = self.join(s, s2)
                v = self.mval(constrain(s.pc, j.pc), v, v2)
                s = j
            self.s = s
            return v
        if isinstance(f, FnRef):
            fn = f.fn
            if fn.get('proj'):
                g = self.p.funcs.get(fn['usr'])
                if fn.get('cls') and not fn.get('static'):
                    raise Undecided('member function pointer at %s' % self.loc)
                return self.call_fn(g, fn, None, vals)
            return libmodel.ext_apply(self, fn, [self.rv(v) for v in vals])
        if isinstance(f, G):
            return self.branch(f.c, lambda: self.apply(f.a, vals, e), lambda: self.apply(f.b, vals, e))
        if isinstance(f, libmodel.PyFn):
            return f.f(self, vals)
        raise Undecided('call of %s at %s' % (type(f).__name__, self.loc))

    # ------------------------------------------------------------ objects
    def blank(self, cls):
        f = {}
        for x in self.p.fields(cls):
            f[x['n']] = self.field_blank(x['t'], cls.split('::')[-1] + '::' + x['n'])
        return Rec(cls, f)

    def field_blank(self, t, why):
        t = strip(t)
        if t in self.p.records:
            return None
        if t.startswith('Eigen::'):
            return libmodel.eigen_default(t, why)
        if t in INTS or t in FLOATS:
            return undef_p(why)
        if t == 'bool':
            return T.cmp0(undef_p(why), '!=')
        r = libmodel.std_default(self, t, why)
        return r if r is not None else (Ptr(None) if t.endswith('*') else Opq('uninitialised ' + why))

    def e_ctor(self, e):
        fn = e['fn']
        self.loc = e['l']
        t = strip(e['t'])
        if 'lambda' in fn.get('cls', '') and len(e['a']) == 1:
            return self.ev(e['a'][0])
        if fn.get('proj'):
            cls = fn['cls']
            if (e.get('copy') or e.get('move')) and len(e['a']) == 1 and not self.is_glv(e['a'][0]):
                # elided temporary
                v = self.ev(e['a'][0])
                if isinstance(v, Rec) and v.cls == cls:
                    return v
                src = self.alloc(v)
                return self.construct(cls, fn, [src])
            vals = [self.bind_arg(a, pt) for a, pt in zip(e['a'], fn['pt'])]
            return self.construct(cls, fn, vals)
        return libmodel.ext_ctor(self, e, fn, t)

    def construct(self, cls, fn, vals):
        """new object of class cls by the constructor fn"""
        h = self.hooks.get(fn['q'])
        if isinstance(h, dict):
            h = h.get(len(fn['pt']))
        if h is not None:
            r = h(self, None, vals, fn)
            if r is not NotImplemented:
                return r
        lv = self.alloc(self.blank(cls))
        self.init_object(cls, fn, vals, lv)
        v = self.read(lv)
        self.s.st.pop(lv.root, None)
        if isinstance(v, Rec) and v.cls != cls:
            v = Rec(cls, v.f)
        return v

    def init_object(self, cls, fn, vals, lv):
        """run constructor fn of class cls on the object at lv"""
        f = self.p.funcs.get(fn.get('usr'))
        if f is None:
            m = None
            if len(vals) == 1 and fn['pt'] and strip(fn['pt'][0]) == cls:
                # implicit copy
                src = self.rv(vals[0])
                self.copy_fields(cls, src, lv)
                return
            if not vals:
                # implicit default constructor that is not part of the extraction
                for b in self.p.records[cls]['bases']:
                    self.init_default(b, lv)
                self.init_fields(cls, {}, lv)
                return
            raise Undecided('constructor of %s not found' % cls)
        self.visited.add(f['usr'])
        fr = Frame(self.newid(), f)
        fr.this = lv
        for p, v in zip(f['ps'], vals):
            if p.get('ref'):
                fr.env[p['id']] = v if isinstance(v, (LV, LVG)) else self.alloc(v)
            else:
                root = ('L', fr.id, p['id'])
                self.s.st[root] = self.rv(v)
                fr.env[p['id']] = LV(root)
        loc = self.loc
        self.frames.append(fr)
        self.depth += 1
        try:
            inits = f.get('inits') or []
            done = set()
            for i in inits:
                self.loc = i['l']
                e = i['e']
                if i.get('deleg') or i.get('base'):
                    while e['k'] in ('mat',):
                        e = e['e']
                    if e['k'] == 'ctor':
                        fn2 = e['fn']
                        v2 = [self.bind_arg(a, pt) for a, pt in zip(e['a'], fn2['pt'])]
                        if fn2.get('proj'):
                            self.init_object(fn2['cls'], fn2, v2, lv)
                        else:
                            self.write_base(lv, fn2, v2)
                    elif e['k'] == 'inhctor':
                        raise Undecided('inherited constructor at %s' % self.loc)
                else:
                    done.add(i['f'])
                    v = self.ev(e)
                    if isinstance(v, Comma):
                        v = self.read(v.lv)
                    self.write(lv + ('f', i['f']), self.num_for(v, i.get('ft', '')))
            if not any(i.get('deleg') for i in inits):
                self.init_fields(cls, done, lv)
            if f.get('body') is not None:
                ok = self.xs(f['body'])
                s = self.s if ok else None
                for s2, _ in fr.rets:
                    s = self.join(s, s2)
                if s is None:
                    raise Dead()
                self.s = s
        finally:
            self.frames.pop()
            self.depth -= 1
        self.loc = loc

    def write_base(self, lv, fn, vals):
        self.event('extbase', fn['q'])

    def init_fields(self, cls, done, lv):
        for x in self.p.records[cls]['fields']:
            if x['n'] in done:
                continue
            t = strip(x['t'])
            if x.get('init') is not None:
                self.write(lv + ('f', x['n']), self.num_for(self.ev(x['init']), x['t']))
            elif t in self.p.records:
                self.write(lv + ('f', x['n']), self.construct_default(t))

    def init_default(self, cls, lv):
        for m in self.p.records[cls]['methods']:
            if m.get('ctor') and len(m['pn']) == m['ndef'] and not m.get('copyctor') and not m.get('movector'):
                f = self.p.funcs.get(m['usr'])
                if f and not m['pn']:
                    self.init_object(cls, m, [], lv)
                    return
        raise Undecided('default construction of %s' % cls)

    def construct_default(self, cls):
        lv = self.alloc(self.blank(cls))
        r = self.p.records[cls]
        for m in r['methods']:
            if m.get('ctor') and not m['pn']:
                self.init_object(cls, m, [], lv)
                v = self.read(lv)
                self.s.st.pop(lv.root, None)
                return v
        has = any(m.get('ctor') and not m.get('impl') for m in r['methods'])
        if not has:
            for b in r['bases']:
                self.init_default(b, lv)
            self.init_fields(cls, set(), lv)
            v = self.read(lv)
            self.s.st.pop(lv.root, None)
            return v
        raise Undecided('no default constructor of %s' % cls)

    def copy_fields(self, cls, src, lv):
        for b in self.p.records[cls]['bases']:
            self.copy_fields(b, src, lv)
        for x in self.p.records[cls]['fields']:
            self.write(lv + ('f', x['n']), self.copyval(src.f[x['n']]))

    def copyval(self, v):
        """copy construction of a value, through user written copy constructors"""
        if isinstance(v, Rec):
            for m in self.p.records.get(v.cls, {'methods': []})['methods']:
                if m.get('copyctor') and not m.get('impl') and not m.get('dflt'):
                    return self.construct(v.cls, m, [self.alloc(v)])
            lv = self.alloc(self.blank(v.cls))
            self.copy_fields(v.cls, v, lv)
            return self.read(lv)
        return v

    def implicit_assign(self, fn, this, vals):
        cls = fn['cls']
        src = self.rv(vals[0])
        self.assign_fields(cls, src, this)
        return this

    def assign_fields(self, cls, src, this):
        if isinstance(src, G):
            return self.branch(src.c, lambda: self.assign_fields(cls, src.a, this), lambda: self.assign_fields(cls, src.b, this))
        for b in self.p.records[cls]['bases']:
            self.assign_fields(b, src, this)
        for x in self.p.records[cls]['fields']:
            t = strip(x['t'])
            lv = this + ('f', x['n'])
            if t in self.p.records:
                ua = [m for m in self.p.records[t]['methods'] if m.get('copyassign') and not m.get('impl') and not m.get('dflt')]
                if ua:
                    self.call_fn(self.p.funcs.get(ua[0]['usr']), ua[0], lv, [self.alloc(src.f[x['n']])])
                else:
                    self.assign_fields(t, src.f[x['n']], lv)
            else:
                self.write(lv, src.f[x['n']])

    # ------------------------------------------------------------ entry points
    def call(self, q, this, args, n=None, pt=None):
        """analyse a function of the project on abstract arguments"""
        fs = self.p.find(q, n, pt)
        if not fs:
            raise KeyError(q)
        f = fs[0]
        vals = [a if isinstance(a, (LV, LVG)) or not p.get('ref') else self.alloc(a) for a, p in zip(args, f['ps'])]
        vals += self.defaults(f, len(vals))
        if f.get('virt') and this is not None:
            o = self.read(this)
            m = self.p.resolve(o.cls, f['usr'])
            if m is not None:
                f = self.p.funcs[m['usr']]
        return self.call_fn(f, f, this, vals)

    def new(self, cls, args=(), pt=None):
        """object built by the constructor that fits the arguments"""
        if not cls.startswith(ROOTNS):
            cls = ROOTNS + '::' + cls
        m = self.pick_ctor(cls, args, pt)
        vals = [a if isinstance(a, (LV, LVG)) or not t.endswith('&') else self.alloc(a) for a, t in zip(args, m['pt'])]
        f = self.p.funcs.get(m['usr'])
        if f is not None:
            vals += self.defaults(f, len(vals))
        return self.construct(cls, m, vals)

    def defaults(self, f, n):
        """default arguments from the n-th parameter on"""
        out = []
        for p in f['ps'][n:]:
            if p.get('def') is None:
                raise KeyError('%s takes %d arguments' % (f['q'], len(f['ps'])))
            self.frames.append(Frame(self.newid(), None))
            try:
                v = self.ev(p['def'])
            finally:
                self.frames.pop()
            out.append(self.alloc(v) if p.get('ref') else v)
        return out

    def pick_ctor(self, cls, args, pt=None):
        best = None
        for m in self.p.records[cls]['methods']:
            if not m.get('ctor'):
                continue
            if pt is not None:
                if len(pt) == len(m['pt']) and all(type_like(x, y) for x, y in zip(pt, m['pt'])):
                    return m
                continue
            if not (len(m['pt']) - m['ndef'] <= len(args) <= len(m['pt'])):
                continue
            sc = 0
            for a, t in zip(args, m['pt']):
                k = self.match(self.rv(a), strip(t))
                if k == 0:
                    sc = -1
                    break
                sc += k
            if sc < 0:
                continue
            if best is None or sc > best[0]:
                best = (sc, m)
        if best is None:
            raise Undecided('no constructor of %s for the arguments at %s' % (cls, self.loc))
        return best[1]

    def match(self, v, t):
        if isinstance(v, G):
            return self.match(v.a, t)
        if isinstance(v, P):
            return 3 if t in FLOATS or t in INTS else (1 if t == 'bool' else 0)
        if isinstance(v, BN):
            return 3 if t == 'bool' else (1 if t in INTS or t in FLOATS else 0)
        if isinstance(v, Str):
            return 3 if 'basic_string' in t or t.startswith('char') else (1 if t == 'bool' else 0)
        if isinstance(v, V):
            return 3 if t in ('Eigen::Matrix<double, 3, 1>', 'Eigen::Array<double, 3, 1>') else 0
        if isinstance(v, Q):
            return 3 if t.startswith('Eigen::Quaternion') else 0
        if isinstance(v, M):
            return 3 if t.startswith('Eigen::Matrix<double, 3, 3>') else 0
        if isinstance(v, Rec):
            return 3 if v.cls == t else (2 if self.p.is_a(v.cls, t) else 0)
        if isinstance(v, (Seq, Map)):
            return 3 if t.startswith('std::') else 0
        if isinstance(v, Ptr):
            return 3 if 'shared_ptr' in t or t.endswith('*') else 0
        return 1


GROW = {'push_back', 'emplace_back', 'push_front', 'insert', 'erase', 'pop_back', 'pop_front', 'emplace', 'resize', 'clear', 'reserve'}


def grows(n):
    """does the subtree change the size of a container, or leave the loop?"""
    if isinstance(n, dict):
        if n.get('k') in ('break', 'ret', 'throw', 'lambda'):
            return True
        if n.get('k') == 'mcall' and n.get('fn', {}).get('n') in GROW:
            return True
        return any(grows(v) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list):
        return any(grows(v) for v in n)
    return False


# x += value : accumulators make a loop non samplable
