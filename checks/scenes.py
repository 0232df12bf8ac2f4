"""Scenes that are built twice: as given, and moved by a rigid motion or scaled."""
from engine.ctx import *
import math
from engine import witness


class Motion:
    def __init__(self, q, t, lam=None):
        self.q, self.t, self.lam = q, t, lam

    def pt(self, p):
        p = T.vadd(T.qrot(self.q, p), self.t)
        return p if self.lam is None else T.vscale(p, self.lam)

    def dir(self, d):
        d = T.qrot(self.q, d)
        return d if self.lam is None else T.vscale(d, self.lam)

    def len(self, x):
        if self.lam is None:
            return x
        return T.vscale(x, self.lam) if isinstance(x, V) else T.mul(x, self.lam)

    def free(self, d):
        """directions that do not scale"""
        return T.qrot(self.q, d)

    def quat(self, q):
        return T.qmul(self.q, q)


ID = Motion(T.QID, T.VZERO)


def rigid(s, planar=False):
    if planar:
        return Motion(s.qz('thG'), T.vec3(T.atom('tGx'), T.atom('tGy'), ZERO))
    return Motion(s.quat('G'), T.vatom('tG'))


def scaling(lo=1):
    lam = T.atom('lam', pos=True)
    T.single_base(lam).facts['lo'] = F(lo)
    return Motion(T.QID, T.VZERO, lam)


def mstate(s, g, name, rot=True, moving=True, q=None, p=None):
    """state of a body of the scene, seen through g"""
    q = q or (s.quat('q' + name) if rot else T.QID)
    p = p or T.vatom('p' + name)
    st = s.i.alloc(s.i.new('State', [g.pt(p), T.QID, g.dir(T.vatom('v' + name)) if moving else T.VZERO,
                                     g.free(T.vatom('w' + name)) if moving else T.VZERO]))
    s.call(st, 'State::set_orientation', g.quat(q))
    return s.read(st)


def mellipsoid(s, g, name, rot=True, moving=True, curv=True, margin=True, q=None, p=None, obsname=None, ref=True):
    st = mstate(s, g, name, rot, moving, q, p)
    r = g.pt(T.vatom('r' + name)) if ref else g.pt(p or T.vatom('p' + name))
    o = s.new('Ellipsoid', Str('o' + name if obsname is None else obsname), st, r, g.len(s.nnvec('m' + name)) if margin else T.VZERO,
              pt=['basic_string', 'State', 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'], heap=True)
    a = s.posvec('a' + name)
    for k in range(3):
        T.base('comp', ((), T.base('vec', 'a' + name)), k).facts['lo'] = F(1, 1000)
    s.call(o, 'Ellipsoid::set_axis_lengths', g.len(a), n=1)
    if curv:
        c = s.posvec('c' + name)
        for k in range(3):
            T.base('comp', ((), T.base('vec', 'c' + name)), k).facts['lo'] = F(1)
        s.call(o, 'Ellipsoid::set_curvature_factor', c, n=1)
    return o


def magent(s, g, name='', rot=True, moving=True, margin=True, p=None):
    m = g.len(T.atom('mA' + name, nonneg=True)) if margin else ZERO
    return s.new('Agent', mstate(s, g, 'A' + name, rot, moving, p=p), m)


def mhull(s, g, name='h', n=4, inside=False, rot=True, rmin=None, phis=None):
    """a hull with n surface samples at given angles and symbolic radii, seen through g"""
    h = s.new('StarShapeHull', TRUE if inside else FALSE, T.const(n), *([rmin] if rmin is not None else []))
    q = s.quat('q' + name) if rot is True else (rot or T.QID)
    p = T.vatom('p' + name)
    s.call(h, 'Obstacle::set_position', g.pt(p), n=1)
    s.call(h, 'Obstacle::set_orientation', g.quat(q))
    s.call(h, 'Obstacle::set_reference_position', g.pt(p))
    cols, cart = [], []
    for k in range(n):
        rad = T.atom('rad%s%d' % (name, k), pos=True)
        phi = phis[k] if phis else T.atom('phi%s%d' % (name, k))
        cols.append(T.vec3(g.len(rad), T.scale(T.PI, F(1, 2)), phi))
        own = T.vec3(T.mul(g.len(rad), T.fn('cos', phi)), T.mul(g.len(rad), T.fn('sin', phi)), ZERO)
        cart.append(T.vadd(T.qrot(g.quat(q), own), g.pt(p)))
    o = s.read(h)
    if 'polar_surface_points' not in o.f or 'cartesian_surface_points' not in o.f:
        raise Undecided('representation of hulls not recognised')
    s.i.write(h + ('f', 'polar_surface_points'), C3(cols))
    s.i.write(h + ('f', 'cartesian_surface_points'), C3(cart))
    return h


def maggregate(s, g, prims, hulls):
    """an aggregate of the given members whose hulls are replaced by given ones"""
    a = s.new('Aggregate', Seq([s.sp(o) for o in prims]))
    o = s.read(a)
    if 'inside_hull' not in o.f or 'outside_hull' not in o.f:
        raise Undecided('representation of aggregates not recognised')
    for f, h in zip(('inside_hull', 'outside_hull'), hulls):
        s.i.write(a + ('f', f), s.read(h))
    return a


NOHULL = {'DynamicObstacleAvoidance::StarShapeHull::compute_from_primitives': lambda i, this, vals, fn: None}


def mabstract(s, g, name, handlers=None, **kw):
    """an obstacle of an unknown kind: its virtual answers are symbols given by handlers"""
    o = mellipsoid(s, g, name, curv=False, **kw)
    s.i.write(o, Rec('#abs' + name, s.read(o).f))
    s.i.absm.update(handlers or {})
    return o


def abs_name(i, this):
    return i.read(this).cls[4:]


def abs_handlers():
    """symbolic answers of obstacles of unknown kind (a distance that leaves out the margin of the agent is another one)"""
    def dist(i, this, vals, fn):
        m = i.read(vals[1]) if isinstance(vals[1], (LV, LVG)) else vals[1]
        bare = all(x is ZERO for x in (m.items if isinstance(m, Arr) else [T.vcomp(m, k) for k in range(3)]))
        return T.atom('d' + abs_name(i, this) + (' without margin' if bare else ''), pos=True)

    def hit(i, this, vals, fn):
        n = abs_name(i, this)
        return Tup([T.bpred('hit', T.base('atom', 'line' + n)), Tup([T.vatom('xa' + n), T.vatom('xb' + n)])])
    return {
        'compute_normal_to_agent': lambda i, this, vals, fn: T.vunit(T.vatom('n' + abs_name(i, this))),
        'compute_distance_to_point': dist,
        'compute_repulsion_vector': lambda i, this, vals, fn: T.vatom('rep' + abs_name(i, this)),
        'compute_interesection_points': hit,
        'is_closed': lambda i, this, vals, fn: T.bpred('closed', T.base('atom', abs_name(i, this))),
    }


def abs_scene(s, n, g=ID, moving=True, rot=True, agent_moving=True, names=None):
    """n obstacles of unknown kind, an agent and the environment that lists them"""
    os = [mabstract(s, g, k, abs_handlers(), rot=rot, moving=moving) for k in (names or map(str, range(n)))]
    a = magent(s, g, moving=agent_moving)
    return os, a, s.env(os)


MV = 'Modulation::modulate_velocity'


def mv(s, a, e, local=FALSE, rep=FALSE, planar=FALSE, *rest):
    return s.val(None, MV, a, e, local, rep, planar, *rest)


def inter(x, y):
    """the relation "these two intersect" as an unknown symmetric predicate"""
    x, y = sorted((x, y))
    return T.bpred('inter', T.base('atom', ('pair', x, y)))


def _name(i, lv):
    n = i.read(lv)
    n = n.f.get('name') if isinstance(n, Rec) else None
    if not isinstance(n, Str) or n.lit() is None:
        raise Undecided('obstacle without a known name')
    return n.lit()


def _inter(i, this, vals, fn):
    return inter(_name(i, this), _name(i, vals[0]))


INTER = {NS + 'Ellipsoid::is_intersecting_ellipsoid': _inter}


def inter_env(k):
    return inter('envelope', 'o%s' % k)


def _hull_from(i, this, vals, fn):
    """records what a hull was asked to describe"""
    if len(vals) != 2:
        return NotImplemented
    prims, centre = (i.read(v) if isinstance(v, (LV, LVG)) else v for v in vals)
    if not isinstance(prims, Seq) or not all(isinstance(p, Ptr) for p in prims.items):
        raise Undecided('members of a hull not recognised')
    h = i.read(this)
    i.write(this, Rec(h.cls, dict(h.f, **{'#members': [p.lv for p in prims.items], '#centre': centre})))
    return None


RECHULL = {NS + 'StarShapeHull::compute_from_primitives': _hull_from}


def relation_hooks(table):
    """intersections of ellipsoids answered by a table of pairs of names; everything else of the code is the code's"""
    def hit(i, this, vals, fn):
        a, b = _name(i, this), _name(i, vals[0])
        return TRUE if table.get(frozenset((a, b)), False) else FALSE
    return dict(RECHULL, **{NS + 'Ellipsoid::is_intersecting_ellipsoid': hit})


def kind_of(s, lv):
    return s.read(lv).cls.split('::')[-1]


def members(s, lv):
    """direct members of an aggregate"""
    ps = s.val(lv, 'Aggregate::get_primitives')
    if not isinstance(ps, Seq) or not all(isinstance(p, Ptr) for p in ps.items):
        raise Undecided('members of an aggregate not recognised')
    return [p.lv for p in ps.items]


def leaves(s, lv, stop=()):
    """members of an aggregate, aggregates among them expanded unless in stop"""
    if lv in stop or kind_of(s, lv) != 'Aggregate':
        return [lv]
    return [y for x in members(s, lv) for y in leaves(s, x, stop)]


def listed(s, v):
    if isinstance(v, (LV, LVG)):
        v = s.read(v)
    if not isinstance(v, Seq) or not all(isinstance(p, Ptr) for p in v.items):
        raise Undecided('list of obstacles not recognised')
    return [p.lv for p in v.items]


def mean_pos(s, lvs):
    t = T.VZERO
    for o in lvs:
        t = T.vadd(t, s.val(o, 'Obstacle::get_position'))
    return T.vscale(t, T.div(ONE, T.const(len(lvs))))


def aggregate_name(s, lvs):
    return 'aggregate' + ''.join('_' + n for n in sorted(s.val(o, 'Obstacle::get_name').lit() for o in lvs))


def aggregate_bad(s, a, hulls=True):
    """what is inconsistent in an aggregate, or None; reads only reported attributes (and what its hulls were built from)"""
    ms = members(s, a)
    if s.val(a, 'Obstacle::get_name').lit() != aggregate_name(s, ms):
        return 'name %s instead of %s' % (s.val(a, 'Obstacle::get_name').lit(), aggregate_name(s, ms))
    if len(set(ms)) != len(ms):
        return 'a member twice'
    mean = mean_pos(s, ms)
    for what in ('position', 'reference_position'):
        got = s.val(a, 'Obstacle::get_' + what)
        if not T._same(got, mean):
            return '%s %s instead of the mean %s' % (what, short(got), short(mean))
    for m in ms:
        got = s.val(m, 'Obstacle::get_reference_position')
        if not T._same(got, mean):
            return 'member %s has reference %s instead of %s' % (s.val(m, 'Obstacle::get_name').lit(), short(got), short(mean))
    if hulls:
        o = s.read(a)
        hs = [(k, v) for k, v in sorted(o.f.items()) if isinstance(v, Rec) and v.cls.endswith('StarShapeHull')]
        if not hs:
            raise Undecided('hulls of aggregates not recognised')
        for k, h in hs:
            if '#members' not in h.f:
                return '%s was never computed' % k
            if set(h.f['#members']) != set(ms) or len(h.f['#members']) != len(ms):
                return '%s describes other members' % k
            if not T._same(h.f['#centre'], mean):
                return '%s is centred at %s' % (k, short(h.f['#centre']))
    return None


def components(names, table):
    out, left = [], list(names)
    while left:
        comp, todo = [], [left[0]]
        while todo:
            x = todo.pop()
            if x in comp:
                continue
            comp.append(x)
            todo += [y for y in left if table.get(frozenset((x, y)), False)]
        out.append(frozenset(comp))
        left = [x for x in left if x not in comp]
    return out


def partition_bad(s, lvs, obs, table, hulls=True):
    """is the list lvs the partition of obs ({name: object}) by connected components?"""
    comps = components(list(obs), table)
    seen = []
    back = {lv: n for n, lv in obs.items()}
    for lv in lvs:
        if lv in back:
            comp = frozenset([back[lv]])
        elif kind_of(s, lv) == 'Aggregate':
            ls = leaves(s, lv, back)
            if not all(l in back for l in ls):
                return 'an aggregate contains a copy or a stranger'
            if len(set(ls)) != len(ls):
                return 'an aggregate contains a member twice'
            if len(ls) < 2:
                return 'an aggregate of %d' % len(ls)
            b = aggregate_bad(s, lv, hulls)
            if b:
                return b
            comp = frozenset(back[l] for l in ls)
        else:
            return 'the list contains a copy or a stranger (%s)' % s.val(lv, 'Obstacle::get_name').lit()
        if comp not in comps:
            return 'group %s is no connected component' % sorted(comp)
        if comp in seen:
            return 'group %s listed twice' % sorted(comp)
        seen.append(comp)
    for c in comps:
        if c not in seen:
            return 'group %s is missing' % sorted(c)
    return None


def number(p):
    """a number that does not depend on the symbols"""
    if T.cval(p) is not None:
        return float(T.cval(p))
    try:
        x = [witness.Val(k).p(p) for k in (1, 2)]
    except witness.Bad:
        raise Undecided('not a number')
    if not abs(x[0] - x[1]) <= 1e-9 * max(1, abs(x[0])):
        raise Undecided('distance along a ray not known')
    return x[0]


def near(u, v):
    """equal up to rounding of numbers"""
    if T._same(u, v):
        return True
    return T._same(T.vsub(u, v), T.VZERO) or all(max(abs(x) for x in witness.Val(k).v(T.vsub(u, v))) < 1e-8 for k in (1, 2, 3))


def parallel(u, v):
    if T.vcross(u, v) is T.VZERO:
        return True
    for k in (1, 2, 3):
        x, y = (witness.Val(k).v(w) for w in (u, v))
        n = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
        if max(map(abs, n)) > 1e-8 * (sum(a * a for a in x) * sum(a * a for a in y)) ** 0.5:
            return False
    return True


def polar_hooks():
    """the two conversions between Cartesian and polar coordinates on known directions (their exactness is C22's subject)"""
    known = []

    def to_cart(i, this, vals, fn):
        p = i.read(vals[0]) if isinstance(vals[0], (LV, LVG)) else vals[0]
        r, th, phi = (T.vcomp(p, k) for k in range(3))
        if phi not in known:
            known.append(phi)
        s = T.fn('sin', th)
        return T.vscale(T.vec3(T.mul(s, T.fn('cos', phi)), T.mul(s, T.fn('sin', phi)), T.fn('cos', th)), r)

    def to_polar(i, this, vals, fn):
        v = i.read(vals[0]) if isinstance(vals[0], (LV, LVG)) else vals[0]
        half = T.scale(T.PI, F(1, 2))
        if v is T.VZERO:
            return T.vec3(ZERO, half, ZERO)
        x, y, z = (number(T.vcomp(v, k)) for k in range(3))
        r = math.sqrt(x * x + y * y + z * z)
        c = F(r).limit_denominator(10000)
        if abs(float(c) - r) > 1e-9:
            c = F(r)
        a = math.atan2(y, x)
        phi = T.const(F(a))
        # the angle that was given when it is one of those, on either side of the cut
        for p in reversed(known):
            if abs(math.remainder(number(p) - a, 2 * math.pi)) < 1e-9:
                phi = p
                break
        else:
            for p in known:
                for d in (T.PI, T.neg(T.PI)):
                    if abs(number(T.add(p, d)) - a) < 1e-9:
                        phi = T.add(p, d)
        return T.vec3(T.const(c), half if abs(z) < 1e-12 else T.const(F(math.acos(z / r))), phi)
    return {NS + 'MathTools::polar_to_cartesian': to_cart, NS + 'MathTools::cartesian_to_polar': to_polar}


def mray(s, name, table, p=None):
    """a member of unknown kind that meets the k-th queried line at given multiples of the queried segment (None: not at all)"""
    o = mellipsoid(s, ID, name, rot=False, moving=False, curv=False, margin=False, obsname=name, p=p)
    s.i.write(o, Rec('#abs' + name, s.read(o).f))
    tables = s.__dict__.setdefault('rays', {})
    tables[name] = [0, table]

    def hit(i, this, vals, fn):
        n = abs_name(i, this)
        k, tab = tables[n]
        tables[n][0] += 1
        x1, x2 = (i.read(v) if isinstance(v, (LV, LVG)) else v for v in vals)
        s.__dict__.setdefault('lines', {}).setdefault(n, []).append((x1, x2))
        t = tab[k % len(tab)]
        if t is None:
            return Tup([FALSE, Tup([T.VZERO, T.VZERO])])
        d = T.vsub(x2, x1)
        return Tup([TRUE, Tup([T.vadd(x1, T.vscale(d, T.const(x))) for x in t])])
    s.i.absm['compute_interesection_points'] = hit
    return o


# ------------------------------------------------------------ generic arguments
def ctors(ctx, cls):
    """declared constructors of a class other than copies and moves, with every number of defaulted arguments"""
    r = ctx.p.records.get(NS + cls)
    if r is None:
        raise KeyError(cls)
    return [(m, d) for m in r['methods'] if m.get('ctor') and m.get('acc') == 'public' and not m.get('impl')
            and not m.get('copyctor') and not m.get('movector') and not m.get('del') for d in range(m['ndef'] + 1)]


def given(s, name, t, tag='g', prims=None, string=None):
    """a symbolic argument for a parameter, from its type and name"""
    k = tag + '_' + name
    if 'basic_string' in t:
        return Str('given ' + name if string is None else string)
    if 'Quaternion' in t:
        return s.quat(k)
    if 'Matrix<double, 3, 1>' in t:
        return T.vatom(k)
    if 'Array<double, 3, 1>' in t:
        return s.posvec(k)
    if t.endswith('::State') or '::State &' in t:
        return s.i.new('State', [T.vatom(k + 'p'), s.quat(k + 'q'), T.vatom(k + 'v'), T.vatom(k + 'w')])
    if '::Pose' in t:
        return s.i.new('Pose', [T.vatom(k + 'p'), s.quat(k + 'q')])
    if '::Agent' in t:
        return s.read(magent(s, ID, k))
    if 'shared_ptr' in t and 'deque' not in t:
        return s.sp((prims or [mellipsoid(s, ID, k, obsname=k)])[0])
    if 'deque' in t:
        return Seq([s.sp(o) for o in (prims if prims is not None else [mellipsoid(s, ID, k + '1'), mellipsoid(s, ID, k + '2')])])
    if 'bool' in t:
        return TRUE
    if 'int' in t:
        return T.const(3)
    if 'double' in t:
        return T.atom(k, nonneg=True) if 'margin' in name or 'radius' in name else T.atom(k)
    raise Undecided('argument %s of type %s' % (name, t))


def sig(m, d=0):
    return '%s(%s)' % (m['n'], ', '.join(m['pn'][:len(m['pn']) - d]))


def construct(s, cls, m, d, prims=None, heap=True, string=None):
    """the object built by constructor m with its last d arguments defaulted, and the arguments by name"""
    n = len(m['pt']) - d
    args = [given(s, x, t, prims=prims, string=string) for x, t in zip(m['pn'][:n], m['pt'][:n])]
    vals = [s.i.alloc(a) if t.endswith('&') else a for a, t in zip(args, m['pt'])]
    f = s.ctx.p.funcs.get(m['usr'])
    if f is not None:
        vals += s.i.defaults(f, len(vals))
    elif d:
        raise Undecided('constructor without a body')
    return s.i.alloc(s.i.construct(NS + cls, m, vals), 'H' if heap else 'T'), dict(zip(m['pn'][:n], args)), dict(zip(m['pn'], [s.i.read(v) if isinstance(v, (LV, LVG)) else v for v in vals]))


def mutators(ctx, cls, base=True):
    """public members that are not const, of the class and its bases"""
    out, todo, seen = [], [NS + cls], set()
    while todo:
        c = todo.pop(0)
        r = ctx.p.records.get(c)
        if r is None:
            continue
        for m in r['methods']:
            if m.get('acc') == 'public' and not m.get('const') and not m.get('ctor') and not m.get('dtor') and not m.get('impl') \
                    and not m.get('static') and not m['n'].startswith('operator') and (m['n'], tuple(m['pt'])) not in seen:
                seen.add((m['n'], tuple(m['pt'])))
                out.append(m)
        if base:
            todo += r['bases']
    return out


def apply(s, lv, m, tag='m', prims=None):
    """call a member function on symbolic arguments; returns (result, arguments by name)"""
    args = [given(s, x, t, tag, prims) for x, t in zip(m['pn'], m['pt'])]
    vals = [s.i.alloc(a) if t.endswith('&') else a for a, t in zip(args, m['pt'])]
    f = s.ctx.p.funcs.get(m['usr'])
    if f is None:
        raise Undecided('%s has no body' % m['q'])
    if f.get('virt'):
        mm = s.ctx.p.resolve(s.read(lv).cls, f['usr'])
        if mm is not None:
            f = s.ctx.p.funcs[mm['usr']]
    return s.i.call_fn(f, f, lv, vals), dict(zip(m['pn'], args))


def copy_of(s, lv, cls):
    """copy constructed by the copy constructor of the class, declared or implicit"""
    for m in s.ctx.p.records[NS + cls]['methods']:
        if m.get('copyctor'):
            if m.get('del'):
                return None
            if not m.get('impl') and not m.get('dflt'):
                return s.i.alloc(s.i.construct(NS + cls, m, [lv]), 'H')
    return s.copy(lv)
