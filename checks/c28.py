"""C28 Normals are unit vectors and the frames built on them orthonormal."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Value graphs of the normals and of the bases on symbolic poses, shapes and directions. Orthonormality is an equation between dot products of the columns, '
               'decided on normal forms in every case of the branches, and again exactly on rational directions on, near and between the axes, where the helper vector may '
               'degenerate. The normal of an ellipsoid is compared with the symbolic derivative of its own distance; the normal of a hull has to be orthogonal to the edge '
               'between the two samples around the agent and to the vertical.')
ASSUMPTIONS = ['real arithmetic', 'the point is not the centre of the ellipsoid, the two samples are distinct']
BM, FR = 'Modulation::compute_basis_matrices', 'Modulation::compute_dynamical_system_frame'
NORM, DIST = 'Obstacle::compute_normal_to_agent', 'Obstacle::compute_distance_to_point'


def diff(p, x):
    """derivative of a value with respect to a symbol"""
    if not T.depends(p, x) if hasattr(T, 'depends') else x not in T.all_bases(p):
        return ZERO
    out = []
    for m, c in p.t:
        for j, (b, e) in enumerate(m):
            if isinstance(e, P) and x in T.all_bases(e):
                raise Undecided('exponent depends on the point')
            db = dbase(b, x)
            if db is ZERO:
                continue
            ep = e if isinstance(e, P) else T.const(e)
            rest = T.const(c)
            for i, (b2, e2) in enumerate(m):
                if i != j:
                    rest = T.mul(rest, T.powp(T.pb(b2), e2 if isinstance(e2, P) else T.const(e2)))
            out.append(T.mul(T.mul(rest, ep), T.mul(T.powp(T.pb(b), T.sub(ep, ONE)), db)))
    return T.add(*out) if out else ZERO


def dbase(b, x):
    if b is x:
        return ONE
    if b.kind == 'poly':
        return diff(b.args[0], x)
    if b.kind == 'ite':
        return T.ite(b.args[0], diff(b.args[1], x), diff(b.args[2], x))
    if b.kind == 'abs':
        return T.div(T.mul(b.args[0], diff(b.args[0], x)), T.absP(b.args[0]))
    if x in T.all_bases(T.pb(b)):
        raise Undecided('derivative of ' + b.kind)
    return ZERO


def orthonormal(ctx, name, m, con=None):
    cols = [T.mcol(m, k) for k in range(3)] if isinstance(m, M) else list(m.cols)
    for i in range(3):
        for j in range(i, 3):
            ctx.eq('%s: columns %d and %d' % (name, i + 1, j + 1), T.vdot(cols[i], cols[j]), ONE if i == j else ZERO, con=con)
    return cols


def directions(ctx):
    """rational unit vectors: the axes, close to the axes (closer and farther than any reasonable threshold), and in between"""
    out = []
    small = [F(1, 10 ** k) for k in range(2, 7)] + [F(1, 3), F(1, 2)]
    if ctx.thorough:
        small += [F(7, 10 ** k) for k in range(2, 7)] + [F(2, 3)]
    for ax in range(3):
        for sg in (1, -1):
            e = [F(0)] * 3
            e[ax] = F(sg)
            out.append(e)
        for other in range(3):
            if other == ax:
                continue
            for t in small:
                for sg in (1, -1):
                    e = [F(0)] * 3
                    e[ax] = sg * (1 - t * t) / (1 + t * t)
                    e[other] = 2 * t / (1 + t * t)
                    out.append(e)
    out += [[F(1, 3), F(2, 3), F(2, 3)], [F(2, 7), F(-3, 7), F(6, 7)], [F(-4, 9), F(7, 9), F(4, 9)]]
    return out


def run(ctx):
    d = T.vunit(T.vatom('d'))
    with ctx.sc('frame of a direction', FR):
        s = Sc(ctx)
        cols = orthonormal(ctx, 'any direction', s.val(None, FR, d))
        ctx.eq('the first axis is the direction', cols[0], d)
        bad, n = None, 0
        for e in directions(ctx):
            s = Sc(ctx)
            v = T.vec3(*[T.const(k) for k in e])
            bad = bad or exact(s.val(None, FR, v), v, e)
            n += 1
            del ctx.interps[:-1]
        ctx.check('on and near the axes (%d directions): orthonormal, the direction first' % n, bad is None, bad)
    with ctx.sc('bases around a normal', BM):
        s = Sc(ctx)
        a, o = magent(s, ID), mellipsoid(s, ID, 'e', curv=False)
        r = s.val(None, BM, d, a, o)
        ref, orth = r.items
        cols = orthonormal(ctx, 'basis around any normal', orth)
        ctx.eq('the first axis is the normal', cols[0], d)
        rc = [T.mcol(ref, k) for k in range(3)]
        pose = s.call(o, 'Obstacle::get_pose', n=0)
        q, p = s.val(o, 'Obstacle::get_orientation'), s.val(o, 'Obstacle::get_position')
        diffv = T.vsub(s.val(a, 'Agent::get_position'), s.val(o, 'Obstacle::get_reference_position'))
        ctx.eq('reference basis: first axis from the reference point to the agent, in the frame of the obstacle', rc[0],
               T.vunit(T.qrot(Q(ONE, T.word_inv(q.w)), diffv)))
        ctx.eq('reference basis: the same tangent', rc[1], cols[1])
        # being a cross product it is orthogonal to both
        ctx.eq('reference basis: the third axis completes the others', rc[2], T.vcross(rc[1], rc[0]))
        bad, n = None, 0
        for e in directions(ctx):
            s = Sc(ctx)
            a, o = magent(s, ID), mellipsoid(s, ID, 'e', curv=False)
            v = T.vec3(*[T.const(k) for k in e])
            bad = bad or exact(s.val(None, BM, v, a, o).items[1], v, e)
            n += 1
            del ctx.interps[:-1]
        ctx.check('normals on and near the axes (%d): orthonormal, the normal first' % n, bad is None, bad)
    ellipsoids(ctx)
    hulls(ctx)


def exact(m, v, e):
    cols = [T.mcol(m, k) for k in range(3)] if isinstance(m, M) else list(m.cols)
    at = '(%s)' % ', '.join(str(float(k)) for k in e)
    if not same_value(cols[0], v):
        return 'direction %s: the first axis is %s' % (at, short(cols[0]))
    for i in range(3):
        for j in range(i, 3):
            g, w = T.vdot(cols[i], cols[j]), ONE if i == j else ZERO
            # closed terms: their value decides
            if g is not w and witness.separate([g], [w], None, 2, 1) is not None:
                return 'direction %s: columns %d and %d have the product %s' % (at, i + 1, j + 1, short(g))
    return None


def ellipsoids(ctx):
    kinds = [('any half-axes, curvature %s' % c, c) for c in (1, 2, 3)] + [('any half-axes and curvature', None)]
    for name, c in kinds:
        for margin in (True, False):
            with ctx.sc('ellipsoid, %s%s' % (name, '' if margin else ', no margins'), 'Ellipsoid::compute_normal_to_agent', 'Ellipsoid::compute_distance_to_point'):
                s = Sc(ctx)
                o = mellipsoid(s, ID, 'e', rot=False, curv=c is None, margin=margin)
                if c is not None:
                    s.call(o, 'Ellipsoid::set_curvature_factor', T.vec3(*[T.const(c)] * 3), n=1)
                # the frame of the obstacle, with the origin at its centre
                s.call(o, 'Obstacle::set_position', T.VZERO, n=1)
                xs = [T.atom('x%d' % k) for k in range(3)]
                a = magent(s, ID, p=T.vec3(*xs), margin=margin)
                n = s.val(o, NORM, a)
                dist = s.val(o, 'Obstacle::compute_distance_to_agent', a)
                grad = T.vec3(*[diff(dist, T.single_base(x)) for x in xs])
                # a gradient that is scaled by a positive number is as good
                ctx.eq('along the gradient of the distance', n, T.vunit(grad))
                ctx.eq('a unit vector', T.vdot(n, n), ONE)
    with ctx.sc('ellipsoid, given in the frame of the obstacle', 'Ellipsoid::compute_normal_to_agent'):
        s = Sc(ctx)
        o, a = mellipsoid(s, ID, 'e', curv=False), magent(s, ID)
        ctx.eq('a unit vector', T.vdot(*[s.val(o, NORM, a)] * 2), ONE)
        bad, n = None, 0
        for c in (1, 2):
            for at in [[F(3), 0, 0], [0, F(-2), 0], [0, 0, F(5)], [0, 0, F(-1, 9)], [F(1), F(1), 0], [F(-1), 0, F(2)], [0, F(1, 2), F(-7)], [F(1), F(-2), F(3)]]:
                s = Sc(ctx)
                o = mellipsoid(s, ID, 'e', rot=False, curv=False, margin=False)
                s.call(o, 'Obstacle::set_position', T.VZERO, n=1)
                s.call(o, 'Ellipsoid::set_axis_lengths', T.vec3(T.const(1), T.const(2), T.const(3)), n=1)
                s.call(o, 'Ellipsoid::set_curvature_factor', T.vec3(*[T.const(c)] * 3), n=1)
                a = magent(s, ID, p=T.vec3(*[T.const(k) for k in at]), margin=False)
                v = s.val(o, NORM, a)
                want = T.vunit(T.vec3(*[T.const(F(2 * c, l) * (F(k) / l) ** (2 * c - 1)) for k, l in zip(at, (1, 2, 3))]))
                n += 1
                if not same_value(v, want):
                    ctx.eq('at (%s), curvature %d' % (', '.join(str(k) for k in at), c), v, want)
                del ctx.interps[:-1]
        ctx.ok('on the axes, in the planes and in between: %d points' % n)


def hulls(ctx):
    for n in (2, 3, 4) if ctx.thorough else (2, 3):
        for inside in (False, True):
            with ctx.sc('%s hull of %d samples' % ('inside' if inside else 'outside', n), 'StarShapeHull::compute_normal_to_agent'):
                s = Sc(ctx)
                h = mhull(s, ID, 'h', n, inside, rot=True)
                a = magent(s, ID)
                v = s.val(h, NORM, a)
                q = s.val(h, 'Obstacle::get_orientation')
                loc = T.qrot(Q(ONE, T.word_inv(q.w)), T.vsub(s.val(a, 'Agent::get_position'), s.val(h, 'Obstacle::get_position')))
                phi = T.fn('atan2', T.vcomp(loc, 1), T.vcomp(loc, 0))
                phis = [T.atom('phih%d' % k) for k in range(n)]
                pts = [T.vec3(T.mul(T.atom('radh%d' % k, pos=True), T.fn('cos', phis[k])), T.mul(T.atom('radh%d' % k, pos=True), T.fn('sin', phis[k])), ZERO) for k in range(n)]
                up = [lt(phis[k], phis[k + 1]) for k in range(n - 1)]
                for k in range(n + 1):
                    lits = list(up)
                    lits += [lt(p, phi) for p in phis[:k]] + [le(phi, p) for p in phis[k:]]
                    con = assume(*lits)
                    e = T.vsub(pts[k % n], pts[(k + 1) % n])
                    want = T.vunit(T.vcross(e, T.vec3(ZERO, ZERO, ONE)))
                    if any(same_value(T.restrict(v, con), w) for w in (want, T.vneg(want))):
                        ctx.ok('agent number %d in the order: unit vector orthogonal to its edge and to the vertical' % k)
                        continue
                    ctx.eq('agent number %d in the order: orthogonal to its edge' % k, T.vdot(v, e), ZERO, con=con)
                    ctx.eq('agent number %d in the order: horizontal' % k, T.vcomp(v, 2), ZERO, con=con)
                    ctx.eq('agent number %d in the order: a unit vector' % k, T.vdot(v, v), ONE, con=con)
