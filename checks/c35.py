"""C35 One surface: every query about an obstacle agrees on where its surface is."""
from engine.ctx import *
from checks.scenes import *
from checks.c32 import parts, under, inflated

EXPLANATION = ('Abstract interpretation of the distance, membership, sampling and line queries of one and the same symbolic obstacle; the value graphs are compared with one '
               'another: membership is equivalent to a distance below one, the distance of outline points, samples and line intersections is one, it is zero at the centre and '
               'grows along every ray. For hulls points are given as a symbolic multiple of a surface sample with symbolic radius.')
ASSUMPTIONS = ['real arithmetic; half-axes above the internal threshold', 'membership and line queries of ellipsoids are those of the plane of their first two axes, with curvature 1',
               'the centre of a hull is not asked for']
D, INS, SMP, LIN, TOA = ('Obstacle::' + x for x in ('compute_distance_to_point', 'point_is_inside', 'sample_from_parameterization', 'compute_interesection_points', 'compute_distance_to_agent'))
PT = ['Matrix<double, 3, 1>', 'Array<double, 3, 1>']


def dist(s, o, p, m=T.VZERO):
    return s.val(o, D, p, m, pt=PT)


def lengths(s, o):
    at = s.attrs(o)
    return T.vadd(at['axis_lengths'], at['safety_margin'])


def big(s):
    o = inflated(s, True)
    for k in range(3):
        T.base('comp', ((), T.base('vec', 'le')), k).facts['lo'] = F(1, 1000)
    return o


def place(s, o, v):
    """a point given in the frame of the obstacle"""
    return T.vadd(T.qrot(s.val(o, 'Obstacle::get_orientation'), v), s.val(o, 'Obstacle::get_position'))


def implies(a, b):
    return T.b_ite(a, b, TRUE)


def angles(s, name='u'):
    """a unit vector"""
    a, b = T.atom(name + 'a'), T.atom(name + 'b')
    c, sn = (lambda x: T.fn('cos', x)), (lambda x: T.fn('sin', x))
    return T.vec3(T.mul(sn(a), c(b)), T.mul(sn(a), sn(b)), c(a))


def cw(u, v):
    return T.vec3(*[T.mul(T.vcomp(u, k), T.vcomp(v, k)) for k in range(3)])


def ray_hooks(s, rays):
    """polar coordinates of points on given rays (exactness of the conversion is C22's subject)"""
    def to_polar(i, this, vals, fn):
        v = i.read(vals[0]) if isinstance(vals[0], (LV, LVG)) else vals[0]
        for p, r, phi in rays:
            if T._same(v, p):
                return T.vec3(r, T.scale(T.PI, F(1, 2)), phi)
        raise Undecided('polar coordinates of something else')
    s.i.hooks[NS + 'MathTools::cartesian_to_polar'] = to_polar


def run(ctx):
    # ------------------------------------------------ ellipsoids
    for margin in (False, True):
        mt = 'with margin' if margin else 'without margin'
        with ctx.sc('membership, ellipsoid ' + mt, 'Ellipsoid::point_is_inside', 'Ellipsoid::compute_distance_to_point'):
            s = Sc(ctx)
            o = big(s) if margin else mellipsoid(s, ID, 'e', curv=False, margin=False)
            p = place(s, o, T.vec3(T.atom('x'), T.atom('y'), ZERO))
            d, i = dist(s, o, p), s.val(o, INS, p)
            ctx.true('a distance below one means inside', implies(lt(d, ONE), i))
            ctx.true('a distance above one means outside', implies(lt(ONE, d), T.b_not(i)))
            ctx.check('the centre is inside', s.val(o, INS, s.val(o, 'Obstacle::get_position')) is TRUE, 'it is not')
        with ctx.sc('surface, ellipsoid ' + mt, 'Ellipsoid::compute_distance_to_point'):
            s = Sc(ctx)
            o = mellipsoid(s, ID, 'e', curv=False, margin=margin)
            l, m = lengths(s, o), s.nnvec('mq')
            ctx.eq('the distance of an outline point is one', dist(s, o, place(s, o, cw(l, angles(s)))), ONE)
            ctx.eq('also with a margin of the point', dist(s, o, place(s, o, cw(T.vadd(l, m), angles(s))), m), ONE)
            for k in range(3):
                for sg in (1, -1):
                    e = T.vec3(*[T.const(sg if j == k else 0) for j in range(3)])
                    ctx.eq('end of axis %d, %d' % (k, sg), dist(s, o, place(s, o, cw(T.vadd(l, m), e)), m), ONE)
        with ctx.sc('distance along a ray, ellipsoid ' + mt, 'Ellipsoid::compute_distance_to_point'):
            for curv in ((1, 1, 1), (2, 2, 2), (1, 3, 2), (4, 1, 1)):
                s = Sc(ctx)
                o = mellipsoid(s, ID, 'e', curv=False, margin=margin)
                s.call(o, 'Ellipsoid::set_curvature_factor', T.vec3(*[T.const(c) for c in curv]), n=1)
                ct = ', curvature %s' % (curv,)
                ctx.eq('zero at the centre' + ct, dist(s, o, s.val(o, 'Obstacle::get_position')), ZERO)
                t = T.atom('t', pos=True)
                d = dist(s, o, place(s, o, T.vscale(T.vec3(*[T.atom('v%d' % k) for k in range(3)]), t)))
                if len(set(curv)) == 1:
                    d1 = dist(s, o, place(s, o, T.vec3(*[T.atom('v%d' % k) for k in range(3)])))
                    ctx.eq('grows with the power %d of the distance to the centre%s' % (2 * curv[0], ct), d, T.mul(T.powp(t, T.const(2 * curv[0])), d1))
                ctx.mono('grows away from the centre' + ct, d, t, '+')
                ctx.ge0('is not negative' + ct, d)
                for k in range(3):
                    for sg in (1, -1):
                        e = T.vec3(*[T.const(sg if j == k else 0) for j in range(3)])
                        ctx.eq('end %d of axis %d%s' % (sg, k, ct), dist(s, o, place(s, o, cw(lengths(s, o), e))), ONE)
        with ctx.sc('samples, ellipsoid ' + mt, 'Ellipsoid::sample_from_parameterization', 'Ellipsoid::compute_distance_to_point'):
            n = 5
            p0 = T.vec3(T.atom('px'), T.atom('py'), ZERO)
            for b in (TRUE, FALSE):    # (that samples turn along with the obstacle is C05's subject)
                s = s2 = Sc(ctx)
                o = o2 = mellipsoid(s, ID, 'e', curv=False, margin=margin, q=T.QID, p=p0)
                x = s.val(o, SMP, T.const(n), b)
                if b is FALSE:
                    s2 = Sc(ctx)
                    o2 = mellipsoid(s2, ID, 'e', curv=False, margin=False, q=T.QID, p=p0)
                for k in range(n):
                    ctx.eq('sample %d has distance one, %s margin' % (k, 'with' if b is TRUE else 'without'), dist(s2, o2, s.i.col(x, k)), ONE)
        with ctx.sc('line, ellipsoid ' + mt, 'Ellipsoid::compute_interesection_points', 'Ellipsoid::compute_distance_to_point'):
            for nm, a in (('any line', T.vec3(T.atom('ax'), T.atom('ay'), ZERO)), ('line through the centre', T.VZERO)):
                s = Sc(ctx)
                o = big(s) if margin else mellipsoid(s, ID, 'e', curv=False, margin=False)
                v = T.vec3(T.atom('bx'), T.atom('by'), ZERO)
                hit, p, q = parts(s.val(o, LIN, place(s, o, a), place(s, o, T.vadd(a, v))))
                for w, x in (('first', p), ('second', q)):
                    under(ctx, hit, '%s: the %s point has distance one' % (nm, w), dist(s, o, x), ONE)
        with ctx.sc('agent, ellipsoid ' + mt, 'Obstacle::compute_distance_to_agent', 'Ellipsoid::compute_distance_to_point'):
            s = Sc(ctx)
            o = mellipsoid(s, ID, 'e', margin=margin)
            ag = magent(s, ID)
            m = s.attrs(ag)['safety_margin'] if 'safety_margin' in s.attrs(ag) else s.val(ag, 'Agent::get_safety_margin')
            m = T.vec3(m, m, m) if isinstance(m, P) else m
            ctx.eq('is asked with its position and margin', s.val(o, TOA, ag), dist(s, o, s.val(ag, 'Agent::get_position'), m))
            ctx.eq('a point has no margin of its own', s.val(o, D, T.vatom('x'), ZERO, pt=['Matrix<double, 3, 1>', 'double']), dist(s, o, T.vatom('x')))
    # ------------------------------------------------ hulls
    n = 6 if ctx.thorough else 4
    phis = [T.const(F(2 * k - n, 2) + F(1, 7)) for k in range(n)]
    for inside in (False, True):
        for turned in (False, True):
            tag = '%s hull%s' % ('inside' if inside else 'outside', ', turned' if turned else '')
            with ctx.sc(tag, 'StarShapeHull::compute_distance_to_point', 'StarShapeHull::point_is_inside'):
                for k in range(n):
                    s = Sc(ctx)
                    h = mhull(s, ID, 'h', n, inside, rot=turned, phis=phis)
                    t = T.atom('t', pos=True)
                    r = T.atom('radh%d' % k, pos=True)
                    own = T.vec3(T.mul(r, T.fn('cos', phis[k])), T.mul(r, T.fn('sin', phis[k])), ZERO)
                    ray_hooks(s, [(T.vscale(own, t), T.mul(t, r), phis[k]), (own, r, phis[k])])
                    x = place(s, h, T.vscale(own, t))
                    ctx.eq('distance in direction %d' % k, dist(s, h, x), T.div(ONE, t) if inside else t)
                    i = s.val(h, INS, x)
                    ctx.true('below the surface is inside, direction %d' % k, implies(lt(t, ONE), i))
                    ctx.true('above the surface is outside, direction %d' % k, implies(lt(ONE, t), T.b_not(i)))
                    ctx.eq('the sample itself has distance one, direction %d' % k, dist(s, h, s.read(h).f['cartesian_surface_points'].cols[k]), ONE)
                    ctx.eq('for every margin, direction %d' % k, dist(s, h, x, s.nnvec('mq')), T.div(ONE, t) if inside else t)
