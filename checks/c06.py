"""C06 Quantities are dimensionally consistent (uniform scaling)."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Dimensional analysis by homogeneity: every scene is built twice through the public interface, once as given and once with all '
               'lengths multiplied by a symbolic factor; every query is required to be homogeneous of the right degree (0 for distances, answers, '
               'normals, matrices and weights, 1 for points, radii and velocities, 2 for areas), decided on normal forms.')
ASSUMPTIONS = ['real arithmetic', 'scale factor at least 1 and half-axes above the internal threshold (the absolute thresholds of the code do not scale)']
V3, A3 = 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'


def two(ctx, mk):
    s1 = Sc(ctx)
    a = mk(s1, ID)
    s2 = Sc(ctx)
    g = scaling()
    return s1, a, s2, mk(s2, g), g


def run(ctx):
    for rot in (False, True):
        tag = 'turned' if rot else 'upright'
        with ctx.sc('ellipsoid, %s' % tag, 'Ellipsoid::compute_distance_to_point', 'Ellipsoid::compute_normal_to_agent', 'Ellipsoid::point_is_inside'):
            s, (o, a), t, (o2, a2), g = two(ctx, lambda s, g: (mellipsoid(s, g, '0', rot=rot), magent(s, g)))
            x, m = T.vatom('x'), s.nnvec('qm')
            D = 'Obstacle::compute_distance_to_point'
            ctx.eq('distance to a point', t.val(o2, D, g.pt(x), g.len(m), pt=[V3, A3]), s.val(o, D, x, m, pt=[V3, A3]))
            ctx.eq('distance to a point (one margin)', t.val(o2, D, g.pt(x), g.len(T.atom('m1', nonneg=True)), pt=[V3, 'double']),
                   s.val(o, D, x, T.atom('m1', nonneg=True), pt=[V3, 'double']))
            ctx.eq('distance to the agent', t.val(o2, 'Obstacle::compute_distance_to_agent', a2), s.val(o, 'Obstacle::compute_distance_to_agent', a))
            ctx.eq('normal', t.val(o2, 'Obstacle::compute_normal_to_agent', a2), s.val(o, 'Obstacle::compute_normal_to_agent', a))
            ctx.eq('inside', t.val(o2, 'Obstacle::point_is_inside', g.pt(x)), s.val(o, 'Obstacle::point_is_inside', x))
            ctx.eq('repulsion', t.val(o2, 'Obstacle::compute_repulsion_vector', a2), g.dir(s.val(o, 'Obstacle::compute_repulsion_vector', a)))
            ctx.eq('thresholded repulsion', t.val(o2, 'Obstacle::generate_repulsion', a2), g.dir(s.val(o, 'Obstacle::generate_repulsion', a)))
            for b in (TRUE, FALSE):
                ctx.eq('area (margin %s)' % (b is TRUE), t.val(o2, 'Ellipsoid::area', b), T.mul(T.mul(g.lam, g.lam), s.val(o, 'Ellipsoid::area', b)))
        with ctx.sc('modulation matrix, %s' % tag, 'Modulation::compute_modulation_matrix', 'Modulation::compute_basis_matrices'):
            s, (o, a), t, (o2, a2), g = two(ctx, lambda s, g: (mellipsoid(s, g, '0', rot=rot, curv=False), magent(s, g)))
            r, r2 = s.val(None, 'Modulation::compute_modulation_matrix', a, o), t.val(None, 'Modulation::compute_modulation_matrix', a2, o2)
            for k, n in enumerate(('matrix', 'basis', 'distance')):
                ctx.eq(n, r2.items[k], r.items[k])
        with ctx.sc('line and ellipsoid, %s' % tag, 'Ellipsoid::compute_interesection_points'):
            s, o, t, o2, g = two(ctx, lambda s, g: mellipsoid(s, g, '0', rot=rot, curv=False))
            x, y = T.vatom('x'), T.vatom('y')
            I = 'Obstacle::compute_interesection_points'
            r, r2 = s.val(o, I, x, y), t.val(o2, I, g.pt(x), g.pt(y))
            hit = T.b_and(r.items[0], r2.items[0])
            for k in range(2):
                ctx.eq('point %d' % k, T.vite(hit, r2.items[1].items[k], T.VZERO), T.vite(hit, g.pt(r.items[1].items[k]), T.VZERO))
            s, (o, a), t, (o2, a2), g = two(ctx, lambda s, g: (mellipsoid(s, g, '0', rot=rot, curv=False), magent(s, g)))
    with ctx.sc('relative velocities', 'Modulation::compute_relative_velocities'):
        def mk(s, g):
            os = [mellipsoid(s, g, str(k), curv=False) for k in range(2)]
            a = magent(s, g)
            ms = [T.mcols(tuple(T.vatom('B%d%d' % (k, j)) for j in range(3))) for k in range(2)]
            d = Arr(2, 1, [T.atom('d0'), T.atom('d1')])
            w = Arr(2, 1, [T.atom('w0'), T.atom('w1')])
            # angular velocities do not scale
            return s.val(None, 'Modulation::compute_relative_velocities', a, Seq([s.sp(o) for o in os]), d, w, Seq(ms))
        s, r, t, r2, g = two(ctx, mk)
        for k, n in enumerate(('relative velocity', 'velocity of the obstacles')):
            ctx.eq(n, r2.items[k], g.dir(r.items[k]))
    with ctx.sc('polar coordinates', 'MathTools::cartesian_to_polar', 'MathTools::polar_to_cartesian'):
        s = Sc(ctx)
        g = scaling()
        x = T.vatom('x')
        u, v = s.val(None, 'MathTools::cartesian_to_polar', x), s.val(None, 'MathTools::cartesian_to_polar', g.pt(x))
        ctx.eq('radius', T.vcomp(v, 0), g.len(T.vcomp(u, 0)))
        for k in (1, 2):
            ctx.eq('angle %d' % k, T.vcomp(v, k), T.vcomp(u, k))
        y = T.vec3(T.atom('r', pos=True), T.atom('th'), T.atom('ph'))
        z = T.vec3(g.len(T.vcomp(y, 0)), T.vcomp(y, 1), T.vcomp(y, 2))
        ctx.eq('point', s.val(None, 'MathTools::polar_to_cartesian', z), g.pt(s.val(None, 'MathTools::polar_to_cartesian', y)))
    for n in (1, 2):
        with ctx.sc('commanded velocity, %d obstacles' % n, 'Modulation::modulate_velocity'):
            def mk(s, g):
                os = [mellipsoid(s, g, str(k), curv=False) for k in range(n)]
                a = magent(s, g)
                return s.val(None, 'Modulation::modulate_velocity', a, s.env(os), FALSE, FALSE)
            s, v, t, v2, g = two(ctx, mk)
            ctx.sep('scales', finite(v2), g.dir(finite(v)), n=12)
    for inside in (False, True):
        with ctx.sc('%s hull' % ('inside' if inside else 'outside'), 'StarShapeHull::compute_distance_to_point', 'StarShapeHull::compute_normal_to_agent', 'StarShapeHull::point_is_inside'):
            s, (o, a), t, (o2, a2), g = two(ctx, lambda s, g: (mhull(s, g, inside=inside), magent(s, g)))
            x = T.vatom('x')
            ctx.eq('distance', t.val(o2, 'Obstacle::compute_distance_to_agent', a2), s.val(o, 'Obstacle::compute_distance_to_agent', a))
            ctx.eq('normal', t.val(o2, 'Obstacle::compute_normal_to_agent', a2), s.val(o, 'Obstacle::compute_normal_to_agent', a))
            ctx.eq('inside', t.val(o2, 'Obstacle::point_is_inside', g.pt(x)), s.val(o, 'Obstacle::point_is_inside', x))
            s, o, t, o2, g = two(ctx, lambda s, g: mhull(s, g, n=3, inside=inside, rmin=g.len(T.atom('rmin', pos=True))))
            ctx.eq('closed', t.val(o2, 'Obstacle::is_closed'), s.val(o, 'Obstacle::is_closed'))
    with ctx.sc('aggregate', 'Aggregate::compute_normal_to_agent', 'Aggregate::compute_distance_to_point', 'Aggregate::point_is_inside', 'Aggregate::compute_repulsion_vector'):
        def mk(s, g):
            s.i.hooks = NOHULL
            os = [mellipsoid(s, g, str(k), curv=False) for k in range(2)]
            ag = maggregate(s, g, os, [mhull(s, g, 'hi', 2, True), mhull(s, g, 'ho', 2, False)])
            s.call(ag, 'Obstacle::set_orientation', g.quat(s.quat('qag')))
            return ag, magent(s, g)
        s, (o, a), t, (o2, a2), g = two(ctx, mk)
        x = T.vatom('x')
        ctx.eq('distance', t.val(o2, 'Obstacle::compute_distance_to_agent', a2), s.val(o, 'Obstacle::compute_distance_to_agent', a))
        ctx.eq('inside', t.val(o2, 'Obstacle::point_is_inside', g.pt(x)), s.val(o, 'Obstacle::point_is_inside', x))
        ctx.eq('position', t.val(o2, 'Obstacle::get_position'), g.pt(s.val(o, 'Obstacle::get_position')))
        ctx.eq('reference point', t.val(o2, 'Obstacle::get_reference_position'), g.pt(s.val(o, 'Obstacle::get_reference_position')))
        ctx.eq('repulsion', t.val(o2, 'Obstacle::compute_repulsion_vector', a2), g.dir(s.val(o, 'Obstacle::compute_repulsion_vector', a)))
        ctx.eq('normal', t.val(o2, 'Obstacle::compute_normal_to_agent', a2), s.val(o, 'Obstacle::compute_normal_to_agent', a))
    with ctx.sc('samples', 'Ellipsoid::sample_from_parameterization'):
        for b in (TRUE, FALSE):
            s = Sc(ctx)
            g = scaling()
            p0 = T.vec3(T.atom('px'), T.atom('py'), ZERO)
            q = s.qz('yaw')
            o, o2 = mellipsoid(s, ID, '0', q=q, p=p0), mellipsoid(s, g, '0', q=q, p=p0)
            x = s.val(o, 'Ellipsoid::sample_from_parameterization', T.const(4), b)
            y = s.val(o2, 'Ellipsoid::sample_from_parameterization', T.const(4), b)
            for k in range(4):
                ctx.eq('sample %d (margin %s)' % (k, b is TRUE), s.i.col(y, k), g.pt(s.i.col(x, k)))
    for inside in (False, True):
        with ctx.sc('%s hull from members' % ('inside' if inside else 'outside'), 'StarShapeHull::compute_from_primitives'):
            n = 3 if ctx.thorough else 2

            def mk(s, g):
                seen = []

                def hit(i, this, vals, fn):
                    k = len(seen)
                    seen.append([i.read(v) for v in vals])
                    c = T.bpred('hit', T.base('atom', 'k%d' % k))
                    pts = [g.pt(T.vadd(T.vatom('c'), T.vec3(T.atom('u%d%s' % (k, e)), T.atom('v%d%s' % (k, e)), ZERO))) for e in 'ab']
                    return Tup([c, Tup(pts)])
                o = mabstract(s, g, '0', {'compute_interesection_points': hit})
                h = s.new('StarShapeHull', TRUE if inside else FALSE, T.const(n), g.len(T.atom('rmin', pos=True)))
                s.call(h, 'StarShapeHull::compute_from_primitives', Seq([s.sp(o)]), g.pt(T.vatom('c')), n=2)
                return h
            s, h, t, h2, g = two(ctx, mk)
            a, b = s.read(h).f, t.read(h2).f
            for f in sorted(a):
                if isinstance(a[f], C3):
                    for k in range(n):
                        x, y = a[f].cols[k], b[f].cols[k]
                        if 'cart' in f:
                            ctx.eq('surface point %d' % k, y, g.pt(x))
                        else:
                            ctx.eq('radius %d' % k, T.vcomp(y, 0), g.len(T.vcomp(x, 0)))
                            for e in (1, 2):
                                ctx.eq('angle %d of sample %d' % (e, k), T.vcomp(y, e), T.vcomp(x, e))
