"""C05 Geometric queries only depend on relative placement, in the right frames."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Covariance by substitution: every scene is built twice through the public interface, once as given and once moved by a symbolic '
               'rigid motion; the value graph of every query is required to be invariant (distances, answers, normals in the own frame) or to '
               'move along (points, repulsion, modulation matrix, velocities).  A quantity combined or returned in the wrong frame breaks the law.')
ASSUMPTIONS = ['real arithmetic', 'half-axes above the internal threshold (degenerate half-axes are flat)']


def pair(ctx, mk):
    """the same scene as given and moved; returns two scene builders and what mk made"""
    out = []
    s1 = Sc(ctx)
    a = mk(s1, ID)
    s2 = Sc(ctx)
    g = rigid(s2)
    b = mk(s2, g)
    return s1, a, s2, b, g


def run(ctx):
    for rot in (False, True):
        tag = 'turned' if rot else 'upright'
        with ctx.sc('ellipsoid, %s' % tag, 'Ellipsoid::compute_distance_to_point', 'Ellipsoid::compute_normal_to_agent', 'Ellipsoid::point_is_inside'):
            s, (o, a), t, (o2, a2), g = pair(ctx, lambda s, g: (mellipsoid(s, g, '0', rot=rot), magent(s, g)))
            x = T.vatom('x')
            m = s.nnvec('qm')
            V3, A3 = 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'
            D = 'Obstacle::compute_distance_to_point'
            ctx.eq('distance to a point is invariant', t.val(o2, D, g.pt(x), m, pt=[V3, A3]), s.val(o, D, x, m, pt=[V3, A3]))
            ctx.eq('distance to a point (one margin) is invariant', t.val(o2, D, g.pt(x), T.atom('m1'), pt=[V3, 'double']),
                   s.val(o, D, x, T.atom('m1'), pt=[V3, 'double']))
            ctx.eq('distance to the agent is invariant', t.val(o2, 'Obstacle::compute_distance_to_agent', a2), s.val(o, 'Obstacle::compute_distance_to_agent', a))
            ctx.eq('normal is given in the frame of the obstacle', t.val(o2, 'Obstacle::compute_normal_to_agent', a2), s.val(o, 'Obstacle::compute_normal_to_agent', a))
            ctx.eq('inside is invariant', t.val(o2, 'Obstacle::point_is_inside', g.pt(x)), s.val(o, 'Obstacle::point_is_inside', x))
            ctx.eq('repulsion turns along', t.val(o2, 'Obstacle::compute_repulsion_vector', a2), g.dir(s.val(o, 'Obstacle::compute_repulsion_vector', a)))
            ctx.eq('thresholded repulsion turns along', t.val(o2, 'Obstacle::generate_repulsion', a2), g.dir(s.val(o, 'Obstacle::generate_repulsion', a)))
            for b in (TRUE, FALSE):
                ctx.eq('area is invariant', t.val(o2, 'Ellipsoid::area', b), s.val(o, 'Ellipsoid::area', b))
        with ctx.sc('line and ellipsoid, %s' % tag, 'Ellipsoid::compute_interesection_points'):
            s, o, t, o2, g = pair(ctx, lambda s, g: mellipsoid(s, g, '0', rot=rot, curv=False))
            x, y = T.vatom('x'), T.vatom('y')
            I = 'Obstacle::compute_interesection_points'
            r, r2 = s.val(o, I, x, y), t.val(o2, I, g.pt(x), g.pt(y))
            ctx.eq('answer is invariant', r2.items[0], r.items[0])
            hit = r.items[0]
            for k in range(2):
                ctx.eq('point %d moves along' % k, T.vite(hit, r2.items[1].items[k], T.VZERO), T.vite(hit, g.pt(r.items[1].items[k]), T.VZERO))
        with ctx.sc('shifted reference point, %s' % tag, 'Obstacle::shift_reference_point'):
            s, (o, a), t, (o2, a2), g = pair(ctx, lambda s, g: (mellipsoid(s, g, '0', rot=rot, curv=False), magent(s, g)))
            s.call(o, 'Obstacle::shift_reference_point', a)
            t.call(o2, 'Obstacle::shift_reference_point', a2)
            ctx.eq('moves along', t.val(o2, 'Obstacle::get_reference_position'), g.pt(s.val(o, 'Obstacle::get_reference_position')))
        with ctx.sc('modulation matrix, %s' % tag, 'Modulation::compute_modulation_matrix', 'Modulation::compute_basis_matrices'):
            s, (o, a), t, (o2, a2), g = pair(ctx, lambda s, g: (mellipsoid(s, g, '0', rot=rot, curv=False), magent(s, g)))
            r, r2 = s.val(None, 'Modulation::compute_modulation_matrix', a, o), t.val(None, 'Modulation::compute_modulation_matrix', a2, o2)
            R = libmodel.q_matrix(g.q)
            ctx.eq('matrix turns along', r2.items[0], T.mmul(R, T.mmul(r.items[0], T.mT(R))))
            ctx.eq('basis stays in the frame of the obstacle', r2.items[1], r.items[1])
            ctx.eq('distance is invariant', r2.items[2], r.items[2])
            # the world frame: eigenvector is the world direction from the reference point
            e = T.vunit(T.vsub(s.val(a, 'Agent::get_position'), s.val(o, 'Obstacle::get_reference_position')))
            lam = s.val(None, 'Modulation::compute_diagonal_eigenvalues', r.items[2])
            ctx.eq('matrix acts on world directions', T.mvec(r.items[0], e), T.vscale(e, T.vcomp(T.mcol(lam, 0), 0)))
    with ctx.sc('relative velocities', 'Modulation::compute_relative_velocities'):
        def mk(s, g):
            os = [mellipsoid(s, g, str(k), curv=False) for k in range(2)]
            a = magent(s, g)
            ms = [s.val(None, 'Modulation::compute_modulation_matrix', a, o).items[1] for o in os]
            d = Arr(2, 1, [T.atom('d0'), T.atom('d1')])
            w = Arr(2, 1, [T.atom('w0'), T.atom('w1')])
            return s.val(None, 'Modulation::compute_relative_velocities', a, Seq([s.sp(o) for o in os]), d, w, Seq(ms))
        s, r, t, r2, g = pair(ctx, mk)
        for k, n in enumerate(('relative velocity', 'velocity of the obstacles')):
            ctx.eq('%s turns along' % n, r2.items[k], g.dir(r.items[k]))
    for n in (1, 2):
        with ctx.sc('commanded velocity, %d obstacles' % n, 'Modulation::modulate_velocity'):
            def mk(s, g):
                os = [mellipsoid(s, g, str(k), curv=False) for k in range(n)]
                a = magent(s, g)
                e = s.env(os)
                return s.val(None, 'Modulation::modulate_velocity', a, e, FALSE, TRUE if n == 1 else FALSE)
            s, v, t, v2, g = pair(ctx, mk)
            weigh_cov(ctx, 'turns along', v, v2, g)
    for inside in (False, True):
        with ctx.sc('%s hull' % ('inside' if inside else 'outside'), 'StarShapeHull::compute_distance_to_point', 'StarShapeHull::compute_normal_to_agent', 'StarShapeHull::point_is_inside'):
            s, (o, a), t, (o2, a2), g = pair(ctx, lambda s, g: (mhull(s, g, inside=inside), magent(s, g)))
            x = T.vatom('x')
            ctx.eq('distance is invariant', t.val(o2, 'Obstacle::compute_distance_to_agent', a2), s.val(o, 'Obstacle::compute_distance_to_agent', a))
            ctx.eq('normal is given in the frame of the hull', t.val(o2, 'Obstacle::compute_normal_to_agent', a2), s.val(o, 'Obstacle::compute_normal_to_agent', a))
            ctx.eq('inside is invariant', t.val(o2, 'Obstacle::point_is_inside', g.pt(x)), s.val(o, 'Obstacle::point_is_inside', x))
    with ctx.sc('aggregate', 'Aggregate::compute_normal_to_agent', 'Aggregate::compute_distance_to_point', 'Aggregate::point_is_inside', 'Aggregate::compute_repulsion_vector'):
        def mk(s, g):
            s.i.hooks = NOHULL
            os = [mellipsoid(s, g, str(k), curv=False) for k in range(2)]
            ag = maggregate(s, g, os, [mhull(s, g, 'hi', 2, True), mhull(s, g, 'ho', 2, False)])
            s.call(ag, 'Obstacle::set_orientation', g.quat(s.quat('qag')))
            return ag, magent(s, g)
        s, (o, a), t, (o2, a2), g = pair(ctx, mk)
        x = T.vatom('x')
        ctx.eq('distance is invariant', t.val(o2, 'Obstacle::compute_distance_to_agent', a2), s.val(o, 'Obstacle::compute_distance_to_agent', a))
        ctx.eq('inside is invariant', t.val(o2, 'Obstacle::point_is_inside', g.pt(x)), s.val(o, 'Obstacle::point_is_inside', x))
        ctx.eq('position moves along', t.val(o2, 'Obstacle::get_position'), g.pt(s.val(o, 'Obstacle::get_position')))
        ctx.eq('reference point moves along', t.val(o2, 'Obstacle::get_reference_position'), g.pt(s.val(o, 'Obstacle::get_reference_position')))
        ctx.eq('repulsion turns along', t.val(o2, 'Obstacle::compute_repulsion_vector', a2), g.dir(s.val(o, 'Obstacle::compute_repulsion_vector', a)))
        n = s.val(o, 'Obstacle::compute_normal_to_agent', a)
        ctx.eq('normal is given in the frame of the aggregate', t.val(o2, 'Obstacle::compute_normal_to_agent', a2), n)
        q = s.val(o, 'Obstacle::get_orientation')
        s.call(o, 'Obstacle::set_orientation', T.QID)
        ctx.eq('world normal does not depend on the frame of the aggregate', T.qrot(q, n), s.val(o, 'Obstacle::compute_normal_to_agent', a))
    with ctx.sc('samples', 'Ellipsoid::sample_from_parameterization'):
        for b in (TRUE, FALSE):
            s = Sc(ctx)
            g = rigid(s, planar=True)
            p0 = T.vec3(T.atom('px'), T.atom('py'), ZERO)
            o = mellipsoid(s, ID, '0', q=T.QID, p=p0)
            o2 = mellipsoid(s, g, '0', q=T.QID, p=p0)
            x = s.val(o, 'Ellipsoid::sample_from_parameterization', T.const(4), b)
            y = s.val(o2, 'Ellipsoid::sample_from_parameterization', T.const(4), b)
            for k in range(4):
                ctx.eq('sample %d moves along (margin %s)' % (k, b is TRUE), s.i.col(y, k), g.pt(s.i.col(x, k)))
    with ctx.sc('envelope and membership', 'Agent::in_obstacle', 'Agent::exist_path'):
        s, (o, a), t, (o2, a2), g = pair(ctx, lambda s, g: (mellipsoid(s, g, '0', curv=False), magent(s, g)))
        x = T.vatom('x')
        ctx.eq('path answer is invariant', t.val(a2, 'Agent::exist_path', g.pt(x), Seq([t.sp(o2)])), s.val(a, 'Agent::exist_path', x, Seq([s.sp(o)])))
    for inside, n, turned in [(i, n, r) for i in (False, True) for n, r in ((2, False), (3, False), (2, True), (3, True))]:
        with ctx.sc('%s hull from members, %d directions%s' % ('inside' if inside else 'outside', n, ', turned' if turned else ''), 'StarShapeHull::compute_from_primitives'):
            def mk(s, g):
                seen = []

                def hit(i, this, vals, fn):
                    k = len(seen)
                    seen.append([i.read(v) for v in vals])
                    c = T.bpred('hit', T.base('atom', 'k%d' % k))
                    pts = [g.pt(T.vadd(T.vatom('c'), T.vec3(T.atom('u%d%s' % (k, e)), T.atom('v%d%s' % (k, e)), ZERO))) for e in 'ab']
                    return Tup([c, Tup(pts)])
                o = mabstract(s, g, '0', {'compute_interesection_points': hit})
                h = s.new('StarShapeHull', TRUE if inside else FALSE, T.const(n))
                if turned:
                    s.call(h, 'Obstacle::set_orientation', g.quat(T.QID))
                s.call(h, 'StarShapeHull::compute_from_primitives', Seq([s.sp(o)]), g.pt(T.vatom('c')), n=2)
                return h, seen
            s = Sc(ctx)
            h, q = mk(s, ID)
            t = Sc(ctx)
            g = rigid(t) if turned else Motion(T.QID, T.vatom('tG'))
            h2, q2 = mk(t, g)
            ctx.ok('as many rays') if len(q) == len(q2) else ctx.fail('as many rays', '%d and %d' % (len(q), len(q2)))
            for k, (x, y) in enumerate(zip(q, q2)):
                for e in range(2):
                    ctx.eq('ray %d moves along' % k, y[e], g.pt(x[e]))
            a, b = s.read(h).f, t.read(h2).f
            for f in sorted(a):
                if isinstance(a[f], C3):
                    w = 'cart' in f
                    for k in range(n):
                        ctx.eq('%s: sample %d' % (f, k), b[f].cols[k], g.pt(a[f].cols[k]) if w else a[f].cols[k])


def weigh_cov(ctx, name, v, v2, g):
    ctx.sep(name, finite(v2), g.dir(finite(v)), n=12)
