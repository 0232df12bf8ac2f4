"""C23 Margins and half-axes only ever make obstacles bigger."""
from engine.ctx import *
from checks.scenes import *
from checks.c13 import few_samples, padded

EXPLANATION = ('Abstract interpretation of the queries of ellipsoids with symbolic half-axes, margins, curvature, poses and points to value graphs. Growth is decided by a '
               'polarity analysis of the graphs in each half-axis and margin; that margins count exactly like half-axes by comparing the graphs of two obstacles '
               'between which lengths are moved from the margin to the half-axes, axis by axis.')
ASSUMPTIONS = ['half-axes at least 0.001 (shorter ones stand for flat obstacles, whose margin is at least 0.001)', 'outlines are sampled at few points (the test over them is the same for all)',
               'curvature factors 1, 2 and 3 for any point; any factor from 1 on for points in the positive octant']
D, IN, LINE, NRM = 'Ellipsoid::compute_distance_to_point', 'Ellipsoid::point_is_inside', 'Ellipsoid::compute_interesection_points', 'Ellipsoid::compute_normal_to_agent'
SAMPLE = NS + 'Ellipsoid::sample_from_parameterization'


def lens(tag, lo):
    out = []
    for k in range(3):
        x = T.atom('%s%d' % (tag, k), pos=True) if lo else T.atom('%s%d' % (tag, k), nonneg=True)
        if lo:
            T.single_base(x).facts['lo'] = F(1, 1000)
        out.append(x)
    return out


def ell(s, name, axes, marg, curv=None, rot=True, own=False):
    st = mstate(s, ID, name, rot, False)
    o = s.new('Ellipsoid', Str('o' + name), st, T.vatom('r' + name), T.vec3(*marg), pt=['basic_string', 'State', 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'], heap=True)
    s.call(o, 'Ellipsoid::set_axis_lengths', T.vec3(*axes), n=1)
    if curv is not None:
        s.call(o, 'Ellipsoid::set_curvature_factor', curv, n=1)
    return o


def curv(c):
    return T.vec3(*[T.const(c)] * 3)


def dist(s, o, x, m):
    return s.val(o, 'Obstacle::compute_distance_to_point', x, m, pt=['Matrix<double, 3, 1>', 'Array'])


def moved(a, m, k):
    """half-axis k longer and margin k shorter by the same length"""
    d = T.atom('delta', pos=True)
    a, m = list(a), list(m)
    a[k], m[k] = T.add(a[k], d), T.sub(m[k], d)
    return a, m


def run(ctx):
    a, m, g = lens('ax', True), lens('mo', False), lens('mg', False)
    M = T.atom('mA', nonneg=True)
    x = T.vatom('x')
    for c in (1, 2, 3):
        with ctx.sc('distance, curvature %d' % c, D):
            s = Sc(ctx)
            o = ell(s, 'e', a, m, curv(c))
            # every point, given by its coordinates in the frame of the obstacle
            own = T.vec3(*[T.atom('u%d' % k) for k in range(3)])
            d = dist(s, o, T.vadd(T.vatom('pe'), T.qrot(s.quat('qe'), own)) if c == 3 else x, T.vec3(*g))
            for k in range(3):
                for tag, v in (('half-axis', a), ('margin of the obstacle', m), ('given margin', g)):
                    ctx.mono('never grows with %s %d' % (tag, k), d, v[k], '-')
    with ctx.sc('distance, any curvature', D):
        s = Sc(ctx)
        cs = [T.atom('cf%d' % k, pos=True) for k in range(3)]
        for y in cs:
            T.single_base(y).facts['lo'] = F(1)
        xs = [T.atom('px%d' % k, pos=True) for k in range(3)]
        o = ell(s, 'e', a, m, T.vec3(*cs), rot=False)
        d = dist(s, o, T.vadd(T.vatom('pe'), T.vec3(*xs)), T.vec3(*g))
        for k in range(3):
            for tag, v in (('half-axis', a), ('margin of the obstacle', m), ('given margin', g)):
                ctx.mono('never grows with %s %d' % (tag, k), d, v[k], '-')
    with ctx.sc('inside', IN):
        s = Sc(ctx)
        i = s.val(ell(s, 'e', a, m, curv(1)), 'Obstacle::point_is_inside', x)
        for k in range(3):
            for tag, v in (('half-axis', a), ('margin', m)):
                ctx.bmono('never lost with %s %d' % (tag, k), i, v[k], '+')
    with ctx.sc('distance to an agent', 'Obstacle::compute_distance_to_agent', D):
        s = Sc(ctx)
        o, ag = ell(s, 'e', a, m, curv(1)), magent(s, ID)
        d = s.val(o, 'Obstacle::compute_distance_to_agent', ag)
        ctx.mono('never grows with the margin of the agent', d, M, '-')
        for k in range(3):
            ctx.mono('never grows with half-axis %d' % k, d, a[k], '-')
            ctx.mono('never grows with margin %d' % k, d, m[k], '-')
        ctx.eq('is the one to its position, inflated by its margin on every axis', d, dist(s, o, s.val(ag, 'Agent::get_position'), T.vec3(M, M, M)))
        # the margin of the agent counts like the one of the obstacle
        t = Sc(ctx)
        o2, ag2 = ell(t, 'e', a, [T.add(y, M) for y in m], curv(1)), magent(t, ID, margin=False)
        ctx.eq('margin of the agent counts as one of the obstacle', d, t.val(o2, 'Obstacle::compute_distance_to_agent', ag2))
    with ctx.sc('distance with the same margin on all axes', 'Obstacle::compute_distance_to_point'):
        s = Sc(ctx)
        o = ell(s, 'e', a, m, s.posvec('ce'))
        ctx.eq('is the one with that margin on every axis', s.val(o, 'Obstacle::compute_distance_to_point', x, M, pt=['Matrix<double, 3, 1>', 'double']), dist(s, o, x, T.vec3(M, M, M)))
    with ctx.sc('normal', NRM):
        for c in (1, 2):
            s, t = Sc(ctx), Sc(ctx)
            ref = s.val(ell(s, 'e', a, m, curv(c)), 'Obstacle::compute_normal_to_agent', magent(s, ID))
            ctx.eq('curvature %d: margin of the agent counts as one of the obstacle' % c, ref,
                   t.val(ell(t, 'e', a, [T.add(y, M) for y in m], curv(c)), 'Obstacle::compute_normal_to_agent', magent(t, ID, margin=False)))
            for k in range(3):
                t = Sc(ctx)
                ctx.eq('curvature %d: margin %d counts as half-axis' % (c, k), t.val(ell(t, 'e', *moved(a, m, k), curv(c)), 'Obstacle::compute_normal_to_agent', magent(t, ID)), ref)

    def law(name, fn, f, hooks=None, both=False, sym=True):
        with ctx.sc(name, fn):
            s = Sc(ctx, hooks=dict(hooks or {}))
            ref = f(s, ell(s, 'e', a, m, curv(1)))
            for k in range(3):
                t = Sc(ctx, hooks=dict(hooks or {}))
                ctx.eq('margin %d counts as half-axis' % k, f(t, ell(t, 'e', *moved(a, m, k), curv(1))), ref)
            # a flat or thin obstacle is as thick as its margin
            f3 = T.atom('mf', pos=True)
            T.single_base(f3).facts['lo'] = F(1, 1000)
            for k in range(3):
                one, two = Sc(ctx, hooks=dict(hooks or {})), Sc(ctx, hooks=dict(hooks or {}))

                def put(v, y):
                    return [y if j == k else w for j, w in enumerate(v)]
                ctx.eq('axis %d without length is as long as its margin' % k, f(one, ell(one, 'e', put(a, ZERO), put(m, f3), curv(1))), f(two, ell(two, 'e', put(a, f3), put(m, ZERO), curv(1))))
    law('distance', D, lambda s, o: dist(s, o, x, T.vec3(*g)))
    law('inside', IN, lambda s, o: s.val(o, 'Obstacle::point_is_inside', x))
    law('normal', NRM, lambda s, o: s.val(o, 'Obstacle::compute_normal_to_agent', magent(s, ID)))
    law('line', LINE, lambda s, o: s.val(o, 'Obstacle::compute_interesection_points', T.vatom('l1'), T.vatom('l2')))
    law('area with margin', 'Ellipsoid::area', lambda s, o: s.val(o, 'Ellipsoid::area', TRUE))
    law('samples with margin', 'Ellipsoid::sample_from_parameterization', lambda s, o: s.val(o, 'Obstacle::sample_from_parameterization', T.const(4), TRUE))
    b, n = lens('bx', True), lens('mb', False)
    few = {SAMPLE: few_samples}
    law('overlap with another ellipsoid', 'Ellipsoid::is_intersecting_ellipsoid', lambda s, o: s.val(o, 'Obstacle::is_intersecting', ell(s, 'f', b, n), n=1, pt=['Obstacle']), few)
    law('overlap of another ellipsoid', 'Ellipsoid::is_intersecting_ellipsoid', lambda s, o: s.val(ell(s, 'f', b, n), 'Obstacle::is_intersecting', o, n=1, pt=['Obstacle']), few)
    for name, fn, f in (('area without margin', 'Ellipsoid::area', lambda s, o: s.val(o, 'Ellipsoid::area', FALSE)),
                        ('samples without margin', 'Ellipsoid::sample_from_parameterization', lambda s, o: s.val(o, 'Obstacle::sample_from_parameterization', T.const(4), FALSE))):
        with ctx.sc(name, fn):
            s, t = Sc(ctx), Sc(ctx)
            ctx.eq('does not depend on the margin', f(s, ell(s, 'e', a, m)), f(t, ell(t, 'e', a, [ZERO] * 3)))
    with ctx.sc('area with margin', 'Ellipsoid::area'):
        s = Sc(ctx)
        r = s.val(ell(s, 'e', a, m), 'Ellipsoid::area', TRUE)
        for k in range(3):
            ctx.mono('never shrinks with half-axis %d' % k, r, a[k], '+')
            ctx.mono('never shrinks with margin %d' % k, r, m[k], '+')
    # a fixed outline of the obstacle, sampled at unknown points
    def points(i, this, vals, fn):
        if i.read(this + ('f', 'name')) == Str('oe'):
            return padded(C3([T.vatom('w0'), T.vatom('w1')]), i.rv(vals[0]))
        i.hooks = dict(i.hooks, **few)
        return few_samples(i, this, vals, fn)
    with ctx.sc('agent in an obstacle', 'Agent::in_obstacle', 'Ellipsoid::is_intersecting_ellipsoid'):
        s = Sc(ctx, hooks={SAMPLE: points})
        ctx.bmono('never lost with the margin of the agent', s.val(magent(s, ID), 'Agent::in_obstacle', ell(s, 'e', a, m)), M, '+')
        s = Sc(ctx, hooks=dict(few))
        r = s.val(magent(s, ID), 'Agent::in_obstacle', ell(s, 'e', a, m))
        x = T.restrict(r, assume(lt(T.const(F(1, 10)), M)))
        ctx.check('counts the margin of the agent', T.single_base(M) in T.all_bases(x) or contains_unknown(x), 'does not depend on it')
        for k in range(3):
            t = Sc(ctx, hooks=dict(few))
            ctx.eq('margin %d of the obstacle counts as half-axis' % k, t.val(magent(t, ID), 'Agent::in_obstacle', ell(t, 'e', *moved(a, m, k))), r)
    with ctx.sc('envelope of the agent over an obstacle', 'Agent::update_envelope', 'Ellipsoid::is_intersecting_ellipsoid'):
        s = Sc(ctx, hooks={SAMPLE: points})
        ag = magent(s, ID, rot=False)
        env = s.call(ag, 'Agent::get_envelope')
        r = s.val(env, 'Obstacle::is_intersecting', ell(s, 'e', a, m, rot=False), n=1, pt=['Obstacle'])
        ctx.bmono('never lost with the margin of the agent', r, M, '+')
