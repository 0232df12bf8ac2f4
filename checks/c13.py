"""C13 Queries are pure: same scene, same answer, nothing changed."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Effect analysis by abstract interpretation: for every query the abstract heap (all objects that existed before the call, statics and '
               'globals included) is compared before and after; where the representation changes, every reported attribute and every answer of the '
               'other queries must equal those of a fresh scene.  Answers after other calls are compared with answers in a fresh scene, and uses of '
               'random numbers are collected.')
ASSUMPTIONS = ['real arithmetic', 'third party plotting calls only record their arguments']
V3, A3 = 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'


def build(ctx):
    s = Sc(ctx, hooks=dict(NOHULL))
    o = {}
    for k in range(2):
        o['e%d' % k] = mellipsoid(s, ID, str(k), curv=False)
        o['a%d' % k] = magent(s, ID, str(k))
    o['m'] = [mellipsoid(s, ID, 'm%d' % k, curv=False) for k in range(2)]
    o['g'] = maggregate(s, ID, o['m'], [mhull(s, ID, 'hi', 2, True), mhull(s, ID, 'ho', 2, False)])
    o['h'] = mhull(s, ID, 'h', 3)
    o['env'] = o['env0'] = s.env([o['e0'], o['e1']])
    o['env1'] = s.env([o['e1']])
    return s, o


def queries():
    q = []

    def add(name, fn, f):
        q.append((name, fn, f))
    O = 'Obstacle::'
    for t in ('e0', 'g', 'h'):
        k = {'e0': 'ellipsoid', 'g': 'aggregate', 'h': 'hull'}[t]
        add('normal (%s)' % k, O + 'compute_normal_to_agent', lambda s, o, n, t=t: s.val(o[t], O + 'compute_normal_to_agent', o['a%d' % n]))
        add('distance to an agent (%s)' % k, O + 'compute_distance_to_agent', lambda s, o, n, t=t: s.val(o[t], O + 'compute_distance_to_agent', o['a%d' % n]))
        add('distance to a point (%s)' % k, O + 'compute_distance_to_point', lambda s, o, n, t=t: s.val(o[t], O + 'compute_distance_to_point', T.vatom('x%d' % n), T.atom('mq%d' % n, nonneg=True), pt=[V3, 'double'], n=2))
        add('inside (%s)' % k, O + 'point_is_inside', lambda s, o, n, t=t: s.val(o[t], O + 'point_is_inside', T.vatom('x%d' % n)))
        add('closed (%s)' % k, O + 'is_closed', lambda s, o, n, t=t: s.val(o[t], O + 'is_closed'))
        if t != 'h':
            add('repulsion (%s)' % k, O + 'compute_repulsion_vector', lambda s, o, n, t=t: s.val(o[t], O + 'compute_repulsion_vector', o['a%d' % n]))
            add('thresholded repulsion (%s)' % k, O + 'generate_repulsion', lambda s, o, n, t=t: s.val(o[t], O + 'generate_repulsion', o['a%d' % n]))
    add('line intersection', O + 'compute_interesection_points', lambda s, o, n: s.val(o['e0'], O + 'compute_interesection_points', T.vatom('x%d' % n), T.vatom('y%d' % n)))
    add('area', 'Ellipsoid::area', lambda s, o, n: s.val(o['e%d' % n], 'Ellipsoid::area', TRUE))
    add('samples', 'Ellipsoid::sample_from_parameterization', lambda s, o, n: s.val(o['e%d' % n], 'Ellipsoid::sample_from_parameterization', T.const(2 + n), TRUE if n else FALSE))
    add('modulation matrix', 'Modulation::compute_modulation_matrix', lambda s, o, n: s.val(None, 'Modulation::compute_modulation_matrix', o['a%d' % n], o['e0']))
    # the size of the scene also differs between the calls: nothing of a larger one may survive
    add('weights', 'Modulation::weight_obstacles', lambda s, o, n: s.val(None, 'Modulation::weight_obstacles', Arr(3 - n, 1, [T.atom('%s%d' % (x, n)) for x in ('d', 'dd', 'ddd')[:3 - n]]), ONE, T.const(2)))
    add('weights (growing)', 'Modulation::weight_obstacles', lambda s, o, n: s.val(None, 'Modulation::weight_obstacles', Arr(1 + n, 1, [T.atom('%s%d' % (x, n)) for x in ('d', 'dd')[:1 + n]]), ONE, T.const(2)))
    add('relative velocities', 'Modulation::compute_relative_velocities', lambda s, o, n: s.val(None, 'Modulation::compute_relative_velocities', o['a%d' % n], Seq([s.sp(o['e%d' % k]) for k in range(2 - n)]), Arr(2 - n, 1, [T.atom('d%d' % k) for k in range(2 - n)]), Arr(2 - n, 1, [T.atom('w%d' % k) for k in range(2 - n)]), Seq([s.val(None, 'Modulation::compute_dynamical_system_frame', T.vatom('f')) for k in range(2 - n)])))
    add('frame', 'Modulation::compute_dynamical_system_frame', lambda s, o, n: s.val(None, 'Modulation::compute_dynamical_system_frame', T.vatom('f%d' % n)))
    add('bases', 'Modulation::compute_basis_matrices', lambda s, o, n: s.val(None, 'Modulation::compute_basis_matrices', T.vatom('nn%d' % n), o['a%d' % n], o['e%d' % n]))
    add('linear sampling', 'MathTools::linspace', lambda s, o, n: s.val(None, 'MathTools::linspace', T.atom('lo%d' % n), T.atom('hi%d' % n), T.const(4 - n)))
    add('grid sampling', 'MathTools::gridspace', lambda s, o, n: s.val(None, 'MathTools::gridspace', Tup([T.atom('lo%d' % n), T.atom('ho%d' % n)]), Tup([T.atom('li%d' % n), T.atom('hi%d' % n)]), Tup([T.const(3 - n), T.const(2)])))
    add('angular look-up', 'MathTools::find_closest_points', lambda s, o, n: s.val(None, 'MathTools::find_closest_points', Arr(3, 3 - n, [T.const(k) for k in range(3 * (3 - n))]), T.vatom('x%d' % n), T.const(2)))
    add('sorting by angle', 'MathTools::sorted_cols_by_theta', lambda s, o, n: s.val(None, 'MathTools::sorted_cols_by_theta', Arr(3, 3 - n, [T.const(9 - k) for k in range(3 * (3 - n))])))
    add('polar coordinates', 'MathTools::cartesian_to_polar', lambda s, o, n: s.val(None, 'MathTools::cartesian_to_polar', T.vatom('x%d' % n)))
    add('eigenvalues', 'Modulation::compute_diagonal_eigenvalues', lambda s, o, n: s.val(None, 'Modulation::compute_diagonal_eigenvalues', T.atom('d%d' % n)))
    add('commanded velocity', MV, lambda s, o, n: finite(mv(s, o['a%d' % n], o['env%d' % n], FALSE, TRUE)))
    add('obstacle lookup', 'Environment::get_obstacle_list', lambda s, o, n: s.val(o['env'], 'Environment::get_obstacle_list'))
    return q


def heavy():
    """queries that compare whole sampled outlines: kept small by stubs of their parts"""
    q = []
    O = 'Obstacle::'
    q.append(('intersection (ellipsoids)', O + 'is_intersecting', lambda s, o, n: s.val(o['e0'], O + 'is_intersecting', o['e1'], pt=['Obstacle'])))
    q.append(('intersection (aggregate)', O + 'is_intersecting', lambda s, o, n: s.val(o['e%d' % n], O + 'is_intersecting', o['g'], pt=['Obstacle'])))
    q.append(('intersection (list)', O + 'is_intersecting', lambda s, o, n: s.val(o['e0'], O + 'is_intersecting', Seq([s.sp(o['e1'])]), pt=['deque'])))
    q.append(('agent in obstacle', 'Agent::in_obstacle', lambda s, o, n: s.val(o['a%d' % n], 'Agent::in_obstacle', o['e0'])))
    q.append(('path', 'Agent::exist_path', lambda s, o, n: s.val(o['a%d' % n], 'Agent::exist_path', T.vatom('x%d' % n), Seq([s.sp(o['e0']), s.sp(o['g'])]))))
    q.append(('local mode', MV, lambda s, o, n: finite(mv(s, o['a%d' % n], o['env'], TRUE))))
    q.append(('local mode, one obstacle', MV, lambda s, o, n: finite(mv(s, o['a%d' % n], o['env1'], TRUE))))
    q.append(('local mode with repulsion, one obstacle', MV, lambda s, o, n: finite(mv(s, o['a%d' % n], o['env1'], TRUE, TRUE))))
    return q


def few_samples(i, this, vals, fn):
    """an outline of two samples, the last one repeated up to the number that is asked for (the loop over them is the same)"""
    i.hooks = dict(i.hooks)
    del i.hooks[fn['q']]
    try:
        return padded(i.call_fn(i.p.funcs.get(fn['usr']), fn, this, [T.const(2)] + list(vals[1:])), i.rv(vals[0]))
    finally:
        i.hooks[fn['q']] = few_samples


def padded(r, n):
    """an outline with the last sample repeated up to n"""
    n = T.cval(n) if isinstance(n, T.P) else None
    if isinstance(r, G):
        return merge(r.c, padded(r.a, T.const(n)), padded(r.b, T.const(n))) if n is not None else r
    return C3(list(r.cols) + [r.cols[-1]] * (int(n) - len(r.cols))) if isinstance(r, C3) and n is not None and len(r.cols) < n else r


def drawings():
    q = []
    for t in ('e0', 'g', 'h'):
        for ax in ('xy', 'xz'):
            q.append(('drawing (%s, %s)' % (t, ax), 'Obstacle::draw', lambda s, o, n, t=t, ax=ax: s.call(o[t], 'Obstacle::draw', Str('k'), Str(ax), n=2)))
    return q


def persistent(i):
    return {k: v for k, v in i.s.st.items() if k[0] != 'L'}


def run(ctx):
    qs = queries()
    fresh = {}
    for name, fn, f in qs:
        for n in (0, 1):
            with ctx.sc(name, fn):
                s, o = build(ctx)
                fresh[name, n] = (f(s, o, n), s, o)
    order = [x[0] for x in qs]
    for j, (name, fn, f) in enumerate(qs):
        with ctx.sc(name, fn):
            s, o = build(ctx)
            effects(ctx, s, o, name, f)
            # later answers are those of a fresh scene
            for n in (1, 0):
                if (name, n) in fresh:
                    answers(ctx, 'same answer after another call (%d)' % n, f(s, o, n), fresh[name, n][0])
            k = (j + 1) % len(qs)
            name2, fn2, f2 = qs[k]
            if (name2, 0) in fresh:
                answers(ctx, 'does not influence: %s' % name2, f2(s, o, 0), fresh[name2, 0][0])
    for name, fn, f in heavy():
        with ctx.sc(name, fn):
            r = []
            for n in (0, 1):
                s, o = build(ctx)
                s.i.hooks[NS + 'Ellipsoid::sample_from_parameterization'] = few_samples
                r.append(f(s, o, n))
            s, o = build(ctx)
            s.i.hooks[NS + 'Ellipsoid::sample_from_parameterization'] = few_samples
            effects(ctx, s, o, name, f)
            for n in (1, 0):
                answers(ctx, 'same answer after another call (%d)' % n, f(s, o, n), r[n])
    for name, fn, f in drawings():
        with ctx.sc(name, fn):
            s, o = build(ctx)
            s.i.sample = True
            effects(ctx, s, o, name, f)
    PT = 'PlottingTools::'
    hist = Seq([T.vatom('h0'), T.vatom('h1')])
    lst = lambda s, o: Seq([s.sp(o['e0']), s.sp(o['g'])])
    plots = [('obstacles', 'plot_obstacles', lambda s, o, n: s.call(None, PT + 'plot_obstacles', lst(s, o), Str('xy'))),
             ('agent', 'plot_agent', lambda s, o, n: s.call(None, PT + 'plot_agent', o['a0'], Str('xz'))),
             ('trajectory', 'plot_agent_trajectory', lambda s, o, n: s.call(None, PT + 'plot_agent_trajectory', T.vatom('x'), hist, Str('xy'))),
             ('configuration', 'plot_configuration', lambda s, o, n: s.call(None, PT + 'plot_configuration', o['a0'], lst(s, o), T.vatom('x'), hist, Str(''), FALSE, TRUE, n=7)),
             ('configuration of obstacles', 'plot_configuration', lambda s, o, n: s.call(None, PT + 'plot_configuration', lst(s, o), Str(''), FALSE, TRUE, n=4)),
             ('guard configuration', 'plot_guard_configuration', lambda s, o, n: s.call(None, PT + 'plot_guard_configuration', o['a0'], o['a1'], lst(s, o), T.vatom('x'), hist, Str(''), FALSE, TRUE))]
    for name, fn, f in plots:
        with ctx.sc('plot of %s' % name, PT + fn):
            s, o = build(ctx)
            s.i.sample = True
            if name not in ('obstacles',):
                s.i.hooks[NS + 'Ellipsoid::draw'] = lambda i, this, vals, fn: None
                s.i.hooks[NS + 'Aggregate::draw'] = lambda i, this, vals, fn: None
            effects(ctx, s, o, name, f)
    with ctx.sc('planar mode', MV, 'Obstacle::shift_reference_point'):
        s, o = build(ctx)
        before = persistent(s.i)
        mv(s, o['a0'], o['env'], FALSE, FALSE, TRUE)
        after = persistent(s.i)
        for k, v in before.items():
            w = after.get(k)
            if w is None or w is v:
                continue
            if isinstance(v, Rec) and isinstance(w, Rec):
                for f in v.f:
                    if same_value(v.f[f], w.f[f]):
                        continue
                    if k in (o['e0'].root, o['e1'].root):
                        continue
                    ctx.fail('changes only obstacles', 'field %s of %s changes' % (f, v.cls))
        t, p = build(ctx)
        for x in ('e0', 'e1'):
            ctx.attrs_eq('moves nothing but the reference point of %s' % x, s.attrs(o[x]), t.attrs(p[x]), skip=('reference_position',))
        for x in ('a0', 'a1'):
            ctx.attrs_eq('leaves %s alone' % x, s.attrs(o[x]), t.attrs(p[x]))
    with ctx.sc('distinct objects share nothing', 'Obstacle::set_position', 'Agent::set_position'):
        s, o = build(ctx)
        for a, b in (('e0', 'e1'), ('a0', 'a1')):
            cls = 'Obstacle' if a == 'e0' else 'Agent'
            st = s.attrs(o[b])
            s.call(o[a], cls + '::set_position', T.vatom('np'), n=1)
            s.call(o[a], cls + '::set_orientation', s.quat('nq'))
            s.call(o[a], cls + '::set_linear_velocity', T.vatom('nv'), n=1)
            s.call(o[a], cls + '::set_angular_velocity', T.vatom('nw'), n=1)
            ctx.attrs_eq('changing one %s leaves the other' % cls.lower(), s.attrs(o[b]), st)
        e1 = s.call(o['a1'], 'Agent::get_envelope')
        e0 = s.call(o['a0'], 'Agent::get_envelope')
        s2, o2 = build(ctx)
        s2.val(o2['e0'], 'Obstacle::compute_normal_to_agent', o2['a0'])
        for name, fn, f in qs:
            if name in ('normal (ellipsoid)', 'distance to an agent (ellipsoid)', 'area', 'inside (ellipsoid)'):
                t, p = build(ctx)
                answers(ctx, 'answers of one object after calls on another: %s' % name, f(s2, o2, 1), f(t, p, 1))
    with ctx.sc('hulls keep their own representation', 'StarShapeHull::compute_from_primitives'):
        s = Sc(ctx)
        h1, h2 = mhull(s, ID, 'h1', 3), mhull(s, ID, 'h2', 3)
        x = T.vatom('x')
        d = s.val(h2, 'Obstacle::compute_distance_to_point', x, ZERO, pt=[V3, 'double'])
        s.call(h1, 'StarShapeHull::compute_from_primitives', Seq(), T.vatom('c'), n=2)
        ctx.eq('rebuilding one leaves the other', s.val(h2, 'Obstacle::compute_distance_to_point', x, ZERO, pt=[V3, 'double']), d)
    # random numbers anywhere below a query
    with ctx.sc('randomness', MV):
        n = 0
        for i in ctx.interps:
            if getattr(i, 'nrand', 0):
                n += 1
        ctx.check('no query draws random numbers', n == 0, 'a random number is drawn in %d scenes' % n)


def answers(ctx, name, got, want):
    if same_value(got, want) or repr(got) == repr(want):
        return ctx.ok(name)
    if isinstance(got, (Seq, Tup)) and any(isinstance(x, Ptr) for x in getattr(got, 'items', ())):
        return ctx.check(name, repr(got) == repr(want), 'another list: %s instead of %s' % (short(got), short(want)))
    ctx.eq(name, got, want)


def effects(ctx, s, o, name, f):
    before = persistent(s.i)
    at = {k: s.attrs(o[k]) for k in ('e0', 'e1', 'a0', 'a1', 'g', 'h')}
    before = persistent(s.i)
    n0 = len(s.i.events)
    f(s, o, 0)
    after = persistent(s.i)
    changed = []
    for k, v in before.items():
        w = after.get(k)
        if w is not None and w is not v and not same_rep(v, w):
            changed.append(k)
    if not changed:
        ctx.ok('representation of all objects is unchanged')
        return
    for k in at:
        ctx.attrs_eq('%s reports the same' % k, s.attrs(o[k]), at[k])
    ctx.extra.setdefault('representation_changes', []).append(name)


def same_rep(v, w):
    if v is w:
        return True
    try:
        return same_value(v, w) or repr(v) == repr(w)
    except Exception:
        return False
