"""C12 Repulsion acts only when asked, only near, and points out of the obstacle."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('The value graphs of the modulation with and without repulsion on obstacles of unknown kind are subtracted: the difference must be '
               'the sum of the repulsions of exactly the obstacles below the threshold.  Direction and sign of each kind of repulsion are laws on '
               'its value graph, and its decrease with the distance is polarity analysis on the graph with the distance as a symbol.')
ASSUMPTIONS = ['real arithmetic', 'repulsions of negligible size (up to 1e-4) may be left out', 'distances are positive']
GR, CRV = 'Obstacle::generate_repulsion', 'Obstacle::compute_repulsion_vector'
V3, A3 = 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'


def run(ctx):
    with ctx.sc('threshold', GR):
        s = Sc(ctx)
        o = mabstract(s, ID, '0', abs_handlers())
        a = magent(s, ID)
        thr = T.atom('thr')
        d = s.val(o, 'Obstacle::compute_distance_to_agent', a)
        r = s.val(o, GR, a, thr)
        rep = s.val(o, CRV, a) if False else T.vatom('rep0')
        near = T.cmp0(T.sub(d, thr), '<')
        ctx.eq('nothing at or beyond the threshold', r, T.VZERO, con=assume(T.b_not(near)))
        ctx.eq('the repulsion of its kind below', r, rep, con=assume(near))
    for n in (1, 2) if not ctx.thorough else (1, 2, 3):
        with ctx.sc('modulation, %d obstacles' % n, MV, GR):
            s = Sc(ctx)
            os, a, e = abs_scene(s, n)
            on, off = finite(mv(s, a, e, FALSE, TRUE)), finite(mv(s, a, e, FALSE, FALSE))
            bs = T.all_bases(off)
            for k in range(n):
                ctx.check('off: repulsion of obstacle %d is not used' % k, T.base('vec', 'rep%d' % k) not in bs, 'the velocity depends on it')
            diff = T.vsub(on, off)
            ds = [T.atom('d%d' % k, pos=True) for k in range(n)]
            for mask in range(1 << n):
                lits = []
                for k in range(n):
                    lits.append(le(ds[k], ONE) if mask >> k & 1 else T.b_not(lt(ds[k], T.const(F(11, 10)))))
                con = assume(*lits)
                R = T.VZERO
                for k in range(n):
                    if mask >> k & 1:
                        R = T.vadd(R, T.vatom('rep%d' % k))
                near = [k for k in range(n) if mask >> k & 1]
                big = T.cmp0(T.sub(T.vnorm(R), T.const(F(1, 10000))), '>')
                got = T.restrict(diff, con)
                if mask and not T._same(got, R):
                    got = T.vite(big, got, T.VZERO)
                    want = T.vite(big, R, T.VZERO)
                else:
                    want = R
                ctx.eq('on: adds the repulsion of %s' % near, got, want, con=con, limit=10)
    with ctx.sc('modulation with any threshold and power', MV, GR):
        # the weights do not change who repels
        par = (T.atom('crit', pos=True), T.atom('power', pos=True))
        for lits, near in (((le(T.atom('d0', pos=True), ONE),), True), ((T.b_not(lt(T.atom('d0', pos=True), T.const(F(11, 10)))),), False)):
            s = Sc(ctx)
            os, a, e = abs_scene(s, 1)
            con = assume(*lits)
            diff = T.restrict(T.vsub(finite(mv(s, a, e, FALSE, TRUE, FALSE, *par)), finite(mv(s, a, e, FALSE, FALSE, FALSE, *par))), con)
            R = T.vatom('rep0') if near else T.VZERO
            if near:
                big = T.cmp0(T.sub(T.vnorm(R), T.const(F(1, 10000))), '>')
                diff, R = T.vite(big, diff, T.VZERO), T.vite(big, R, T.VZERO)
            ctx.eq('%s: adds the repulsion only then' % ('in contact' if near else 'not near'), diff, R, con=con, limit=10)
    with ctx.sc('ellipsoid: direction', 'Ellipsoid::compute_repulsion_vector'):
        s = Sc(ctx)
        o = mellipsoid(s, ID, '0', curv=False)
        a = near_ref(s, o)
        away(ctx, s, o, a, 'points away from the reference point', FALSE)
    with ctx.sc('ellipsoid: strength', 'Ellipsoid::compute_repulsion_vector', 'Obstacle::get_repulsion_factor'):
        d = T.atom('dist', pos=True)
        s = Sc(ctx, hooks={NS + 'Ellipsoid::compute_distance_to_point': lambda i, this, vals, fn: d})
        o = mellipsoid(s, ID, '0', curv=False)
        a = near_ref(s, o)
        away(ctx, s, o, a, 'points away from the reference point (given distance)', FALSE)
        strength(ctx, s, o, a, d)
    for inside in (TRUE, FALSE):
        with ctx.sc('aggregate, agent %s' % ('inside' if inside is TRUE else 'outside'), 'Aggregate::compute_repulsion_vector', 'Obstacle::get_repulsion_factor'):
            d = T.atom('dist', pos=True)
            hk = dict(NOHULL)
            hk[NS + 'Aggregate::compute_distance_to_point'] = lambda i, this, vals, fn: d
            hk[NS + 'StarShapeHull::point_is_inside'] = lambda i, this, vals, fn: inside
            hk[NS + 'Ellipsoid::point_is_inside'] = lambda i, this, vals, fn: FALSE
            s = Sc(ctx, hooks=hk)
            os = [mellipsoid(s, ID, str(k), curv=False) for k in range(2)]
            ag = maggregate(s, ID, os, [mhull(s, ID, 'hi', 2, True), mhull(s, ID, 'ho', 2, False)])
            a = near_ref(s, ag)
            away(ctx, s, ag, a, 'points to the outline' if inside is TRUE else 'points away from the reference point', inside)
            strength(ctx, s, ag, a, d)
    with ctx.sc('aggregate, agent inside a member', 'Aggregate::compute_repulsion_vector'):
        d = T.atom('dist', pos=True)
        hk = dict(NOHULL)
        hk[NS + 'Aggregate::compute_distance_to_point'] = lambda i, this, vals, fn: d
        hk[NS + 'StarShapeHull::point_is_inside'] = lambda i, this, vals, fn: FALSE
        hk[NS + 'Ellipsoid::point_is_inside'] = lambda i, this, vals, fn: TRUE if i.read(this).f['name'].lit() == 'o1' else FALSE
        s = Sc(ctx, hooks=hk)
        os = [mellipsoid(s, ID, str(k), curv=False) for k in range(2)]
        ag = maggregate(s, ID, os, [mhull(s, ID, 'hi', 2, True), mhull(s, ID, 'ho', 2, False)])
        away(ctx, s, ag, near_ref(s, ag), 'points to the outline', TRUE)
    with ctx.sc('mixed list', MV, 'Ellipsoid::compute_repulsion_vector'):
        # real ellipsoids near and far: only the near one acts
        tab = {'o0': T.const(F(1, 2)), 'o1': T.const(3)}
        s = Sc(ctx, hooks={NS + 'Ellipsoid::compute_distance_to_point': lambda i, this, vals, fn: tab[i.read(this).f['name'].lit()]})
        os = [mellipsoid(s, ID, str(k), curv=False) for k in range(2)]
        a = magent(s, ID)
        e = s.env(os)
        on, off = finite(mv(s, a, e, FALSE, TRUE)), finite(mv(s, a, e, FALSE, FALSE))
        R = s.val(os[0], CRV, a)
        big = T.cmp0(T.sub(T.vnorm(R), T.const(F(1, 10000))), '>')
        ctx.eq('only the near one acts', T.vite(big, T.vsub(on, off), T.VZERO), T.vite(big, R, T.VZERO))


def away(ctx, s, o, a, name, inward):
    r = s.val(o, CRV, a)
    dirn = T.vsub(s.val(a, 'Agent::get_position'), s.val(o, 'Obstacle::get_reference_position'))
    ctx.eq('on the line to the reference point', T.vcross(r, dirn), T.VZERO)
    p = T.vdot(r, dirn)
    ctx.ge0(name, T.neg(p) if inward is TRUE else p)
    w = witness.separate(r, T.VZERO, None, 6, ctx.seed)
    ctx.check('is not zero', w is not None, 'no repulsion')


def strength(ctx, s, o, a, d):
    r = s.val(o, CRV, a)
    ctx.mono('never grows with the distance', T.vdot(r, r), d, '-')


def near_ref(s, o):
    """an agent somewhere around the reference point"""
    return magent(s, ID, p=T.vadd(s.val(o, 'Obstacle::get_reference_position'), T.vatom('u')))
