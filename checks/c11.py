"""C11 Obstacle motion: relative velocity in, same velocity out."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('The value graph of compute_relative_velocities on symbolic states, weights and distances is compared with the closed form of the '
               'statement, where the attenuation is read off the code on a one-obstacle scene and bounded by interval and polarity analysis.  For '
               'the whole modulation a Galilean law links the scene with moving obstacles to the scene with the same obstacles at rest.')
ASSUMPTIONS = ['real arithmetic', 'lists of up to 3 obstacles']
CR = 'Modulation::compute_relative_velocities'


def basis(s, k):
    return libmodel.q_matrix(s.quat('b%s' % k))


def run(ctx):
    with ctx.sc('attenuation', CR):
        s = Sc(ctx)
        d = T.atom('dist')
        st = s.i.alloc(s.i.new('State', [T.vatom('p0'), T.QID, T.ev(0), T.VZERO]))
        o = s.new('Ellipsoid', Str('o0'), s.read(st), ZERO, pt=['basic_string', 'State', 'double'], heap=True)
        a = magent(s, ID)
        r = s.val(None, CR, a, Seq([s.sp(o)]), Arr(1, 1, [d]), Arr(1, 1, [ONE]), Seq([basis(s, 0)]))
        g = T.vcomp(r.items[1], 0)
        ctx.eq('acts as a factor', r.items[1], T.vscale(T.ev(0), g))
        ctx.eq('is 1 at contact', g, ONE, con=assume(le(d, ONE)))
        ctx.ge0('is positive', g, strict=True)
        ctx.ge0('is at most 1', T.sub(ONE, g))
        ctx.mono('never grows with the distance', g, d, '-')
        db = T.single_base(d)

        def att(x):
            return T.subst_base(g, {db: x})
        ctx.notes.append('attenuation: %s' % g)
    for n in (1, 2, 3):
        with ctx.sc('%d obstacles' % n, CR):
            s = Sc(ctx)
            os = [mellipsoid(s, ID, str(k), curv=False) for k in range(n)]
            a = magent(s, ID)
            ds = [T.atom('d%d' % k) for k in range(n)]
            ws = [T.atom('w%d' % k) for k in range(n)]
            bs = [basis(s, k) for k in range(n)]
            r = s.val(None, CR, a, Seq([s.sp(o) for o in os]), Arr(n, 1, ds), Arr(n, 1, ws), Seq(bs))
            pa = s.val(a, 'Agent::get_position')
            tot = T.VZERO
            for k, o in enumerate(os):
                arm = T.vsub(pa, s.val(o, 'Obstacle::get_position'))
                surf = T.vadd(s.val(o, 'Obstacle::get_linear_velocity'), T.vcross(s.val(o, 'Obstacle::get_angular_velocity'), arm))
                tot = T.vadd(tot, T.vscale(surf, T.mul(ws[k], att(ds[k]))))
            ctx.eq('sum of the surface velocities', r.items[1], tot)
            ctx.eq('relative velocity', r.items[0], T.vsub(s.val(a, 'Agent::get_linear_velocity'), tot))
            ctx.returns('returns', s.i)
            ctx.no_events('no access outside of the lists', s.i, {'oob', 'shape'})
            s = Sc(ctx)
            os = [mellipsoid(s, ID, str(k), curv=False, moving=False) for k in range(n)]
            a = magent(s, ID)
            r = s.val(None, CR, a, Seq([s.sp(o) for o in os]), Arr(n, 1, ds), Arr(n, 1, ws), Seq(bs))
            ctx.eq('obstacles at rest contribute nothing', r.items[1], T.VZERO)
            ctx.eq('and leave the velocity of the agent', r.items[0], s.val(a, 'Agent::get_linear_velocity'))
    for n, planar, go in ((1, FALSE, True), (1, TRUE, True), (2, FALSE, True), (2, TRUE, True), (1, FALSE, False), (2, FALSE, False)):
            with ctx.sc('modulation of %d moving obstacles, planar %s, agent %s' % (n, planar is TRUE, 'moving' if go else 'at rest'), MV, CR):
                s = Sc(ctx)
                os, a, e = abs_scene(s, n, agent_moving=go)
                crit, pw = T.atom('crit'), T.atom('power', pos=True)
                # the velocity of the obstacles, from the public pieces of the modulation
                va = s.val(a, 'Agent::get_linear_velocity')
                if planar is TRUE:
                    for o in os:
                        s.call(o, 'Obstacle::shift_reference_point', a)
                ms = [s.val(None, 'Modulation::compute_modulation_matrix', a, o) for o in os]
                dl = Arr(n, 1, [m.items[2] for m in ms])
                w = s.val(None, 'Modulation::weight_obstacles', dl, crit, pw)
                rel = s.val(None, CR, a, Seq([s.sp(o) for o in os]), dl, w, Seq([m.items[1] for m in ms]))
                s1 = Sc(ctx)
                os, a, e = abs_scene(s1, n, agent_moving=go)
                v = finite(mv(s1, a, e, FALSE, FALSE, planar, crit, pw))
                t = Sc(ctx)
                os2, a2, e2 = abs_scene(t, n, moving=False)
                t.call(a2, 'Agent::set_linear_velocity', rel.items[0])
                v0 = finite(mv(t, a2, e2, FALSE, FALSE, planar, crit, pw))
                ctx.sep('result is the modulated relative velocity plus the velocity of the obstacles', v, T.vadd(v0, rel.items[1]), n=12)
    with ctx.sc('order of weights, distances and bases', MV):
        s = Sc(ctx)
        os, a, e = abs_scene(s, 2)
        v = finite(mv(s, a, e))
        t = Sc(ctx)
        os2, a2, e2 = abs_scene(t, 2, names=['1', '0'])
        ctx.sep('exchanging the obstacles changes nothing', finite(mv(t, a2, e2)), v, n=10)
