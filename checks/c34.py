"""C34 The commanded velocity is the weighted combination of what each obstacle asks for."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('The value graph of modulate_velocity on obstacles of unknown kind is compared with the closed form built from the matrices, weights and relative velocities that '
               'the public building blocks return on the same scene: one obstacle, several with any threshold and power, and several with some of them beyond the threshold.  Where '
               'normal forms do not decide the comparison, it is reported undecided unless a valuation that satisfies the case separates the two graphs.')
ASSUMPTIONS = ['real arithmetic', 'the velocity relative to the obstacles and the modulated velocities are neither zero nor along one another', 'lists up to the stated length']
CM, W, RV = 'Modulation::compute_modulation_matrix', 'Modulation::weight_obstacles', 'Modulation::compute_relative_velocities'


def parts(s, os, a, e, *par):
    """what the building blocks say about a scene: matrices, weights, relative velocity, velocity of the obstacles"""
    t = [s.val(None, CM, a, o) for o in os]
    M, B, d = zip(*[x.items for x in t])
    w = s.val(None, W, Arr(len(os), 1, list(d)), *par)
    r = s.val(None, RV, a, e_list(s, os), Arr(len(os), 1, list(d)), w, Seq(list(B)))
    return M, s.i.comps(w), r.items[0], r.items[1]


def e_list(s, os):
    return Seq([s.sp(o) for o in os])


def combine(M, w, u):
    """mean of the modulated velocities: speeds by their weights, directions by the weighted mean of the angles to the relative velocity"""
    n = T.vunit(u)
    speed, S = ZERO, T.VZERO
    for m, x in zip(M, w):
        y = T.mvec(m, u)
        speed = T.add(speed, T.mul(x, T.vnorm(y)))
        c = T.vdot(T.vunit(y), n)
        side = T.vunit(T.vsub(T.vunit(y), T.vscale(n, c)))
        S = T.vadd(S, T.vscale(side, T.mul(x, T.fn('acos', clamp(c)))))
    ang = T.vnorm(S)
    return speed, T.vadd(T.vscale(n, T.fn('cos', ang)), T.vscale(S, T.div(T.fn('sin', ang), ang)))


def clamp(c):
    return T.ite(lt(c, T.const(-1)), T.const(-1), T.ite(lt(ONE, c), ONE, c))


def run(ctx):
    par = (T.atom('crit'), T.atom('power', pos=True))
    for rot in (True, False):
        with ctx.sc('one obstacle%s' % ('' if rot else ' without rotation'), MV, CM, RV):
            s = Sc(ctx)
            os, a, e = abs_scene(s, 1, rot=rot)
            v = finite(mv(s, a, e, FALSE, FALSE, FALSE, *par))
            M, w, u, vo = parts(s, os, a, e, *par)
            ctx.eq('its weight is one', w, [ONE])
            ctx.sep('its modulation of the relative velocity, plus its velocity', v, T.vadd(T.mvec(M[0], u), vo), n=20)
            rel = T.vsub(v, vo)
            ctx.sep('speed', T.vdot(rel, rel), T.vdot(T.mvec(M[0], u), T.mvec(M[0], u)), n=20)
    for n in (1, 2, 3):
        for k in range(3):
            with ctx.sc('agent along axis %d, %d obstacles at rest' % (k, n), MV, W):
                along_axis(ctx, n, k)
    with ctx.sc('one obstacle at rest', MV, CM):
        s = Sc(ctx)
        os, a, e = abs_scene(s, 1, moving=False)
        M = s.val(None, CM, a, os[0]).items[0]
        ctx.sep('modulates the velocity of the agent', finite(mv(s, a, e)), T.mvec(M, s.val(a, 'Agent::get_linear_velocity')), n=20)
    for n in (2, 3) if not ctx.thorough else (2, 3, 4):
        with ctx.sc('%d obstacles' % n, MV, CM, W, RV):
            s = Sc(ctx)
            os, a, e = abs_scene(s, n)
            v = finite(mv(s, a, e, FALSE, FALSE, FALSE, *par))
            M, w, u, vo = parts(s, os, a, e, *par)
            speed, dirn = combine(M, w, u)
            rel = T.vsub(v, vo)
            far = [T.b_not(le(T.atom('d%d' % k, pos=True), par[0])) for k in range(n)]
            near = [le(T.atom('d%d' % k, pos=True), par[0]) for k in range(n)]
            for what, lits in (('all beyond the threshold', far), ('all within the threshold', near), ('some within the threshold', near[:1] + far[1:])):
                con = assume(*lits)
                R = lambda x: T.restrict(x, con)
                ctx_sep(ctx, '%s: the speeds are averaged by the weights' % what, R(T.vdot(rel, rel)), R(T.mul(speed, speed)), con)
                ctx_sep(ctx, '%s: the directions are averaged by the weights' % what, R(rel), R(T.vscale(dirn, speed)), con)
    for n in (2, 3):
        with ctx.sc('%d obstacles, some within the threshold' % n, MV, W):
            for keep in range(1, n):
                s = Sc(ctx)
                os, a, e = abs_scene(s, n)
                con = assume(*[le(T.atom('d%d' % k, pos=True), par[0]) if k < keep else T.b_not(le(T.atom('d%d' % k, pos=True), par[0])) for k in range(n)])
                t = Sc(ctx)
                os2, a2, e2 = abs_scene(t, keep)
                full = T.restrict(finite(mv(s, a, e, FALSE, FALSE, FALSE, *par)), con)
                alone = T.restrict(finite(mv(t, a2, e2, FALSE, FALSE, FALSE, *par)), con)
                ctx_sep(ctx, 'only the %d within count' % keep, full, alone, con)
                for k in range(keep, n):
                    bs = T.all_bases(full)
                    ctx.check('obstacle %d beyond it has no influence' % k, T.base('vec', 'n%d' % k) not in bs and T.base('vec', 'v%d' % k) not in bs or
                              witness.separate(full, other_name(full, k), con, 12, ctx.seed) is None, 'the velocity depends on its normal or on its velocity')
    with ctx.sc('defaults', MV, W):
        # without parameters: an obstacle in contact is critical, the ranking is by the square of the gap
        s = Sc(ctx)
        os, a, e = abs_scene(s, 2)
        ctx.sep('contact is critical, weights fall with the square of the gap', finite(mv(s, a, e)), finite(mv(s, a, e, FALSE, FALSE, FALSE, ONE, T.TWO)), n=12)


def polar(n, k):
    """a modulated velocity in polar coordinates about axis k: any direction but the axis itself (the cosine of the angle stays within 0.999)"""
    u = T.atom('u' + n)
    T.single_base(u).facts.update(lo=F(-999, 1000), hi=F(999, 1000))
    psi, rho = T.atom('psi' + n), T.atom('rho' + n, pos=True)
    sn = T.sqrtP(T.sub(ONE, T.mul(u, u)))
    z = [u, T.mul(sn, T.fn('cos', psi)), T.mul(sn, T.fn('sin', psi))]
    return u, rho, [z[(e - k) % 3] for e in range(3)]


def along_axis(ctx, n, k):
    """agent along axis k, every obstacle at rest asks for any velocity: exact closed form"""
    def cm(i, this, vals, fn):
        o = abs_name(i, vals[1])
        u, rho, z = polar(o, k)
        y = T.vec3(*[T.mul(rho, x) for x in z])
        return Tup([T.mcols([y if e == k else T.VZERO for e in range(3)]), T.mcols([T.ev(e) for e in range(3)]), T.add(ONE, T.atom('gap' + o, pos=True))])
    s = Sc(ctx, hooks={NS + CM: cm})
    os = [mabstract(s, ID, str(j), abs_handlers(), moving=False, rot=False) for j in range(n)]
    sp = T.atom('sp', pos=True)
    st = s.i.alloc(s.i.new('State', [T.vatom('pA'), T.QID, T.vscale(T.ev(k), sp), T.VZERO]))
    a = s.new('Agent', s.read(st), T.atom('mA', nonneg=True))
    v = finite(mv(s, a, s.env(os)))
    p = [polar(str(j), k) for j in range(n)]
    if any(T.single_base(x[1]) not in T.all_bases(v) for x in p):
        return ctx.und('closed form', 'the velocity does not go through the matrices')
    w = s.i.comps(s.val(None, W, Arr(n, 1, [T.add(ONE, T.atom('gap%d' % j, pos=True)) for j in range(n)]), ONE, T.TWO))
    speed, S = ZERO, [ZERO] * 3
    for x, (u, rho, z) in zip(w, p):
        speed = T.add(speed, T.mul(T.mul(x, rho), sp))
        r = T.powp(T.sub(ONE, T.mul(u, u)), F(-1, 2))
        for e in range(3):
            if e != k:
                S[e] = T.add(S[e], T.mul(T.mul(x, T.fn('acos', u)), T.mul(r, z[e])))
    ang = T.fn('acos', p[0][0]) if n == 1 else T.vnorm(T.vec3(*S))
    con = assume(T.b_not(lt(ang, T.const(F(1, 10000)))))
    if n == 1:
        want = [T.mul(T.mul(p[0][1], sp), x) for x in p[0][2]]
    else:
        c, q = T.fn('cos', ang), T.div(T.fn('sin', ang), ang)
        want = [T.mul(speed, c if e == k else T.mul(q, S[e])) for e in range(3)]
    got = [T.vcomp(T.restrict(v, con), e) for e in range(3)]
    for e in range(3):
        ctx.eq('component %d' % e, got[e], want[e], con=con)


def other_name(x, k):
    """the same value for another normal and velocity of obstacle k"""
    mp = {T.base('vec', n + str(k)): T.vatom(n + str(k) + "'") for n in 'nvw'}

    def fb(b):
        return mp.get(b)
    return T.subst(x, fb)


def ctx_sep(ctx, name, got, want, con):
    if T._same(got, want):
        return ctx.ok(name)
    if contains_unknown([got, want]):
        return ctx.und(name, 'value not modelled')
    try:
        with ctx.limit(ctx.t_obl):
            w = witness.separate(got, want, con, 16, ctx.seed)
    except TimeUp:
        return ctx.und(name, 'not decided in the time given')
    if w is not None:
        return ctx.fail(name, 'got %s, expected %s, e.g. for %s' % (short(got), short(want), witness.describe(w, [got, want])))
    ctx.und(name, 'too large for a proof by normal forms; no separating valuation')
