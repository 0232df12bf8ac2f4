"""C07 Modulation eigenvalues."""
from engine.ctx import *
from engine import libmodel

LEVEL = 'other'
EXPLANATION = ('The value graphs of compute_diagonal_eigenvalues and compute_modulation_matrix are computed by abstract interpretation for a '
               'symbolic distance and reactivity; equalities are decided on normal forms in every case, bounds by interval analysis, '
               'monotonicity by polarity analysis.')
ASSUMPTIONS = ['real arithmetic', 'reactivity factor positive']


def eig(s, d, *r):
    m = s.val(None, 'Modulation::compute_diagonal_eigenvalues', d, *r)
    return [T.vcomp(T.mcol(m, k), k) for k in range(3)], m


def run(ctx):
    A = 'Modulation::compute_diagonal_eigenvalues'
    with ctx.sc('eigenvalues', A):
        s = Sc(ctx)
        d, r = T.atom('d'), T.atom('r', pos=True)
        (l0, l1, l2), m = eig(s, d, r)
        ctx.returns('returns', s.i)
        touch, away = assume(le(d, ONE)), assume(lt(ONE, d))
        ctx.eq('at contact the reference eigenvalue is 0', l0, ZERO, con=touch)
        ctx.eq('at contact the tangential eigenvalues are 2', [l1, l2], [T.TWO, T.TWO], con=touch)
        ctx.eq('tangential eigenvalues agree', l1, l2)
        ctx.eq('eigenvalues sum to 2', T.add(l0, l1), T.TWO)
        ctx.eq('only diagonal entries', [T.vcomp(T.mcol(m, j), k) for j in range(3) for k in range(3) if j != k], [ZERO] * 6)
        ctx.ge0('reference eigenvalue is never negative', l0)
        ctx.ge0('reference eigenvalue stays below 1', T.sub(ONE, l0), con=away, strict=True)
        ctx.ge0('tangential eigenvalue is above 1', T.sub(l1, ONE), con=away, strict=True)
        ctx.ge0('tangential eigenvalue is at most 2', T.sub(T.TWO, l1))
        ctx.mono('reference eigenvalue grows with the distance', l0, d, '+')
        ctx.mono('tangential eigenvalue shrinks with the distance', l1, d, '-')
        ctx.mono('reactivity never weakens the avoidance (reference)', l0, r, '-')
        ctx.mono('reactivity never weakens the avoidance (tangent)', l1, r, '+')
        # towards the identity: deviation from 1 vanishes like a negative power of the distance
        dev = T.restrict(T.sub(ONE, l0), away)
        vanish = len(dev.t) == 1 and any(b is T.single_base(d) and T.bounds(e if isinstance(e, P) else T.const(e))[1] is not None
                                         and T.bounds(e if isinstance(e, P) else T.const(e))[1] <= 0 for b, e in dev.t[0][0])
        if vanish:
            ctx.ok('deviation from the identity vanishes far away')
        else:
            big = T.subst_base(dev, {T.single_base(d): T.const(F(10) ** 9), T.single_base(r): ONE})
            c = T.bounds(big)
            if c[0] is not None and c[0] > F(1, 100):
                ctx.fail('deviation from the identity vanishes far away', 'still %s at distance 1e9' % short(big))
            else:
                ctx.und('deviation from the identity vanishes far away', 'form not recognised')
        n = ctx.interp
    with ctx.sc('default reactivity', A):
        s = Sc(ctx)
        d = T.atom('d')
        a, _ = eig(s, d)
        b, _ = eig(s, d, ONE)
        ctx.eq('default reactivity factor is 1', a, b)
    M_ = 'Modulation::compute_modulation_matrix'
    for rot in (True, None):
        with ctx.sc('modulation matrix, %s ellipsoid' % ('turned' if rot else 'aligned'), M_, A):
            s = Sc(ctx)
            o, ag = s.ellipsoid('0', rot=rot, curv=False), s.agent()
            r = s.val(None, M_, ag, o)
            m, basis, dist = r.items
            want = s.val(o, 'Obstacle::compute_distance_to_agent', ag)
            ctx.eq('reported distance is the distance to the agent', dist, want)
            nrm = s.val(o, 'Obstacle::compute_normal_to_agent', ag)
            b = s.val(None, 'Modulation::compute_basis_matrices', nrm, ag, o)
            ctx.eq('reported basis is the basis around the normal', basis, b.items[1])
            lam, _ = eig(s, dist)
            R = libmodel.q_matrix(s.val(s.call(o, 'Obstacle::get_pose'), 'Pose::get_orientation'))
            B = b.items[0]
            want = T.mmul(R, T.mmul(B, T.mmul(T.mdiag(*lam), T.mmul(T.minv(B), T.mT(R)))))
            ctx.eq('eigenvalues belong to the directions of the reference basis', m, want)
