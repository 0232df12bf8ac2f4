"""C08 Obstacle weights."""
from engine.ctx import *

LEVEL = 'other'
EXPLANATION = ('The value graph of weight_obstacles is computed by abstract interpretation for lists of symbolic distances and symbolic '
               'threshold and power (list lengths 1..4, thorough 1..6; lists of up to 64, thorough 130, with given distances); weights are compared with their closed form in every case of the '
               'comparisons, bounds come from interval analysis and the ranking from polarity analysis.')
ASSUMPTIONS = ['real arithmetic', 'weight power positive', 'symbolic distances up to the stated length, beyond it given distances']
W = 'Modulation::weight_obstacles'


def run(ctx):
    for n in range(1, 7 if ctx.thorough else 5):
        with ctx.sc('%d obstacles' % n, W):
            s = Sc(ctx)
            d = [T.atom('d%d' % k) for k in range(n)]
            crit, pw = T.atom('crit'), T.atom('power', pos=True)
            r = s.val(None, W, Arr(n, 1, d) if n != 3 else T.vec3(*d), crit, pw)
            w = s.i.comps(r)
            ctx.returns('returns', s.i)
            ctx.no_events('no access outside of the lists', s.i, {'oob', 'shape'})
            if not ctx.check('one weight per obstacle', len(w) == n, '%d weights' % len(w)):
                continue
            c = [le(x, crit) for x in d]
            anyc = T.b_or(*c)
            cnt = T.add(ZERO, *[T.ite(x, ONE, ZERO) for x in c])
            # closed form in the critical case
            for mask in range(1, 1 << n):
                con = assume(*[x if mask >> k & 1 else T.b_not(x) for k, x in enumerate(c)])
                share = T.const(F(1, bin(mask).count('1')))
                ctx.eq('critical obstacles %s share the weight' % [k for k in range(n) if mask >> k & 1], w,
                       [share if mask >> k & 1 else ZERO for k in range(n)], con=con)
            con = assume(*[T.b_not(x) for x in c])
            ctx.eq('weights sum to one without critical obstacle', T.add(ZERO, *w), ONE, con=con)
            for k in range(n):
                ctx.ge0('weight %d is positive without critical obstacle' % k, w[k], con=con, strict=True)
            # rank: exchanging two distances exchanges the weights
            for k in range(n - 1):
                tmp = {T.single_base(d[k]): d[k + 1], T.single_base(d[k + 1]): d[k]}
                ctx.eq('weights follow the rank (exchange %d,%d)' % (k, k + 1), [T.subst_base(x, tmp) for x in w],
                       w[:k] + [w[k + 1], w[k]] + w[k + 2:], con=con)
            if n >= 2:
                # d1 = d0 + gap: w0 / w1 is 1 for gap 0 and never decreases with the gap
                gap = T.atom('gap', nonneg=True)
                u = [T.restrict(x, con) for x in w]
                g = T.subst_base(T.div(u[0], u[1]), {T.single_base(d[1]): T.add(d[0], gap)})
                m = T.atom('margin', pos=True)
                g = T.subst_base(g, {T.single_base(d[0]): T.add(crit, m)})
                ctx.eq('equal distances weigh the same', T.subst_base(g, {T.single_base(gap): ZERO}), ONE)
                ctx.mono('a closer obstacle never weighs less', g, gap, '+')
    for n in (7, 8, 9, 12, 17, 33, 64) + ((100, 130) if ctx.thorough else ()):
        with ctx.sc('%d obstacles with given distances' % n, W):
            # distances of every order of magnitude, in an order that is neither rising nor falling
            d = [F(11, 10) + F((7 * k) % n, 3) + (F(1000) if k % 5 == 4 else 0) for k in range(n)]
            crit, pw = ONE, T.const(2)
            s = Sc(ctx)

            def weights(ds):
                return s.i.comps(s.val(None, W, Arr(n, 1, [T.const(x) for x in ds]), crit, pw))
            w = weights(d)
            ctx.returns('returns', s.i)
            ctx.no_events('no access outside of the lists', s.i, {'oob', 'shape'})
            if not ctx.check('one weight per obstacle', len(w) == n, '%d weights' % len(w)):
                continue
            c = [T.cval(x) for x in w]
            if None in c:
                ctx.und('none critical', 'weights are not numbers')
                continue
            ctx.check('none critical: all positive', min(c) > 0, 'weight %s' % min(c))
            ctx.check('none critical: sum to one', sum(c) == 1, 'sum %s' % short(float(sum(c))))
            bad = [(i, j) for i in range(n) for j in range(n) if d[i] <= d[j] and c[i] < c[j]]
            ctx.check('none critical: a closer obstacle never weighs less', not bad, '%s' % short(bad[:3]))
            r = [T.cval(x) for x in weights(d[::-1])]
            ctx.check('none critical: weights follow the obstacles', r == c[::-1], 'differ in reverse order')
            for where in ({0}, {n - 1}, {n // 2}, {0, n - 1}, set(range(0, n, 2)), set(range(n))):
                x = [F(k % 3, 2) if k in where else y for k, y in enumerate(d)]
                got = weights(x)
                where = {k for k in range(n) if x[k] <= 1}
                want = [T.const(F(1, len(where))) if k in where else ZERO for k in range(n)]
                ctx.eq('%d critical from %d on share the weight' % (len(where), min(where)), got, want)
