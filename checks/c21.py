"""C21 Angular look-up in a hull is total and periodic."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of the look-up on matrices of 1 to n columns. The look-up only compares values, so every order type of query and strictly '
               'increasing values is enumerated (below, at, between, above; zero and negative ones, too), with symbolic values in between; then of every query on '
               'hulls with symbolic radii and angles, whose accesses outside of the samples are obligations and whose value has to be the one of a valid sample.')
ASSUMPTIONS = ['the angles of the samples increase strictly (C25)', 'number of samples as stated']
FC = 'MathTools::find_closest_points'


def want(vals, q):
    n = len(vals)
    k = next((j for j, v in enumerate(vals) if v >= q), 0)
    return k, (k + 1) % n


def pair_of(s, r):
    r = s.i.rv(r) if hasattr(s.i, 'rv') else r
    x = list(r.items) if isinstance(r, (Tup, Seq)) else None
    if x is None or len(x) != 2:
        raise Undecided('result is not a pair')
    return x


def matrix(row, vals, tag=''):
    cols = []
    for k, v in enumerate(vals):
        xs = [T.atom('m%s%d_%d' % (tag, j, k)) for j in range(3)]
        xs[row] = v
        cols.append(T.vec3(*xs))
    return C3(cols)


def vec(row, v):
    xs = [T.atom('q%d' % j) for j in range(3)]
    xs[row] = v
    return T.vec3(*xs)


def run(ctx):
    top = 8 if ctx.thorough else 5
    for n in range(1, top + 1):
        with ctx.sc('%d values' % n, FC):
            bad, count = None, 0
            for base in (F(-2), F(-9, 2), F(1, 3)):
                vals = [base + F(k * k + 2 * k, 3) for k in range(n)]
                cand = [vals[0] - 7, vals[0] - F(1, 9), vals[-1] + F(1, 9), vals[-1] + 7] + list(vals)
                cand += [(a + b) / 2 for a, b in zip(vals, vals[1:])] + [(9 * a + b) / 10 for a, b in zip(vals, vals[1:])]
                for row in (0, 1, 2):
                    for q in cand:
                        s = Sc(ctx)
                        r = pair_of(s, s.call(None, FC, matrix(row, [T.const(v) for v in vals]), vec(row, T.const(q)), T.const(row)))
                        got = tuple(T.cval(x) for x in r)
                        count += 1
                        if None in got:
                            raise Undecided('indices not known')
                        if got != want(vals, q):
                            bad = bad or 'values %s, query %s: indices %s instead of %s' % ([str(v) for v in vals], q, [str(x) for x in got], want(vals, q))
                        for k, pc, data, loc, st in s.i.events:
                            if k in ('oob', 'dangling', 'div0', 'invalidated', 'trunc') and pc is not FALSE:
                                bad = bad or 'values %s, query %s: %s (%s)' % ([str(v) for v in vals], q, k, short(data))
                        del ctx.interps[:-1]
            ctx.check('first not below the query and its successor, wrapping around (%d order types)' % count, bad is None, bad)
            ctx.extra['order types'] = ctx.extra.get('order types', 0) + count
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        with ctx.sc('%d symbolic values' % n, FC):
            v = [T.atom('v%d' % k) for k in range(n)]
            q = T.atom('q')
            up = [lt(v[k], v[k + 1]) for k in range(n - 1)]
            s = Sc(ctx)
            r = pair_of(s, s.call(None, FC, matrix(2, v), vec(2, q), T.const(2)))
            ctx.no_events('no access outside', s.i, ('oob', 'dangling', 'div0', 'invalidated'))
            for k in range(n + 1):
                lits = list(up)
                if k > 0:
                    lits.append(lt(v[k - 1], q))
                if k < n:
                    lits.append(le(q, v[k]))
                con = assume(*lits)
                ctx.eq('query number %d in the order: the sample' % k, r[0], T.const(k % n), con=con)
                ctx.eq('query number %d in the order: the next one' % k, r[1], T.const((k + 1) % n), con=con)
    for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        for inside in (False, True):
            with ctx.sc('queries on an %s hull of %d samples' % ('inside' if inside else 'outside', n), 'StarShapeHull::compute_distance_to_point',
                        'StarShapeHull::point_is_inside', 'StarShapeHull::compute_normal_to_agent', 'StarShapeHull::is_closed'):
                s = Sc(ctx, sample=True)
                h = mhull(s, ID, 'h', n, inside)
                up = [lt(T.atom('phih%d' % k), T.atom('phih%d' % (k + 1))) for k in range(n - 1)]
                con = assume(*up) if up else None
                a = magent(s, ID)
                n0 = len(s.i.events)
                pt = T.vatom('x')
                loc = T.qrot(Q(ONE, T.word_inv(T.qunit('qh').w)), T.vsub(pt, T.vatom('ph')))
                phi, rq = T.fn('atan2', T.vcomp(loc, 1), T.vcomp(loc, 0)), T.vnorm(loc)
                rads = [T.atom('radh%d' % k, pos=True) for k in range(n)]
                phis = [T.atom('phih%d' % k) for k in range(n)]
                d = s.val(h, 'Obstacle::compute_distance_to_point', pt, Arr(3, 1, [ZERO] * 3), pt=['Matrix<double, 3, 1>', 'Array'])
                ins = s.val(h, 'Obstacle::point_is_inside', pt, pt=['Matrix<double, 3, 1>'])
                nrm = s.val(h, 'Obstacle::compute_normal_to_agent', a)
                la = T.qrot(Q(ONE, T.word_inv(T.qunit('qh').w)), T.vsub(s.val(a, 'Agent::get_position'), T.vatom('ph')))
                aphi = T.fn('atan2', T.vcomp(la, 1), T.vcomp(la, 0))
                own = [T.vec3(T.mul(r, T.fn('cos', f)), T.mul(r, T.fn('sin', f)), ZERO) for r, f in zip(rads, phis)]
                s.call(h, 'StarShapeHull::is_closed')
                s.call(h, 'Obstacle::draw', Str('k'), Str('xy'))
                ctx.no_events('no access outside of the samples', s.i, ('oob', 'dangling', 'invalidated', 'nullderef'), n0=n0)
                for k in range(n + 1):
                    lits = [lt(x, y) for x, y in zip(phis, phis[1:])]
                    lits += [lt(phis[k - 1], phi)] if k else []
                    lits += [le(phi, phis[k])] if k < n else []
                    con = assume(*lits)
                    rad = rads[k % n]
                    ctx.eq('angle number %d in the order: distance of that sample' % k, d, T.div(rad, rq) if inside else T.div(rq, rad), con=con)
                    ctx.eq('angle number %d in the order: inside up to that sample' % k, ins, lt(rq, rad), con=con)
                    if n > 1:
                        lits = [lt(x, y) for x, y in zip(phis, phis[1:])]
                        lits += [lt(phis[k - 1], aphi)] if k else []
                        lits += [le(aphi, phis[k])] if k < n else []
                        seg = T.vsub(own[k % n], own[(k + 1) % n])
                        con = assume(*lits)
                        across = T.vunit(T.vec3(T.vcomp(seg, 1), T.neg(T.vcomp(seg, 0)), ZERO))
                        sign = next((w for w in (across, T.vneg(across)) if all(T._same(y, w) for y, _ in T.cases(nrm, con))), across)
                        ctx.eq('angle number %d in the order: the normal is across the segment to the next one' % k, nrm, sign, con=con)
