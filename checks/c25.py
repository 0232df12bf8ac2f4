"""C25 Hulls are rebuilt from scratch, bounded below and on the right side."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of the hull computation. Directions are the ones the sample grid stands for (recognised numerically), members are of unknown kind and answer a line query with two points '
               'on it; as the computation only compares and copies their distances, every order type of up to four distances, the centre (either side) and the '
               'minimum radius is enumerated. Resulting samples are compared with the definition; histories of two computations with a fresh one; the closedness '
               'test is decided on hulls with symbolic radii.')
ASSUMPTIONS = ['conversion to polar coordinates is exact (C22); members answer with points on the queried line (C32)',
               'resolution and number of members as stated', 'the centre is not on the surface of a member (where it is, only the minimum is required)']
CP, CT, CL = 'StarShapeHull::compute_from_primitives', 'StarShapeHull::StarShapeHull', 'StarShapeHull::is_closed'
RM = F(3, 5)


def cols(s, h, f):
    v = s.read(h).f.get(f)
    if not isinstance(v, C3):
        raise Undecided('representation of hulls not recognised')
    return list(v.cols)


def radii(s, h):
    return [T.cval(T.vcomp(c, 0)) for c in cols(s, h, 'polar_surface_points')]


def expect(inside, hits):
    c = [t for h in hits if h for t in h if t > 0]
    return max(RM, (min if inside else max)(c)) if c else RM


def build(ctx, tables, inside, n, centre=None, rot=None, h=None, s=None, rm=RM):
    s = s or Sc(ctx, hooks=polar_hooks())
    ms = [mray(s, '%s%d' % ('abcdefgh'[len(tables)], k), t) for k, t in enumerate(tables)]
    if h is None:
        h = s.new('StarShapeHull', TRUE if inside else FALSE, T.const(n), T.const(rm))
    if rot is not None:
        s.call(h, 'Obstacle::set_orientation', rot)
    s.call(h, CP, Seq([s.sp(m) for m in ms]), centre or T.vatom('c'), n=2)
    return s, h


def consistent_bad(s, h, n, centre, rot=None):
    """samples in increasing angle once around, Cartesian samples those of the polar ones"""
    pol, car = cols(s, h, 'polar_surface_points'), cols(s, h, 'cartesian_surface_points')
    if len(pol) != n or len(car) != n:
        return '%d samples instead of %d' % (len(pol), n)
    ang = [T.vcomp(c, 2) for c in pol]
    for a, b in zip(ang, ang[1:]):
        if T.bounds(T.sub(b, a))[0] is None or T.bounds(T.sub(b, a))[0] <= 0:
            return 'angles not increasing'
    span = T.sub(T.scale(T.PI, F(2)), T.sub(ang[-1], ang[0]))
    if T.bounds(span)[0] is None or T.bounds(span)[0] <= 0:
        return 'angles span more than one turn'
    for p, c in zip(pol, car):
        d = s.i.hooks[NS + 'MathTools::polar_to_cartesian'](s.i, None, [p], None)
        d = T.vadd(T.qrot(rot, d) if rot is not None else d, centre)
        if not near(c, d):
            return 'Cartesian sample %s instead of %s' % (short(c), short(d))
    for a in ('position', 'reference_position'):
        v = s.val(h, 'Obstacle::get_' + a)
        if not near(v, centre):
            return '%s is %s' % (a, short(v))
    return None


def run(ctx):
    c = T.vatom('c')
    ts = (F(-2), F(1, 10), F(1), F(3))
    pairs = [None] + [(x, y) for x in ts for y in ts if x != y]
    for inside in (False, True):
        side = 'inside' if inside else 'outside'
        for m in (0, 1, 2):
            with ctx.sc('%s hull of %d members' % (side, m), CP):
                bad, count = None, 0
                for hits in itertools.product(pairs, repeat=m):
                    for n in ((2, 3, 4) if m < 2 else (3,)):
                        s, h = build(ctx, [[x] for x in hits], inside, n)
                        want = expect(inside, hits)
                        got = radii(s, h)
                        count += 1
                        if any(r != want for r in got):
                            bad = 'hits at %s: radii %s instead of %s' % (short([str(x) for x in hits]), [str(r) for r in got], want)
                        bad = bad or consistent_bad(s, h, n, c)
                        if bad:
                            break
                        del ctx.interps[:-1]
                    if bad:
                        break
                ctx.check('follows the %s surface point, not below the minimum (%d order types)' % ('nearest' if inside else 'farthest', count), bad is None, bad)
                ctx.extra['order types'] = ctx.extra.get('order types', 0) + count
        with ctx.sc('%s hull through its centre' % side, CP):
            z = F(0)
            for hits in ([(z, F(3))], [(F(3), z)], [(z, F(-2))], [(F(-2), z)], [(z, F(1, 10))], [(z, z)], [(z, F(-1)), (F(1, 10), F(-1))], [(F(2), F(-1)), (z, F(-1))], [(z, z), None], [None, (z, F(-3))]):
                s, h = build(ctx, [[x] for x in hits], inside, 3)
                got = radii(s, h)
                what = [x and tuple(map(str, x)) for x in hits]
                ctx.check('hits at %s: not below the minimum' % (what,), None not in got and min(got) >= RM, 'radii %s' % [str(r) for r in got])
                if all(t <= RM for x in hits if x for t in x):
                    ctx.check('hits at %s: nothing beyond the minimum' % (what,), got == [RM] * 3, 'radii %s' % [str(r) for r in got])
                del ctx.interps[:-1]
        with ctx.sc('%s hull of three members' % side, CP):
            bad = None
            for hits in itertools.permutations([(F(1), F(3)), (F(-2), F(2)), (F(4), F(1, 10)), None, (F(5), F(6))], 3):
                s, h = build(ctx, [[x] for x in hits], inside, 3)
                want = expect(inside, hits)
                if any(r != want for r in radii(s, h)):
                    bad = 'hits at %s: radii %s instead of %s' % (short([str(x) for x in hits]), [str(r) for r in radii(s, h)], want)
                    break
                del ctx.interps[:-1]
            ctx.check('in every order of the members', bad is None, bad)
        with ctx.sc('%s hull that varies with the direction' % side, CP):
            bad, n = None, 5
            vals = [None, (F(-1), F(1)), (F(2), F(3)), (F(1, 10), F(8))]
            for tab in itertools.islice(itertools.product(vals, repeat=n), 0, None, 1 if ctx.thorough else 5):
                s, h = build(ctx, [list(tab)], inside, n)
                raw, got = [expect(inside, [x]) for x in tab], radii(s, h)
                if any(r is None for r in got):
                    raise Undecided('radius not known')
                b = consistent_bad(s, h, n, c)
                if any(r < RM for r in got):
                    b = 'radius %s below the minimum' % min(got)
                for k in range(n):
                    near = [raw[(k + d) % n] for d in (-2, -1, 0, 1, 2)]
                    if not min(near) <= got[k] <= max(near):
                        b = 'radius %s at direction %d outside of those around %s' % (got[k], k, [str(x) for x in near])
                    if abs(got[k] - raw[k]) > F(1, 4) * (max(near) - min(near)):
                        b = 'radius %s at direction %d does not follow %s' % (got[k], k, raw[k])
                if b:
                    bad = 'hits %s: %s' % ([str(x) for x in tab], b)
                    break
                del ctx.interps[:-1]
            ctx.check('follows every direction, not below the minimum', bad is None, bad)
        with ctx.sc('%s hull, lines asked' % side, CP):
            for q in (None, 1):
                s = Sc(ctx, hooks=polar_hooks())
                q = q and s.quat('qh')
                s, h = build(ctx, [[None], [None]], inside, 4, None, q, None, s)
                car = cols(s, h, 'cartesian_surface_points')
                bad = None
                for name, lines in s.lines.items():
                    if len(lines) < 4:
                        bad = 'member %s is asked %d times for 4 directions' % (name, len(lines))
                    for x1, x2 in lines:
                        d = T.vsub(x2, x1)
                        if not parallel(T.vsub(x1, c), d):
                            bad = 'the line through %s and %s misses the centre' % (short(x1), short(x2))
                        elif d is T.VZERO or not any(parallel(T.vsub(p, c), d) for p in car):
                            bad = 'the line through %s and %s is along no direction of the hull' % (short(x1), short(x2))
                    for p in car:
                        if not any(parallel(T.vsub(p, c), T.vsub(x2, x1)) for x1, x2 in lines):
                            bad = 'member %s is not asked along %s' % (name, short(T.vsub(p, c)))
                ctx.check('pass through the centre%s along each of its directions' % (' (oriented)' if q else ''), bad is None, bad)
        with ctx.sc('%s hull, smoothing' % side, CP):
            n, bad = 12 if ctx.thorough else 8, None
            flat_ = [(F(3), F(3)) for _ in range(n)]
            for k in range(n):
                tab = list(flat_)
                tab[k] = (F(4), F(4))
                s, h = build(ctx, [tab], inside, n)
                r = radii(s, h)
                if any(x is None for x in r):
                    raise Undecided('radius not known')
                w = [x - 3 for x in r]
                gap = [min((j - k) % n, (k - j) % n) for j in range(n)]
                if w[k] < F(1, 2) or min(w) < 0 or sum(w) > F(11, 10):
                    bad = 'weights %s of the point in direction %d' % ([str(x) for x in w], k)
                elif any(x > F(1, 4) or (g > 1 and x > F(1, 100)) for x, g in zip(w, gap) if g):
                    bad = 'the point in direction %d enters the radii elsewhere by %s' % (k, [str(x) for x in w])
                if bad:
                    break
                del ctx.interps[:-1]
            ctx.check('mixes in neighbouring directions only, and less than half', bad is None, bad)
        with ctx.sc('%s hull of another resolution' % side, CP, 'StarShapeHull::set_resolution'):
            for a, b in ((6, 3), (2, 5)):
                s, h = build(ctx, [[(F(9), F(8))]], inside, a, T.vatom('c0'))
                s.call(h, 'StarShapeHull::set_resolution', T.const(b))
                build(ctx, [[(F(2), F(3))]], inside, b, None, None, h, s)
                bad = consistent_bad(s, h, b, c)
                s1, h1 = build(ctx, [[(F(2), F(3))]], inside, b)
                ctx.check('%d after %d has as many samples' % (b, a), bad is None, bad)
                ctx.check('%d after %d equals a fresh one' % (b, a), bad is not None or radii(s, h) == radii(s1, h1), 'radii differ')
        with ctx.sc('%s hull rebuilt' % side, CP):
            firsts = ([[(F(9), F(8))]], [[(F(1, 10), F(1, 5))], [(F(6), F(-6))]], [], [[None, (F(7), F(2)), (F(1), F(1, 3))]])
            seconds = ([], [[(F(2), F(3))]], [[None]], [[(F(-1), F(2)), None, (F(4), F(5)), (F(1, 4), F(-3))]])
            bad = None
            for a in firsts:
                for b in seconds:
                    s1, h1 = build(ctx, b, inside, 4)
                    s, h = build(ctx, a, inside, 4, T.vatom('c0'))
                    build(ctx, b, inside, 4, None, None, h, s)
                    if radii(s, h) != radii(s1, h1):
                        bad = 'radii %s instead of %s when rebuilt' % ([str(x) for x in radii(s, h)], [str(x) for x in radii(s1, h1)])
                    bad = bad or consistent_bad(s, h, 4, c)
            ctx.check('equals a fresh one', bad is None, bad)
        with ctx.sc('%s hull, oriented' % side, CP):
            s = Sc(ctx, hooks=polar_hooks())
            q = s.quat('qh')
            s, h = build(ctx, [[(F(2), F(-1))], [(F(3), F(5)), None]], inside, 4, None, q, None, s)
            s1, h1 = build(ctx, [[(F(2), F(-1))], [(F(3), F(5)), None]], inside, 4)
            ctx.check('has the radii of the directions of its own frame', radii(s, h) == radii(s1, h1), 'radii differ')
            b = consistent_bad(s, h, 4, c, q)
            ctx.check('and the samples there', b is None, b)
        with ctx.sc('%s hull built at once' % side, CT, CP):
            s = Sc(ctx, hooks=polar_hooks())
            ms = [mray(s, x, [(F(2), F(-1))]) for x in 'ab']
            pl = Seq([s.sp(m) for m in ms])
            h = s.new('StarShapeHull', pl, TRUE if inside else FALSE, T.const(3), T.const(RM))
            b = consistent_bad(s, h, 3, mean_pos(s, ms))
            ctx.check('is centred at the mean of its members', b is None, b)
            ctx.check('has their radii', radii(s, h) == [F(2)] * 3, 'radii %s' % [str(x) for x in radii(s, h)])
            h2 = s.new('StarShapeHull', TRUE if inside else FALSE, T.const(3), T.const(RM))
            s.call(h2, CP, pl, n=1)
            ctx.eq('and is the one computed later', s.read(h2).f['cartesian_surface_points'], s.read(h).f['cartesian_surface_points'])
        with ctx.sc('%s hull leaves its members alone' % side, CP):
            s = Sc(ctx, hooks=polar_hooks())
            ms = [mray(s, x, [(F(2), F(-1))]) for x in 'ab']
            st = [s.attrs(m, 'Obstacle') for m in ms]
            h = s.new('StarShapeHull', TRUE if inside else FALSE, T.const(3), T.const(RM))
            s.call(h, CP, Seq([s.sp(m) for m in ms]), c, n=2)
            for k, m in enumerate(ms):
                ctx.attrs_eq('member %d' % k, s.attrs(m, 'Obstacle'), st[k])
            ctx.no_events('no access outside of its samples', s.i, ('oob', 'invalidated', 'nullderef'))
            ctx.returns('returns', s.i)
    with ctx.sc('hull of nothing', CT, CP):
        for inside in (False, True):
            s, h = build(ctx, [], inside, 6, rm=F(7, 3))
            ctx.check('is the circle of the minimum radius', radii(s, h) == [F(7, 3)] * 6, 'radii %s' % [str(x) for x in radii(s, h)])
            ctx.check('is open', s.val(h, CL) is FALSE, 'it is closed')
    with ctx.sc('closedness', CL):
        for n in (2, 3, 4):
            s = Sc(ctx)
            rm = T.atom('rmin', pos=True)
            h = mhull(s, ID, 'h', n, rmin=rm)
            got = s.val(h, CL)
            want = TRUE
            for k in range(n):
                want = T.b_ite(lt(T.mul(T.const(F(6, 5)), rm), T.atom('radh%d' % k, pos=True)), want, FALSE)
            ctx.true('of %d samples is that of all of them' % n, T.b_ite(got, want, T.b_ite(want, FALSE, TRUE)))
    with ctx.sc('default sizes', CT):
        s = Sc(ctx, hooks=polar_hooks())
        h = s.new('StarShapeHull')
        d = s.read(h).f
        ctx.check('an outside hull of 500 samples above 0.5', d.get('is_inside', FALSE) is FALSE and T.cval(d.get('resolution', T.const(500))) == 500
                  and T.cval(d.get('min_radius', T.const(F(1, 2)))) == F(1, 2), 'they differ')
