"""C22 Sampling helpers meet their contract."""
import itertools
from engine.ctx import *
from engine import witness
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of the helpers with symbolic ends and points. Evenness is decided over the reals; exactness of the ends with arithmetic on '
               'doubles kept opaque, so that only values that are copied or computed without rounding count as exact. Sorting only compares, so all weak orders of '
               'the angles are enumerated with symbolic columns.')
ASSUMPTIONS = ['number of samples, grid sizes and columns as stated', 'rounding of trigonometric functions is left aside in the conversion to polar coordinates']
LS, GS, SORT, POL, CAR, RND = ('MathTools::' + x for x in ('linspace', 'gridspace', 'sorted_cols_by_theta', 'cartesian_to_polar', 'polar_to_cartesian', 'rand_float'))
SIGN, CMP = 'MathTools::sign', 'MathTools::compare_theta'
A, B, C, D = (T.atom(x) for x in ('a', 'b', 'c', 'd'))


def items(s, r):
    if not isinstance(r, Seq):
        raise Undecided('result is not a sequence')
    return list(r.items)


def standard(ctx, t):
    """is a thrown type caught by handlers of std::exception?"""
    t = str(t).replace('const ', '').replace('class ', '').replace('struct ', '').strip()
    if '*' in t:
        return False
    t = t.rstrip('& ')
    if t in ctx.p.records:
        return any(standard(ctx, b) for b in ctx.p.bases(t))
    return t.startswith('std::') and not t.startswith('std::basic_string') and t != 'std::string'


def exact(ctx, name, got, want):
    if T._same(got, want):
        return ctx.ok(name)
    w = witness.fseparate(got, want)
    if w is not None:
        return ctx.fail(name, 'computed with rounding as %s, e.g. for %s' % (short(got), witness.describe(w, [got, want])))
    return ctx.und(name, 'computed as %s' % short(got))


def even(a, b, n):
    return [T.add(a, T.scale(T.sub(b, a), F(k, n - 1))) for k in range(n)]


def run(ctx):
    for n in range(2, 60 if ctx.thorough else 16):
        with ctx.sc('linear sampling of %d' % n, LS):
            s = Sc(ctx)
            r = items(s, s.val(None, LS, A, B, T.const(n)))
            ctx.check('size', len(r) == n, '%d values' % len(r))
            if len(r) == n:
                ctx.eq('evenly spaced', r, even(A, B, n))
            s = Sc(ctx, fp=True)
            r = items(s, s.val(None, LS, A, B, T.const(n)))
            if r:
                exact(ctx, 'starts exactly at the start', r[0], A)
                exact(ctx, 'ends exactly at the end', r[-1], B)
    with ctx.sc('linear sampling with given ends', LS):
        bad = None
        for a, b in itertools.product((F(0), F(-1), F(3, 2), F(7)), repeat=2):
            for n in (2, 3, 4, 7):
                s = Sc(ctx)
                r = items(s, s.val(None, LS, T.const(a), T.const(b), T.const(n)))
                if [T.cval(x) for x in r] != [a + (b - a) * F(k, n - 1) for k in range(n)]:
                    bad = 'from %s to %s in %d: %s' % (a, b, n, short(r))
        ctx.check('equal, rising and falling ends', bad is None, bad)
    for n in (1, 0, -1, -5):
        with ctx.sc('linear sampling of %d' % n, LS):
            s = Sc(ctx)
            rec, r = rewind(s, lambda: s.val(None, LS, A, B, T.const(n)))
            ctx.check('raises an exception of the standard library', rec is not None and standard(ctx, rec['type']),
                      'throws %s' % rec['type'] if rec else 'returns %s' % short(r))
            ctx.no_events('and touches nothing invalid before', s.i, ('oob', 'div0', 'dangling', 'abort'))
    top = 6 if ctx.thorough else 4
    for n, m in itertools.product(range(2, top + 1), repeat=2):
        with ctx.sc('grid of %d x %d' % (n, m), GS):
            s = Sc(ctx)
            r = items(s, s.val(None, GS, Tup([A, B]), Tup([C, D]), Tup([T.const(n), T.const(m)])))
            ctx.check('size', len(r) == n * m, '%d points' % len(r))
            if len(r) == n * m:
                want = [x for p, q in itertools.product(even(A, C, n), even(B, D, m)) for x in (p, q)]
                ctx.eq('every pair once, the second coordinate first', [y for x in r for y in flat(x)], want)
            ctx.no_events('stays inside of its memory', s.i, ('oob', 'dangling', 'invalidated'))
    for n, m in ((1, 3), (3, 1), (0, 2), (2, 0), (-1, 2), (2, -1), (-1, -1)):
        with ctx.sc('grid of %d x %d' % (n, m), GS):
            s = Sc(ctx)
            rec, r = rewind(s, lambda: s.val(None, GS, Tup([A, B]), Tup([C, D]), Tup([T.const(n), T.const(m)])))
            ctx.check('raises an exception of the standard library', rec is not None and standard(ctx, rec['type']),
                      'throws %s' % rec['type'] if rec else 'returns %s' % short(r))
            ctx.no_events('and touches nothing invalid before', s.i, ('oob', 'div0', 'dangling', 'abort'))
    with ctx.sc('polar coordinates', POL, CAR):
        s = Sc(ctx)
        x = T.vec3(A, B, C)
        p = s.val(None, POL, x)
        ctx.eq('radius', T.vcomp(p, 0), T.vnorm(x))
        ctx.eq('and back', s.val(None, CAR, p), x, con=assume(lt(ZERO, T.vnorm(x))))
    pts = [(0, 0, 0), (0, 0, 1), (0, 0, -2), (1, 0, 0), (-3, 0, 0), (0, 1, 0), (0, -1, 0)]
    for q in pts:
        with ctx.sc('polar coordinates of (%d, %d, %d)' % q, POL, CAR):
            s = Sc(ctx)
            v = T.vec3(*[T.const(c) for c in q])
            p = s.val(None, POL, v)
            ctx.no_events('no division by zero', s.i, ('div0',))
            ctx.eq('and back', s.val(None, CAR, p), v)
    for tag, v in (('first axis', (A, ZERO, ZERO)), ('second axis', (ZERO, A, ZERO)), ('third axis', (ZERO, ZERO, A)), ('horizontal plane', (A, B, ZERO)), ('plane with the third axis', (A, ZERO, B))):
        with ctx.sc('polar coordinates, ' + tag, POL, CAR):
            s = Sc(ctx)
            v = T.vec3(*v)
            con = assume(lt(ZERO, T.vnorm(v)))
            ctx.eq('and back', s.val(None, CAR, s.val(None, POL, v)), v, con=con)
    top = 5 if ctx.thorough else 4
    for n in range(1, top + 1):
        with ctx.sc('sorting %d columns' % n, SORT):
            bad, count = None, 0
            for th in itertools.product(range(n), repeat=n):
                if set(th) != set(range(len(set(th)))):
                    continue
                s = Sc(ctx)
                cols = [T.vec3(T.atom('x%d' % k), T.const(F(t) - 1), T.atom('z%d' % k)) for k, t in enumerate(th)]
                r = s.val(None, SORT, C3(cols))
                count += 1
                if not isinstance(r, C3):
                    raise Undecided('result is not a list of columns')
                got = list(r.cols)
                ang = [T.cval(T.vcomp(c, 1)) for c in got]
                if len(got) != n or None in ang or any(a > b for a, b in zip(ang, ang[1:])):
                    bad = bad or 'angles %s sorted to %s' % (list(th), [short(x) for x in got])
                elif sorted(c.id for c in got) != sorted(c.id for c in cols):
                    bad = bad or 'columns %s of angles %s after sorting' % ([short(x) for x in got], list(th))
                for k, pc, data, loc, st in s.i.events:
                    if k in ('oob', 'dangling', 'invalidated') and pc is not FALSE:
                        bad = bad or '%s %s for %s' % (k, short(data), list(th))
                del ctx.interps[:-1]
            ctx.check('sorted, and a permutation of the columns (%d weak orders)' % count, bad is None, bad)
            ctx.extra['weak orders'] = ctx.extra.get('weak orders', 0) + count
    with ctx.sc('random number', RND):
        for tag, lits in (('rising', [le(A, B)]), ('falling', [le(B, A)])):
            s = Sc(ctx)
            r = s.val(None, RND, A, B)
            lo, hi = (A, B) if tag == 'rising' else (B, A)
            con = assume(*lits)
            rs = [b for b in T.all_bases(r) if b.kind == 'atom' and isinstance(b.args[0], tuple) and b.args[0][0] == 'rand']
            if len(rs) != 1 or any(e != 1 for m, c in r.t for b, e in m if b is rs[0]):
                raise Undecided('not linear in one random integer')
            for end in (rs[0].facts['lo'], rs[0].facts['hi']):
                x = T.subst(r, lambda b: T.const(end) if b is rs[0] else None)
                ctx.true('%s bounds, random integer %s: not below the lower one' % (tag, end), le(lo, x), con=con)
                ctx.true('%s bounds, random integer %s: not above the upper one' % (tag, end), le(x, hi), con=con)
    with ctx.sc('sign', SIGN):
        for t, vals in (('double', (F(-7, 2), F(-1), F(-1, 10 ** 9), F(0), F(1, 10 ** 9), F(1), F(5))), ('int', (F(-3), F(-1), F(0), F(1), F(2)))):
            for v in vals:
                r = Sc(ctx).val(None, SIGN, T.const(v), pt=[t])
                ctx.check('of the %s %s' % (t, v), T.cval(r) == (v > 0) - (v < 0), short(r))
        s = Sc(ctx)
        r = s.val(None, SIGN, A, pt=['double'])
        for tag, con, w in (('positive', lt(ZERO, A), 1), ('negative', lt(A, ZERO), -1)):
            ctx.eq('of any %s number' % tag, r, T.const(w), con=assume(con))
    with ctx.sc('order of columns', CMP):
        s = Sc(ctx)
        u, v = T.vec3(*(T.atom('u%d' % k) for k in range(3))), T.vec3(*(T.atom('v%d' % k) for k in range(3)))
        r = s.val(None, CMP, u, v)
        ctx.true('is by the angle', T.b_ite(r, lt(T.vcomp(u, 1), T.vcomp(v, 1)), T.b_ite(lt(T.vcomp(u, 1), T.vcomp(v, 1)), FALSE, TRUE)))
        ctx.check('no column is before itself', s.val(None, CMP, u, u) is FALSE, 'it is')
