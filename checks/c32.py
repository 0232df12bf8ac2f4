"""C32 Line and ellipsoid: exact intersection for every direction of the line."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of the intersection on a symbolic line, ellipsoid, margin and pose: the returned points satisfy, as identities of algebraic terms, the equation '
               'of the line and the one of the inflated outline, their midpoint is the middle of the chord, and the reported answer is equivalent to the discriminant condition. '
               'Axis-parallel, reversed, far, and degenerate lines are separate cases.  The shift of the reference point is interpreted with an intersection answered by symbols.')
ASSUMPTIONS = ['real arithmetic', 'the line and the outline are those of the plane of the first two axes of the ellipsoid', 'half-axes above the resolution of the ellipsoid']
V3 = 'Matrix<double, 3, 1>'
I = 'Obstacle::compute_interesection_points'


def parts(r):
    """(answer, first point, second point)"""
    if isinstance(r, Tup) and len(r.items) == 2 and isinstance(r.items[1], Tup) and len(r.items[1].items) == 2:
        return r.items[0], r.items[1].items[0], r.items[1].items[1]
    if isinstance(r, G):
        a, b = parts(r.a), parts(r.b)
        return tuple(merge(r.c, x, y) for x, y in zip(a, b))
    raise Undecided('answer not recognised: %s' % short(r))


def under(ctx, c, name, got, want):
    """got equals want whenever c holds"""
    ctx.eq(name, merge(c, got, want), want)


def crossz(u, v):
    return T.sub(T.mul(T.vcomp(u, 0), T.vcomp(v, 1)), T.mul(T.vcomp(u, 1), T.vcomp(v, 0)))


def lengths(s, o):
    at = s.attrs(o)
    return T.vadd(at['axis_lengths'], at['safety_margin'])


def inflated(s, rot=False):
    """an ellipsoid whose margin is what lacks up to symbolic inflated half-axes"""
    p = T.vatom('pe') if rot else T.VZERO
    l, a = s.posvec('le'), s.posvec('ae')
    o = s.new('Ellipsoid', Str('oe'), mstate(s, ID, 'e', rot=rot, moving=False, p=p), p, T.vsub(l, a), pt=['basic_string', 'State', V3, 'Array<double, 3, 1>'], heap=True)
    s.call(o, 'Ellipsoid::set_axis_lengths', a, n=1)
    return o


def lines():
    """name, first point, direction (never zero)"""
    a, b = T.atom('lax'), T.atom('lay')
    k = T.atom('ld', pos=True)
    x1 = T.vec3(a, b, ZERO)
    yield 'any direction', x1, T.vec3(T.atom('dx'), T.atom('dy'), ZERO)
    for nm, d in (('along the first axis', (k, ZERO)), ('against the first axis', (T.neg(k), ZERO)), ('along the second axis', (ZERO, k)), ('against the second axis', (ZERO, T.neg(k))),
                  ('along the diagonal', (k, k)), ('against the diagonal', (T.neg(k), k))):
        yield nm, x1, T.vec3(d[0], d[1], ZERO)


def laws(ctx, tag, hit, p, q, x1, d, l):
    """p, q: points in the frame of the ellipsoid with inflated half-axes l"""
    l0, l1 = T.vcomp(l, 0), T.vcomp(l, 1)
    sc = lambda v: T.vec3(T.div(T.vcomp(v, 0), l0), T.div(T.vcomp(v, 1), l1), ZERO)
    for nm, x in (('first', p), ('second', q)):
        u = sc(x)
        under(ctx, hit, '%s: the %s point lies on the outline' % (tag, nm), T.vdot(u, u), ONE)
        under(ctx, hit, '%s: the %s point lies on the line' % (tag, nm), crossz(T.vsub(x, x1), d), ZERO)
        under(ctx, hit, '%s: the %s point lies in the plane of the ellipsoid' % (tag, nm), T.vcomp(x, 2), ZERO)
    mid = sc(T.vscale(T.vadd(p, q), T.const(F(1, 2))))
    under(ctx, hit, '%s: they are both ends of the chord' % tag, T.vdot(mid, sc(d)), ZERO)
    u, w = sc(x1), sc(d)
    c = crossz(u, w)
    dd = T.vdot(w, w)
    return T.b_and(lt(ZERO, dd), le(T.mul(c, c), dd))


def run(ctx):
    for margin in (True, False):
        mt = 'with margin' if margin else 'without margin'
        for nm, x1, d in lines():
            with ctx.sc('line %s, %s' % (nm, mt), 'Ellipsoid::compute_interesection_points'):
                s = Sc(ctx)
                o = inflated(s) if margin else mellipsoid(s, ID, 'e', curv=False, rot=False, p=T.VZERO, margin=False, moving=False)
                hit, p, q = parts(s.val(o, I, x1, T.vadd(x1, d)))
                want = laws(ctx, nm, hit, p, q, x1, d, lengths(s, o))
                ctx.eq('%s: reported exactly when the line meets the outline' % nm, hit, want)
    with ctx.sc('line in space', 'Ellipsoid::compute_interesection_points'):
        s = Sc(ctx)
        o = inflated(s, True)
        x1, x2 = T.vatom('x1'), T.vatom('x2')
        hit, p, q = parts(s.val(o, I, x1, x2))
        at = s.attrs(o)
        qe = s.quat('qe')
        inv = Q(ONE, T.word_inv(qe.w))
        own = lambda x: T.qrot(inv, T.vsub(x, at['position']))
        y1, y2 = own(x1), own(x2)
        want = laws(ctx, 'moved', hit, own(p), own(q), y1, T.vsub(y2, y1), lengths(s, o))
        ctx.eq('moved: reported exactly when the line meets the outline', hit, want)
        h2, p2, q2 = parts(s.val(o, I, x2, x1))
        ctx.eq('reversed: reported for both directions', h2, hit)
    for nm, x in (('any point', T.vatom('x')), ('its centre', None), ('the origin', T.VZERO)):
        with ctx.sc('degenerate line at %s' % nm, 'Ellipsoid::compute_interesection_points'):
            s = Sc(ctx)
            o = mellipsoid(s, ID, 'e', curv=False, moving=False)
            x = s.attrs(o)['position'] if x is None else x
            hit, p, q = parts(s.val(o, I, x, x))
            ctx.eq('degenerate: no intersection is reported', hit, FALSE)
            ctx.defined('degenerate: points', [p, q])
    shifts(ctx)


def shifts(ctx):
    with ctx.sc('shift of the reference point', 'Obstacle::shift_reference_point'):
        seen = []

        def hit(i, this, vals, fn):
            seen.append([i.read(v) if isinstance(v, (LV, LVG)) else v for v in vals])
            return Tup([T.bpred('hit', T.base('atom', 'line')), Tup([T.vatom('xa'), T.vatom('xb')])])
        s = Sc(ctx)
        o = mabstract(s, ID, '0', {'compute_interesection_points': hit})
        a = magent(s, ID)
        at, aa = s.attrs(o), s.attrs(a)
        s.call(o, 'Obstacle::shift_reference_point', a)
        if not ctx.check('uses a line', len(seen) >= 1, 'no line is intersected'):
            return
        for x1, x2 in seen:
            v = aa['linear_velocity']
            ctx.eq('the line runs along the velocity of the agent', T.vcross(T.vsub(x2, x1), v), T.VZERO)
            ctx.eq('the line passes by the agent', T.vcross(T.vsub(x1, aa['position']), v), T.VZERO)
            ctx.check('the line is not degenerate', not T._same(x1, x2), 'twice the same point')
        now = s.attrs(o)
        c = T.bpred('hit', T.base('atom', 'line'))
        under(ctx, c, 'midway between both points', now['reference_position'], T.vscale(T.vadd(T.vatom('xa'), T.vatom('xb')), T.const(F(1, 2))))
        under(ctx, T.b_not(c), 'kept when the line misses', now['reference_position'], at['reference_position'])
        ctx.attrs_eq('nothing else changes', now, at, skip=('reference_position',))
        ctx.attrs_eq('the agent is left alone', s.attrs(a), aa)
    with ctx.sc('shift for an ellipsoid', 'Obstacle::shift_reference_point'):
        s = Sc(ctx)
        o = mellipsoid(s, ID, 'e', curv=False)
        a = magent(s, ID)
        at, aa = s.attrs(o), s.attrs(a)
        h, p, q = parts(s.val(o, I, aa['position'], T.vadd(aa['position'], aa['linear_velocity'])))
        s.call(o, 'Obstacle::shift_reference_point', a)
        under(ctx, h, 'midway between the points of its intersection', s.attrs(o)['reference_position'], T.vscale(T.vadd(p, q), T.const(F(1, 2))))
        under(ctx, T.b_not(h), 'kept when the line misses', s.attrs(o)['reference_position'], at['reference_position'])
    with ctx.sc('shift for an agent at rest', 'Obstacle::shift_reference_point'):
        s = Sc(ctx)
        o = mellipsoid(s, ID, 'e', curv=False)
        a = magent(s, ID, moving=False)
        at = s.attrs(o)
        s.call(o, 'Obstacle::shift_reference_point', a)
        ctx.attrs_eq('keeps everything', s.attrs(o), at)
