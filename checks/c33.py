"""C33 An answer depends on what an obstacle is, not on how it is described."""
from engine.ctx import *
from checks.scenes import *
from checks.c13 import few_samples

EXPLANATION = ('Non-interference and symmetry laws on value graphs: every scene is built twice through the public interface, differing only in what must not matter (names, '
               'velocities and reference points for geometry; orientation and spin of the agent; the naming of the axes of an ellipsoid; the names and the order of the '
               'obstacles for the commanded velocity), and the two value graphs of each answer have to be equal.')
ASSUMPTIONS = ['real arithmetic', 'overlaps of ellipsoids are compared on outlines of two samples', 'half-axes above the internal threshold']
SAMPLE = NS + 'Ellipsoid::sample_from_parameterization'
V3, A3 = 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'
D, I = 'Obstacle::compute_distance_to_point', 'Obstacle::compute_interesection_points'


def ell(s, name, p, q, a, m, c=None, tag='', planar=False):
    """an ellipsoid of a given shape and placement; what must not matter is named after the tag"""
    st = s.i.alloc(s.i.new('State', [p, T.QID, T.vatom('v' + tag), T.vatom('w' + tag)]))
    s.call(st, 'State::set_orientation', q)
    o = s.new('Ellipsoid', Str(name), s.read(st), T.vatom('r' + tag), T.vec3(*m), pt=['basic_string', 'State', V3, A3], heap=True)
    s.call(o, 'Ellipsoid::set_axis_lengths', T.vec3(*a), n=1)
    if c:
        s.call(o, 'Ellipsoid::set_curvature_factor', T.vec3(*c), n=1)
    return o


def shape(k=''):
    f = lambda n, lo: [atom_lo('%s%s%d' % (n, k, e), lo) for e in range(3)]
    return f('a', F(1, 1000)), [T.atom('m%s%d' % (k, e), nonneg=True) for e in range(3)], f('c', F(1))


def atom_lo(n, lo):
    x = T.atom(n, pos=True)
    T.single_base(x).facts['lo'] = lo
    return x


def queries(curv):
    x, y, m = T.vatom('x'), T.vatom('y'), T.vec3(*[T.atom('qm%d' % k, nonneg=True) for k in range(3)])
    q = [('distance to a point', D, lambda s, o, a: s.val(o, D, x, m, pt=[V3, A3])),
         ('distance to an agent', D, lambda s, o, a: s.val(o, 'Obstacle::compute_distance_to_agent', a)),
         ('normal', 'Ellipsoid::compute_normal_to_agent', lambda s, o, a: s.val(o, 'Obstacle::compute_normal_to_agent', a))]
    if not curv:
        q += [('inside', 'Ellipsoid::point_is_inside', lambda s, o, a: s.val(o, 'Obstacle::point_is_inside', x)),
              ('line', 'Ellipsoid::compute_interesection_points', lambda s, o, a: s.val(o, I, x, y)),
              ('samples', 'Ellipsoid::sample_from_parameterization', lambda s, o, a: s.val(o, 'Obstacle::sample_from_parameterization', T.const(3), TRUE)),
              ('area', 'Ellipsoid::area', lambda s, o, a: s.val(o, 'Ellipsoid::area', TRUE)),
              ('overlap', 'Ellipsoid::is_intersecting_ellipsoid', lambda s, o, a: s.val(o, 'Obstacle::is_intersecting', other(s), n=1, pt=['Obstacle'])),
              ('overlap, asked the other way round', 'Ellipsoid::is_intersecting_ellipsoid', lambda s, o, a: s.val(other(s), 'Obstacle::is_intersecting', o, n=1, pt=['Obstacle'])),
              ('agent in it', 'Agent::in_obstacle', lambda s, o, a: s.val(a, 'Agent::in_obstacle', o)),
              ('path', 'Agent::exist_path', lambda s, o, a: s.val(a, 'Agent::exist_path', x, Seq([s.sp(o)])))]
    return q


def own_names(ctx):
    """the names that obstacles held by an agent have"""
    s = Sc(ctx)
    out = set()

    def go(x):
        if isinstance(x, Rec):
            for k, y in x.f.items():
                if k == 'name' and isinstance(y, Str) and all(isinstance(z, str) for z in y.p):
                    out.add(''.join(y.p))
                go(y)
    go(s.read(agent(s, '')))
    return out


def other(s):
    a, m, _ = shape('b')
    return ell(s, 'other', T.vatom('pb'), s.quat('qb'), a, m, tag='b')


def same(x, y):
    return T.b_ite(x, y, T.b_not(y))


def along(n):
    """the vector a unit vector is along, if it is held as one"""
    if isinstance(n, V) and len(n.t) == 1:
        (w, b), c = n.t[0]
        if not w and b.kind == 'unit' and T.cval(c) in (1, -1):
            return b.args[0] if T.cval(c) == 1 else T.vneg(b.args[0])
    return None


def agent(s, tag):
    st = s.i.alloc(s.i.new('State', [T.vatom('pA'), T.QID, T.vatom('vA' + tag), T.vatom('wA' + tag)]))
    s.call(st, 'State::set_orientation', s.quat('qA' + tag))
    return s.new('Agent', s.read(st), T.atom('mA', nonneg=True))


def run(ctx):
    a, m, c = shape()
    p = T.vatom('p')
    # ------------------------------------------------ attributes that must not matter
    for curv in (False, True):
        for name, fn, f in queries(curv):
            with ctx.sc('%s%s' % (name, ', curved' if curv else ''), fn):
                r = []
                names = [('1', 'o'), ('2', 'zz'), ('1', '')] + ([('1', x) for x in sorted({'other', 'envelope'} | own_names(ctx))] if 'overlap' in name or 'agent' in name or name == 'path' else [])
                for tag, what in names:
                    s = Sc(ctx, hooks={SAMPLE: few_samples} if name in ('overlap', 'overlap, asked the other way round', 'agent in it') else {})
                    o = ell(s, what, p, s.quat('q'), a, m, c if curv else None, tag)
                    r.append(f(s, o, agent(s, tag)))
                ctx.eq('does not depend on names, velocities and reference points', r[1], r[0])
                for (tag, what), x in list(zip(names, r))[2:]:
                    ctx.eq('does not depend on the name (%s)' % (what or 'none'), x, r[0])
    # ------------------------------------------------ the naming of the axes: the frame turned, sizes and coordinates exchanged accordingly
    u, w = ([T.atom('%s%d' % (n, k)) for k in range(3)] for n in 'uw')
    turns = [('a third turn about the diagonal', lambda v: [v[1], v[2], v[0]], lambda v: [v[2], v[0], v[1]], True),
             ('a quarter turn about the third axis', lambda v: [v[1], T.neg(v[0]), v[2]], lambda v: [T.neg(v[1]), v[0], v[2]], False),
             ('a half turn about the third axis', lambda v: [T.neg(v[0]), T.neg(v[1]), v[2]], lambda v: [T.neg(v[0]), T.neg(v[1]), v[2]], False)]
    size = {'a third turn about the diagonal': (1, 2, 0), 'a quarter turn about the third axis': (1, 0, 2), 'a half turn about the third axis': (0, 1, 2)}
    P3 = [T.vcomp(p, k) for k in range(3)]
    at = lambda v: T.vec3(*[T.add(x, y) for x, y in zip(P3, v)])
    for what, fw, bw, full in turns:
        mix = lambda v: [v[k] for k in size[what]]
        qm = [T.atom('qm%d' % k, nonneg=True) for k in range(3)]

        def two(f, curv=False):
            r = []
            for g, h in ((lambda v: v, lambda v: v), (fw, mix)):
                s = Sc(ctx)
                o = ell(s, 'o', p, T.QID, h(a), h(m), h(c) if curv else None)
                r.append(f(s, o, g, h))
            return r

        def agent_at(s, g):
            return s.new('Agent', s.i.new('State', [at(g(u)), T.QID, T.VZERO, T.VZERO]), T.atom('mA', nonneg=True))

        def moved(v):
            return at(bw([T.sub(x, y) for x, y in zip([T.vcomp(v, k) for k in range(3)], P3)]))
        for curv in (False, True) if full else (False,):
            with ctx.sc('distance after %s%s' % (what, ', curved' if curv else ''), 'Ellipsoid::compute_distance_to_point'):
                r = two(lambda s, o, g, h: s.val(o, D, at(g(u)), T.vec3(*h(qm)), pt=[V3, A3]), curv)
                ctx.eq('is the same obstacle to a point', r[1], r[0])
                r = two(lambda s, o, g, h: s.val(o, 'Obstacle::compute_distance_to_agent', agent_at(s, g)), curv)
                ctx.eq('is the same obstacle to an agent', r[1], r[0])
            with ctx.sc('normal after %s%s' % (what, ', curved' if curv else ''), 'Ellipsoid::compute_normal_to_agent'):
                r = two(lambda s, o, g, h: s.val(o, 'Obstacle::compute_normal_to_agent', agent_at(s, g)), curv)
                n2 = T.vec3(*bw([T.vcomp(r[1], k) for k in range(3)]))
                x, y = along(r[0]), along(r[1])
                if x is not None and y is not None:
                    # both are unit vectors: equal when they are along the same vector
                    y = bw([T.vcomp(y, k) for k in range(3)])
                    if all(T._same(T.vcomp(x, k), y[k]) for k in range(3)):
                        ctx.ok('is the same obstacle')
                        continue
                ctx.eq('is the same obstacle', [T.vcomp(n2, k) for k in range(3)], [T.vcomp(r[0], k) for k in range(3)])
        if full:
            with ctx.sc('area after %s' % what, 'Ellipsoid::area'):
                for b in (TRUE, FALSE):
                    r = two(lambda s, o, g, h: s.val(o, 'Ellipsoid::area', b))
                    ctx.eq('is the same (margin %s)' % (b is TRUE), r[1], r[0])
                    s = Sc(ctx)
                    o3 = ell(s, 'o', p, T.QID, [a[1], a[0], a[2]], [m[1], m[0], m[2]])
                    ctx.eq('is the same with two axes exchanged (margin %s)' % (b is TRUE), s.val(o3, 'Ellipsoid::area', b), r[0])
            continue
        with ctx.sc('inside after %s' % what, 'Ellipsoid::point_is_inside'):
            r = two(lambda s, o, g, h: s.val(o, 'Obstacle::point_is_inside', at(g(u))))
            ctx.true('is the same obstacle', same(*r))
        with ctx.sc('path after %s' % what, 'Agent::exist_path'):
            r = two(lambda s, o, g, h: s.val(agent_at(s, g), 'Agent::exist_path', at(g(w)), Seq([s.sp(o)])))
            ctx.true('is the same obstacle', same(*r))
        with ctx.sc('line after %s' % what, 'Ellipsoid::compute_interesection_points'):
            r = two(lambda s, o, g, h: s.val(o, I, at(g(u)), at(g(w))))
            ctx.true('is hit alike', same(r[1].items[0], r[0].items[0]))
            for k in range(2):
                want = r[0].items[1].items[k]
                got = T.vite(r[0].items[0], moved(r[1].items[1].items[k]), want)
                ctx.eq('point %d is the same' % k, [T.vcomp(got, e) for e in range(3)], [T.vcomp(want, e) for e in range(3)])
    # ------------------------------------------------ agents
    with ctx.sc('an agent in an obstacle', 'Agent::in_obstacle'):
        seen = []

        def rel(i, this, vals, fn):
            pair = [i.read(x) for x in (this, vals[0])]
            seen.append(pair)
            return T.bpred('inter', T.base('atom', 'pair'))
        s = Sc(ctx, hooks={NS + 'Ellipsoid::is_intersecting_ellipsoid': rel})
        o = ell(s, 'target', p, s.quat('q'), a, m)
        ag = agent(s, '')
        r = s.val(ag, 'Agent::in_obstacle', o)
        if len(seen) != 1 or r is not T.bpred('inter', T.base('atom', 'pair')):
            ctx.und('overlap with the ball of its margin', 'not asked as an overlap')
        else:
            me = [x for x in seen[0] if x.f.get('name') != Str('target')]
            if ctx.check('asks about the obstacle given', len(me) == 1, 'asks about %s' % [short(x.f.get('name')) for x in seen[0]]):
                lv = s.i.alloc(me[0])
                M = T.atom('mA', nonneg=True)
                want = T.ite(lt(T.const(F(1, 10)), M), M, T.const(F(1, 10)))
                ln = T.vadd(s.val(lv, 'Ellipsoid::get_axis_lengths', n=0), s.val(lv, 'Obstacle::get_safety_margin'))
                ctx.eq('the ball is centred on the agent', s.val(lv, 'Obstacle::get_position'), T.vatom('pA'))
                for k in range(2):
                    ctx.eq('the ball has the radius of the margin (axis %d)' % k, T.vcomp(ln, k), want)
    # ------------------------------------------------ order and names of the obstacles
    for n in (2, 3) if ctx.thorough else (2,):
        for local, rep, planar in ((FALSE, FALSE, FALSE), (FALSE, TRUE, FALSE), (FALSE, TRUE, TRUE)):
            with ctx.sc('commanded velocity of %d obstacles%s%s' % (n, ', repulsion' if rep is TRUE else '', ', planar' if planar is TRUE else ''), MV):
                r = []
                for names in ('abc'[:n], 'cba'[-n:]):
                    s = Sc(ctx)
                    os = [mabstract(s, ID, str(k), abs_handlers(), obsname=x) for k, x in enumerate(names)]
                    e = s.env(os)
                    r.append((mv(s, magent(s, ID), e, local, rep, planar), s, os))
                (u, s, os), (v, t, os2) = r
                ctx.sep('does not depend on names and order', finite(v), finite(u), n=12)
                for k in range(n):
                    ctx.eq('nor do the reference points (%d)' % k, t.val(os2[k], 'Obstacle::get_reference_position'), s.val(os[k], 'Obstacle::get_reference_position'))
    for n in (1, 2):
        with ctx.sc('commanded velocity by the agent, %d obstacles' % n, MV):
            r = []
            for tag in '12':
                s = Sc(ctx)
                os = [mabstract(s, ID, str(k), abs_handlers()) for k in range(n)]
                st = s.i.alloc(s.i.new('State', [T.vatom('pA'), T.QID, T.vatom('vA'), T.vatom('wA' + tag)]))
                s.call(st, 'State::set_orientation', s.quat('qA' + tag))
                ag = s.new('Agent', s.read(st), T.atom('mA', nonneg=True))
                r.append(mv(s, ag, s.env(os), FALSE, TRUE))
            ctx.sep('does not depend on its orientation and spin', finite(r[1]), finite(r[0]), n=12)
