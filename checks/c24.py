"""C24 Answers about several obstacles are the logical combination of the single ones."""
import itertools
from engine.ctx import *
from checks.scenes import *
from checks.c19 import inside_of, same_bool

EXPLANATION = ('Abstract interpretation with the single answers as unknown predicates: intersections of pairs, points inside of obstacles and closedness. The answers '
               'about lists, aggregates (nested ones, too) and paths become decision diagrams over these predicates, compared with the stated combination, for all '
               'combinations of single answers at once, for every order of the elements.')
ASSUMPTIONS = ['number of elements as stated', 'the relation between two ellipsoids is symmetric']
LST, AGG, PATH, INS = 'Obstacle::is_intersecting', 'Obstacle::is_intersecting_aggregate', 'Agent::exist_path', 'Aggregate::point_is_inside'


def some(xs):
    return T.b_or(*xs) if xs else FALSE


def every(xs):
    return T.b_and(*xs) if xs else TRUE


def same(x, y):
    return T.b_ite(x, y, T.b_not(y))


def scene(ctx, **kw):
    return Sc(ctx, hooks=dict(NOHULL, **INTER), **kw)


def ells(s, names):
    return [mellipsoid(s, ID, n, rot=False, moving=False, curv=False, obsname='o' + n) for n in names]


def ask(s, x, lst):
    return s.val(x, LST, Seq([s.sp(o) for o in lst]), pt=['deque'])


def inside_preds(s):
    """single answers about points: of obstacles of unknown kind and of the hulls"""
    tag = lambda i, this: 'in' if i.read(this).f.get('is_inside') is TRUE else 'out'
    s.i.absm.update(abs_handlers())
    s.i.absm['point_is_inside'] = lambda i, this, vals, fn: inside_of(i, abs_name(i, this), vals[0])
    s.i.hooks[NS + 'StarShapeHull::point_is_inside'] = lambda i, this, vals, fn: inside_of(i, tag(i, this), vals[0])
    s.i.hooks[NS + 'StarShapeHull::is_closed'] = lambda i, this, vals, fn: T.bpred('closed', T.base('atom', tag(i, this)))


def marg(i, v):
    v = i.read(v) if isinstance(v, (LV, LVG)) else v
    return '/'.join(short(x) for x in (v.items if isinstance(v, Arr) else [T.vcomp(v, k) for k in range(3)]))


def ins(who, v):
    return T.bpred('inside', T.base('atom', who), T.base('atom', ('pt', v.id)))


def closed(who):
    return T.bpred('closed', T.base('atom', who))


def hulls(s, k=''):
    return [mhull(s, ID, 'h%d%s' % (i, k), 2, inside=i == 0, rot=False) for i in range(2)]


def run(ctx):
    top = 7 if ctx.thorough else 5
    names = 'abcdefg'
    for n in range(top + 1):
        with ctx.sc('list of %d' % n, LST):
            for perm in ([tuple(range(n))] if n > 3 else itertools.permutations(range(n))):
                s = scene(ctx)
                es = ells(s, names[:n])
                x = ells(s, 'x')[0]
                same_bool(ctx, 'at least one, order %s' % (perm,), ask(s, x, [es[k] for k in perm]), some([inter('ox', 'o' + names[k]) for k in perm]))
        with ctx.sc('aggregate of %d' % n, AGG, 'Aggregate::is_intersecting_ellipsoid'):
            if n == 0:
                continue
            s = scene(ctx)
            es = ells(s, names[:n])
            x = ells(s, 'x')[0]
            a = s.new('Aggregate', Seq([s.sp(e) for e in es]), heap=True)
            want = some([inter('ox', 'o' + k) for k in names[:n]])
            same_bool(ctx, 'at least one member', s.val(x, LST, a, pt=['Obstacle &']), want)
            same_bool(ctx, 'asked the other way round', s.val(a, LST, x, pt=['Obstacle &']), want)
            same_bool(ctx, 'and its list', ask(s, a, [x]), want)
    with ctx.sc('empty aggregate', AGG):
        s = scene(ctx)
        a = s.new('Aggregate')
        x = ells(s, 'x')[0]
        same_bool(ctx, 'intersects nothing', s.val(x, LST, a, pt=['Obstacle &']), FALSE)
        same_bool(ctx, 'asked the other way round', s.val(a, LST, x, pt=['Obstacle &']), FALSE)
    with ctx.sc('lists of mixed kinds', LST, AGG):
        for perm in itertools.permutations(range(3)):
            s = scene(ctx)
            a, b, c, d, e, x, y = ells(s, 'abcdexy')
            g1 = s.new('Aggregate', Seq([s.sp(a), s.sp(b)]), heap=True)
            g2 = s.new('Aggregate', Seq([s.sp(c)]), heap=True)
            g3 = s.new('Aggregate', Seq([s.sp(g2), s.sp(d)]), heap=True)
            items = [(g1, 'ab'), (g3, 'cd'), (e, 'e')]
            lst = [items[k] for k in perm]
            same_bool(ctx, 'an ellipsoid, order %s' % (perm,), ask(s, x, [o for o, _ in lst]), some([inter('ox', 'o' + k) for k in 'abcde']))
            g4 = s.new('Aggregate', Seq([s.sp(x), s.sp(y)]), heap=True)
            same_bool(ctx, 'an aggregate, order %s' % (perm,), ask(s, g4, [o for o, _ in lst]), some([inter('o' + p, 'o' + q) for p in 'xy' for q in 'abcde']))
            if perm == (0, 1, 2):
                same_bool(ctx, 'the same element twice', ask(s, x, [e, e]), inter('ox', 'oe'))
                same_bool(ctx, 'an aggregate and a member of it', ask(s, x, [g1, a]), some([inter('ox', 'o' + k) for k in 'ab']))
    with ctx.sc('a list that contains the obstacle itself', LST):
        for k in range(3):
            s = Sc(ctx, hooks=relation_hooks({frozenset(['ox']): True, **{frozenset(['o' + x]): True for x in 'ab'}}))
            a, b, x = ells(s, 'abx')
            lst = [a, b]
            lst.insert(k, x)
            same_bool(ctx, 'intersects itself, place %d' % k, ask(s, x, lst), TRUE)
    with ctx.sc('agent in an obstacle', 'Agent::in_obstacle'):
        s = scene(ctx)
        a, b, c = ells(s, 'abc')
        ag = magent(s, ID)
        g = s.new('Aggregate', Seq([s.sp(x) for x in (a, b, c)]), heap=True)
        one = [s.val(ag, 'Agent::in_obstacle', x) for x in (a, b, c)]
        same_bool(ctx, 'in an aggregate: in one of its members', s.val(ag, 'Agent::in_obstacle', g), some(one))
    # ------------------------------------------------ inside of an aggregate
    for n in range(top):
        with ctx.sc('inside an aggregate of %d' % n, INS):
            for perm in ([tuple(range(n))] if n > 3 else itertools.permutations(range(n))):
                s = scene(ctx)
                inside_preds(s)
                os = [mabstract(s, ID, k, rot=False) for k in names[:n]]
                hs = hulls(s)
                a = maggregate(s, ID, [os[k] for k in perm], hs) if n else s.new('Aggregate')
                p = T.vatom('pt')
                got = s.val(a, 'Obstacle::point_is_inside', p)
                same_bool(ctx, 'outer hull or a member, order %s' % (perm,), got, some([ins('out', p)] + [ins(names[k], p) for k in perm]))
                same_bool(ctx, 'closed like its outer hull, order %s' % (perm,), s.val(a, 'Obstacle::is_closed'), closed('out'))
    with ctx.sc('inside an aggregate of ellipsoids', INS, 'Ellipsoid::point_is_inside'):
        s = scene(ctx)
        es = [mellipsoid(s, ID, k, curv=False) for k in 'ab']
        inside_preds(s)
        a = maggregate(s, ID, es, hulls(s))
        p = T.vatom('pt')
        same_bool(ctx, 'outer hull or a member', s.val(a, 'Obstacle::point_is_inside', p), some([ins('out', p)] + [s.val(e, 'Obstacle::point_is_inside', p) for e in es]))
    with ctx.sc('inside an aggregate of aggregates', INS):
        s = scene(ctx)
        inside_preds(s)
        os = [mabstract(s, ID, k, rot=False) for k in 'abc']
        inner = maggregate(s, ID, os[:2], hulls(s))
        outer = maggregate(s, ID, [inner, os[2]], hulls(s, 'x'))
        p = T.vatom('pt')
        same_bool(ctx, 'a hull or a member', s.val(outer, 'Obstacle::point_is_inside', p), some([ins('out', p)] + [ins(k, p) for k in 'abc']))
    # ------------------------------------------------ distance and normal of an aggregate
    with ctx.sc('distance to an aggregate', 'Aggregate::compute_distance_to_point', 'Aggregate::compute_normal_to_agent'):
        for n in (1, 2, 3):
            for turned in (False, True):
                s = scene(ctx)
                inside_preds(s)
                tag = lambda i, this: 'in' if i.read(this).f.get('is_inside') is TRUE else 'out'
                key = lambda i, v: getattr(i.read(v) if isinstance(v, (LV, LVG)) else v, 'id', '?')
                s.i.hooks[NS + 'StarShapeHull::compute_distance_to_point'] = lambda i, this, vals, fn: T.atom('d_%s_%s_%s' % (tag(i, this), key(i, vals[0]), marg(i, vals[1])), pos=True)
                s.i.hooks[NS + 'StarShapeHull::compute_normal_to_agent'] = lambda i, this, vals, fn: T.vunit(T.vatom('n_' + tag(i, this)))
                os = [mabstract(s, ID, k, rot=False) for k in names[:n]]
                hs = hulls(s)
                a = maggregate(s, ID, os, hs)
                if turned:
                    s.call(a, 'Obstacle::set_orientation', s.quat('qag'))
                p, m = T.vatom('pt'), T.vec3(*[T.atom('mm%d' % k, nonneg=True) for k in range(3)])
                ag = magent(s, ID)
                me = s.val(ag, 'Agent::get_position')
                fs = [a + ('f', k) for k, h in sorted(s.read(a).f.items()) if isinstance(h, Rec) and 'is_inside' in h.f]
                inner, outer = ([h for h in fs if (s.read(h).f['is_inside'] is TRUE) == b][0] for b in (True, False))
                is_in = lambda x: some([ins('out', x)] + [ins(names[k], x) for k in range(n)])
                D = 'Obstacle::compute_distance_to_point'
                pt = ['Matrix<double, 3, 1>', 'Array<double, 3, 1>']
                what = '%d members%s' % (n, ', turned' if turned else '')
                d = [s.val(h, D, p, m, pt=pt) for h in (inner, outer)]
                ctx.eq('of its inner hull inside, of its outer hull elsewhere (%s)' % what, s.val(a, D, p, m, pt=pt), T.ite(is_in(p), *d))
                d = [s.val(h, 'Obstacle::compute_distance_to_agent', ag) for h in (inner, outer)]
                ctx.eq('for an agent alike (%s)' % what, s.val(a, 'Obstacle::compute_distance_to_agent', ag), T.ite(is_in(me), *d))
                q = s.val(a, 'Obstacle::get_orientation')
                nn = [T.qrot(s.val(h, 'Obstacle::get_orientation'), s.val(h, 'Obstacle::compute_normal_to_agent', ag)) for h in (inner, outer)]
                ctx.eq('normal of the same hull (%s)' % what, T.qrot(q, s.val(a, 'Obstacle::compute_normal_to_agent', ag)), T.vite(is_in(me), *nn))
    # ------------------------------------------------ paths
    for n in range(top):
        with ctx.sc('path past %d obstacles' % n, PATH):
            for perm in ([tuple(range(n))] if n > 3 else itertools.permutations(range(n))):
                s = scene(ctx)
                inside_preds(s)
                os = [mabstract(s, ID, k, rot=False) for k in names[:n]]
                ag = magent(s, ID)
                t = T.vatom('target')
                me = s.val(ag, 'Agent::get_position')
                got = s.val(ag, PATH, t, Seq([s.sp(os[k]) for k in perm]))
                want = every([T.b_or(same(ins(k, t), ins(k, me)), T.b_not(closed(k))) for k in names[:n]])
                same_bool(ctx, 'every closed one has both on the same side, order %s' % (perm,), got, want)
    with ctx.sc('path past real obstacles', PATH):
        s = scene(ctx)
        tag = {}
        es = [mellipsoid(s, ID, k, curv=False, rot=False) for k in 'ab']
        ag = magent(s, ID)
        t, me = T.vatom('target'), s.val(ag, 'Agent::get_position')
        both = [s.val(ag, PATH, t, Seq([s.sp(e)])) for e in es]
        for e, one in zip(es, both):
            same_bool(ctx, 'one ellipsoid: both on the same side', one, same(s.val(e, 'Obstacle::point_is_inside', t), s.val(e, 'Obstacle::point_is_inside', me)))
        same_bool(ctx, 'past two: past each', s.val(ag, PATH, t, Seq([s.sp(e) for e in es])), every(both))
        h = mhull(s, ID, 'h', 3, rot=False)
        side = same(s.val(h, 'Obstacle::point_is_inside', t), s.val(h, 'Obstacle::point_is_inside', me))
        same_bool(ctx, 'a hull: open or both on the same side', s.val(ag, PATH, t, Seq([s.sp(h)])), T.b_or(side, T.b_not(s.val(h, 'StarShapeHull::is_closed'))))
    with ctx.sc('path from where the target is', PATH):
        s = scene(ctx)
        inside_preds(s)
        os = [mabstract(s, ID, k, rot=False) for k in 'abc']
        ag = magent(s, ID)
        same_bool(ctx, 'always exists', s.val(ag, PATH, s.val(ag, 'Agent::get_position'), Seq([s.sp(o) for o in os])), TRUE)
    # ------------------------------------------------ the modulation asks about all of them
    with ctx.sc('local mode', MV):
        for n in (0, 1, 2, 3):
            s = Sc(ctx, hooks=INTER)
            os, ag, e = abs_scene(s, n)
            env = s.call(ag, 'Agent::get_envelope')
            es = ells(s, names[:n])
            same_bool(ctx, 'the envelope over %d obstacles' % n, ask(s, env, es), some([inter(s.val(env, 'Obstacle::get_name').lit(), 'o' + k) for k in names[:n]]))
