"""C19 Every obstacle kind really answers the queries asked through a base handle."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Class hierarchy and call graph analysis: every query is dispatched abstractly through a base handle on an object of every kind and the functions '
               'reached are inspected (the implementation of the kind must be among them, a placeholder of the base or of another kind must not); the '
               'intersection of every pair of ellipsoids and (nested) aggregates is compared with the disjunction over the pairs of members, in both orders; '
               'the library itself is run abstractly on obstacles of unknown kind and must reach only the virtual queries.')
ASSUMPTIONS = ['hulls and plain obstacles take no part in intersection tests and, outside of aggregates, in line intersections (documented as not implemented)']

QUERIES = {
    'compute_normal_to_agent': ('Ellipsoid', 'StarShapeHull', 'Aggregate'),
    'compute_distance_to_point': ('Ellipsoid', 'StarShapeHull', 'Aggregate'),
    'point_is_inside': ('Ellipsoid', 'StarShapeHull', 'Aggregate'),
    'draw': ('Ellipsoid', 'StarShapeHull', 'Aggregate'),
    'print': ('Ellipsoid', 'Aggregate'),
    'is_closed': ('StarShapeHull', 'Aggregate'),
    'compute_interesection_points': ('Ellipsoid',),
    'compute_repulsion_vector': ('Ellipsoid', 'Aggregate'),
    'sample_from_parameterization': ('Ellipsoid',),
}


def obj(s, k):
    if k == 'Ellipsoid':
        return mellipsoid(s, ID, 'e', curv=False, rot=False)
    hs = [mhull(s, ID, 'h%d' % i, 2, inside=i == 0, rot=False) for i in range(2)]
    if k == 'StarShapeHull':
        return hs[1]
    # its hulls answer with symbols
    s.i.absm.update(abs_handlers())
    s.i.absm.update({'draw': lambda i, this, vals, fn: None, 'point_is_inside': lambda i, this, vals, fn: inside_of(i, abs_name(i, this), vals[0])})
    tag = lambda i, this: 'in' if i.read(this).f.get('is_inside') is TRUE else 'out'
    for n, h in {'point_is_inside': lambda i, this, vals, fn: inside_of(i, tag(i, this), vals[0]),
                 'compute_normal_to_agent': lambda i, this, vals, fn: T.vunit(T.vatom('n' + tag(i, this))),
                 'compute_distance_to_point': lambda i, this, vals, fn: T.atom('d' + tag(i, this), pos=True),
                 'is_closed': lambda i, this, vals, fn: T.bpred('closed', T.base('atom', tag(i, this))),
                 'draw': lambda i, this, vals, fn: None}.items():
        s.i.hooks[NS + 'StarShapeHull::' + n] = h
    return maggregate(s, ID, [mabstract(s, ID, x, rot=False) for x in 'ab'], hs)


def inside_of(i, who, p):
    v = i.read(p) if isinstance(p, (LV, LVG)) else p
    return T.bpred('inside', T.base('atom', who), T.base('atom', ('pt', v.id)))


def ask(s, o, q):
    """the query through the base; its result"""
    a = {'compute_normal_to_agent': lambda: [magent(s, ID, 'x', rot=False)],
         'compute_distance_to_point': lambda: [T.vatom('pt'), s.nnvec('mg')],
         'point_is_inside': lambda: [T.vatom('pt')],
         'draw': lambda: [Str('k'), Str('xy')],
         'print': lambda: [s.i.alloc(s.i.unknown('os')) if hasattr(s.i, 'unknown') else Str('')],
         'is_closed': lambda: [],
         'compute_interesection_points': lambda: [T.vatom('x1'), T.vatom('x2')],
         'compute_repulsion_vector': lambda: [magent(s, ID, 'x', rot=False)],
         'sample_from_parameterization': lambda: [T.const(2), TRUE]}[q]()
    if q == 'compute_distance_to_point':
        return s.val(o, 'Obstacle::' + q, *a, pt=['Matrix<double, 3, 1>', 'Array'])
    return s.val(o, 'Obstacle::' + q, *a)


def reached(s, ctx):
    return {(ctx.p.funcs[u].get('cls', '').replace(NS, ''), ctx.p.funcs[u]['q'].split('::')[-1]) for u in s.i.visited if u in ctx.p.funcs}


def placeholders(ctx):
    """virtual queries of the base: names whose own body is never the answer of a kind that must answer"""
    r = ctx.p.records[NS + 'Obstacle']
    return {m['usr'] for m in r['methods'] if m.get('virt') and not m.get('dtor') and m['n'] not in ('set_reference_position', 'print', 'is_closed')}


def left(s, ctx, ph):
    return sorted(ctx.p.funcs[u]['q'].split('::')[-1] for u in s.i.visited if u in ph)


def run(ctx):
    ph = placeholders(ctx)
    for q, ks in QUERIES.items():
        for k in ks:
            with ctx.sc('%s of %s' % (q, k), '%s::%s' % (k, q)):
                s = Sc(ctx, hooks=dict(NOHULL), sample=True)
                o = obj(s, k)
                s.i.visited = set()
                if q == 'print':
                    m = ctx.p.resolve(NS + k, ctx.p.find('Obstacle::print')[0]['usr'])
                    ctx.check('is the one of its kind', m is not None and m['cls'] != NS + 'Obstacle', 'the one of the base is used')
                    continue
                f = ctx.p.find('Obstacle::' + q, None, ['Matrix<double, 3, 1>', 'Array'] if q == 'compute_distance_to_point' else None)[0]
                ask(s, o, q)
                r = reached(s, ctx)
                ctx.check('through a base handle is answered by the kind', f['usr'] not in s.i.visited, 'the placeholder of the base answers', loc=f['l'])
                other = [c for c, n in r if n == q and c in ('Ellipsoid', 'StarShapeHull', 'Aggregate') and c != k]
                if k != 'Aggregate':
                    ctx.check('and by no other', not other, 'answered by %s' % other)
                bad = left(s, ctx, ph)
                ctx.check('and by nothing left unimplemented', not bad, 'reaches the placeholder of %s' % bad)
                # the same question asked with the kind known
                d = ctx.p.find('%s::%s' % (k, q), None, ['Matrix<double, 3, 1>', 'Array'] if q == 'compute_distance_to_point' else None)
                if d:
                    ctx.check('the same as with the kind known', d[0]['usr'] in s.i.visited, 'a function of the same name answers there', loc=d[0]['l'])
    for k in ('Ellipsoid', 'StarShapeHull', 'Aggregate'):
        with ctx.sc('derived queries of %s' % k, 'Obstacle::compute_distance_to_agent', 'Obstacle::get_repulsion_factor'):
            s = Sc(ctx, hooks=dict(NOHULL))
            o = obj(s, k)
            a = magent(s, ID, 'x', rot=False)
            s.i.visited = set()
            s.val(o, 'Obstacle::compute_distance_to_agent', a)
            s.val(o, 'Obstacle::get_repulsion_factor', a)
            s.val(o, 'Obstacle::compute_distance_to_point', T.vatom('pt'), T.atom('m', nonneg=True), pt=['Matrix<double, 3, 1>', 'double'])
            if k != 'StarShapeHull':
                s.val(o, 'Obstacle::generate_repulsion', a, T.const(F(11, 10)))
            bad = left(s, ctx, ph)
            ctx.check('reach the kind', not bad and (k, 'compute_distance_to_point') in reached(s, ctx), 'reach %s' % bad)
    with ctx.sc('reference point of an aggregate', 'Aggregate::set_reference_position'):
        s = Sc(ctx, hooks=dict(NOHULL))
        ms = [mellipsoid(s, ID, x) for x in 'ab']
        a = s.new('Aggregate', Seq([s.sp(m) for m in ms]))
        s.call(a, 'Obstacle::set_reference_position', T.vatom('nr'))
        for k, m in enumerate(ms):
            ctx.eq('set through a base handle reaches member %d' % k, s.val(m, 'Obstacle::get_reference_position'), T.vatom('nr'))
    # intersections
    def zoo(s):
        e = {n: mellipsoid(s, ID, n, rot=False, moving=False, curv=False, obsname='o' + n) for n in 'abcdxy'}
        a1 = s.new('Aggregate', Seq([s.sp(e['a']), s.sp(e['b'])]), heap=True)
        a2 = s.new('Aggregate', Seq([s.sp(e['c']), s.sp(e['d'])]), heap=True)
        a3 = s.new('Aggregate', Seq([s.sp(a2), s.sp(e['y'])]), heap=True)
        return {'ellipsoid': (e['x'], ['x']), 'another ellipsoid': (e['y'], ['y']), 'aggregate': (a1, ['a', 'b']), 'another aggregate': (a2, ['c', 'd']),
                'aggregate of an aggregate': (a3, ['c', 'd', 'y'])}
    names = list(zoo(Sc(ctx, hooks=dict(NOHULL, **INTER))))
    for n1, n2 in itertools.permutations(names, 2):
        with ctx.sc('%s with %s' % (n1, n2), 'Obstacle::is_intersecting', 'Obstacle::is_intersecting_aggregate', 'Aggregate::is_intersecting_ellipsoid'):
            s = Sc(ctx, hooks=dict(NOHULL, **INTER))
            z = zoo(s)
            (x, lx), (y, ly) = z[n1], z[n2]
            if set(lx) & set(ly):
                continue
            s.i.visited = set()
            got = s.val(x, 'Obstacle::is_intersecting', y, pt=['Obstacle &'])
            want = FALSE
            for p in lx:
                for q in ly:
                    want = T.b_or(want, inter('o' + p, 'o' + q))
            same_bool(ctx, 'is that of the members', got, want)
            lst = s.val(x, 'Obstacle::is_intersecting', Seq([s.sp(y)]), pt=['deque'])
            same_bool(ctx, 'also in a list', lst, want)
            bad = left(s, ctx, ph)
            ctx.check('no placeholder answers', not bad, 'reaches %s' % bad)
    with ctx.sc('envelope of an agent with each', 'Obstacle::is_intersecting'):
        s = Sc(ctx, hooks=dict(NOHULL, **INTER))
        z = zoo(s)
        a = magent(s, ID, 'x')
        e = s.call(a, 'Agent::get_envelope')
        en = s.val(e, 'Obstacle::get_name').lit()
        for n, (o, l) in z.items():
            want = FALSE
            for p in l:
                want = T.b_or(want, inter(en, 'o' + p))
            same_bool(ctx, 'of %s' % n, s.val(e, 'Obstacle::is_intersecting', o, pt=['Obstacle &']), want)
    # the library asks virtual queries only
    for what, go in users(ctx):
        with ctx.sc('%s on obstacles of unknown kind' % what):
            s = Sc(ctx, hooks=INTER)
            os, a, e = abs_scene(s, 2)
            s.i.absm.update({'draw': lambda i, this, vals, fn: None, 'point_is_inside': lambda i, this, vals, fn: inside_of(i, abs_name(i, this), vals[0])})
            s.i.visited = set()
            go(s, os, a, e)
            bad = left(s, ctx, ph | {m['usr'] for m in ctx.p.records[NS + 'Obstacle']['methods'] if m['n'] == 'is_closed'})
            ctx.check('asks the kind', not bad, 'reaches the placeholder of %s' % bad)


def users(ctx):
    PT = 'PlottingTools::'
    hist = Seq([T.vatom('h%d' % k) for k in range(2)])
    yield 'avoidance', lambda s, os, a, e: mv(s, a, e, FALSE, TRUE)
    yield 'planar avoidance', lambda s, os, a, e: mv(s, a, e, FALSE, TRUE, TRUE)
    yield 'path query', lambda s, os, a, e: s.val(a, 'Agent::exist_path', T.vatom('t'), Seq([s.sp(o) for o in os]))
    yield 'drawing', lambda s, os, a, e: s.call(None, PT + 'plot_obstacles', Seq([s.sp(o) for o in os]), Str('xy'))
    yield 'configuration drawing', lambda s, os, a, e: s.call(None, PT + 'plot_configuration', a, Seq([s.sp(o) for o in os]), T.vatom('x'), hist, Str(''), FALSE, TRUE, n=7)
    yield 'aggregate drawing', lambda s, os, a, e: agg(s, os).__class__ and s.call(agg(s, os), 'Obstacle::draw', Str('k'), Str('xy'))
    yield 'aggregate inside test', lambda s, os, a, e: s.val(agg(s, os), 'Obstacle::point_is_inside', T.vatom('t'))
    yield 'hull computation', lambda s, os, a, e: s.new('StarShapeHull', Seq([s.sp(o) for o in os]), FALSE, T.const(2), T.const(1))


def agg(s, os):
    s.i.hooks.update(NOHULL)
    return maggregate(s, ID, os, [mhull(s, ID, 'h%d' % i, 2, inside=i == 0, rot=False) for i in range(2)])


def same_bool(ctx, name, got, want):
    if got is want:
        return ctx.ok(name)
    return ctx.true(name, T.b_ite(got, want, T.b_not(want)))
