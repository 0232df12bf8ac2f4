"""C18 The kind of an obstacle always tells its real type."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Typestate: the kind reported after every constructor (every number of defaulted arguments), copy, assignment and mutator of every kind is compared '
               'with the class; every conversion from the base to a kind found in the syntax tree is an obligation: it is executed abstractly on objects of all '
               'kinds (combinations of operands, containers and histories) and must never meet an object of another class.')
ASSUMPTIONS = ['objects are built and changed through the public interface; assignment between different kinds through base references is excluded']
KINDS = ('Ellipsoid', 'StarShapeHull', 'Aggregate')


def kinds(ctx):
    """concrete kinds of obstacle, also ones added later"""
    out = [r.split('::')[-1] for r, d in ctx.p.records.items() if r.startswith(NS) and (NS + 'Obstacle') in bases(ctx, r)]
    return sorted(out)


def bases(ctx, r):
    d = ctx.p.records.get(r)
    return [] if d is None else [y for b in d['bases'] for y in [b] + bases(ctx, b)]


def kind_name(s, lv):
    v = s.val(lv, 'Obstacle::get_type')
    return v.lit() if isinstance(v, Str) else None


def downcasts(ctx):
    """every conversion from a base to one of its kinds in the code of the project"""
    out = []

    def walk(x, f):
        if isinstance(x, dict):
            if x.get('k') == 'cast' and x.get('ck') in ('BaseToDerived', 'BitCast') and NS in x.get('t', ''):
                out.append((f['q'], x['l'], x['t'].replace('const ', '').replace(NS, ''), f['usr'] if 'usr' in f else None))
            for v in x.values():
                walk(v, f)
        elif isinstance(x, list):
            for v in x:
                walk(v, f)
    for u, f in ctx.p.funcs.items():
        if f['q'].startswith(NS):
            walk(f.get('body'), dict(f, usr=u))
            walk(f.get('inits'), dict(f, usr=u))
    return out


def zoo(s):
    """one object of each kind, and one of none"""
    e = [mellipsoid(s, ID, 'z%d' % k, rot=False, moving=False, curv=False, obsname='z%d' % k) for k in range(4)]
    h = s.new('StarShapeHull', heap=True)
    s.call(h, 'Obstacle::set_name', Str('hull'))
    ag = s.new('Aggregate', Seq([s.sp(e[0]), s.sp(e[1])]), heap=True)
    ag2 = s.new('Aggregate', Seq([s.sp(ag), s.sp(e[2])]), heap=True)
    o = s.new('Obstacle', Str('plain'), heap=True)
    return {'Ellipsoid': e[3], 'StarShapeHull': h, 'Aggregate': ag, 'Aggregate of an aggregate': ag2, 'Obstacle': o}


def run(ctx):
    hooks = dict(NOHULL)
    hooks[NS + 'Ellipsoid::is_intersecting_ellipsoid'] = lambda i, this, vals, fn: T.bpred('inter', T.base('atom', ('pair', str(this), str(vals[0]))))
    ks = kinds(ctx)
    ctx.extra['kinds'] = ks
    visited = set()
    for k in ks:
        with ctx.sc('built', '%s::%s' % (k, k)):
            for m, d in ctors(ctx, k):
                s = Sc(ctx, hooks=hooks)
                o, _, _ = construct(s, k, m, d)
                ctx.check('%s, %d given' % (sig(m, d), len(m['pt']) - d), kind_name(s, o) == k, 'a %s says it is a %r' % (k, kind_name(s, o)), loc=m['l'])
        with ctx.sc('copied', '%s::%s' % (k, k)):
            s = Sc(ctx, hooks=hooks)
            m, d = ctors(ctx, k)[-1]
            o, _, _ = construct(s, k, m, d)
            c = copy_of(s, o, k)
            if c is not None:
                ctx.check('a copied %s' % k, kind_name(s, c) == k, 'a %s says it is a %r' % (k, kind_name(s, c)))
            o2, _, _ = construct(s, k, *ctors(ctx, k)[0])
            s.assign(o2, o)
            ctx.check('an assigned %s' % k, kind_name(s, o2) == k, 'a %s says it is a %r' % (k, kind_name(s, o2)))
        for mu in mutators(ctx, k):
            with ctx.sc('changed', mu['q']):
                s = Sc(ctx, hooks=hooks)
                o, _, _ = construct(s, k, *ctors(ctx, k)[-1])
                apply(s, o, mu)
                ctx.check('a %s after %s' % (k, sig(mu)), kind_name(s, o) == k, 'a %s says it is a %r' % (k, kind_name(s, o)))
        with ctx.sc('named after something else', 'Obstacle::set_name', '%s::%s' % (k, k)):
            for n in ks + ['Obstacle', 'aggregate_a', 'aggregate', 'ellipsoid', 'envelope', 'StarShapeHull_inside', '', 'x' * 200]:
                s = Sc(ctx, hooks=hooks)
                o, _, _ = construct(s, k, *ctors(ctx, k)[0])
                s.call(o, 'Obstacle::set_name', Str(n))
                ctx.check('a %s renamed %r' % (k, n[:30]), kind_name(s, o) == k, 'a %s says it is a %r' % (k, kind_name(s, o)))
                c = copy_of(s, o, k)
                if c is not None:
                    ctx.check('a copy of a %s renamed %r' % (k, n[:30]), kind_name(s, c) == k, 'a %s says it is a %r' % (k, kind_name(s, c)))
                for m, d in ctors(ctx, k):
                    if not any('basic_string' in t for t in m['pt'][:len(m['pt']) - d]):
                        continue
                    s = Sc(ctx, hooks=hooks)
                    o, _, _ = construct(s, k, m, d, string=n)
                    ctx.check('%s, %d given, named %r' % (sig(m, d), len(m['pt']) - d, n[:30]), kind_name(s, o) == k, 'a %s says it is a %r' % (k, kind_name(s, o)), loc=m['l'])
        with ctx.sc('changeable only by its class', 'Obstacle::set_type'):
            r = ctx.p.records[NS + k]
            bad = [m for c in [NS + k] + bases(ctx, NS + k) for m in ctx.p.records[c]['methods'] if m['n'] == 'set_type' and m.get('acc') == 'public']
            ctx.check('%s has no public way to set its kind' % k, not bad, 'set_type is public', loc=bad[0]['l'] if bad else None)
    ev = []

    def look(s, what):
        for u in s.i.visited:
            visited.add(u)
        for kd, pc, data, loc, stack in s.i.events:
            if kd == 'badcast' and pc is not FALSE and feasible(pc):
                ev.append((loc, data, what))

    with ctx.sc('every pair of kinds', 'Obstacle::is_intersecting'):
        names = list(zoo(Sc(ctx, hooks=hooks)))
        for a, b in itertools.product(names, names):
            s = Sc(ctx, hooks=hooks)
            z = zoo(s)
            s.call(z[a], 'Obstacle::is_intersecting', z[b], pt=['Obstacle &'])
            look(s, '%s with %s' % (a, b))
        for a in names:
            s = Sc(ctx, hooks=hooks)
            z = zoo(s)
            s.call(z[a], 'Obstacle::is_intersecting', Seq([s.sp(x) for x in z.values()]), pt=['deque'])
            look(s, '%s with a list of all' % a)
    with ctx.sc('aggregation of all kinds', 'Aggregation::aggregate_obstacles', 'Environment::update'):
        for perm in itertools.islice(itertools.permutations(range(5)), 0, None, 1 if ctx.thorough else 7):
            for rel in range(3):
                h2 = dict(hooks)
                h2[NS + 'Ellipsoid::is_intersecting_ellipsoid'] = lambda i, this, vals, fn: (TRUE, FALSE, TRUE if _name(i, this) < _name(i, vals[0]) else FALSE)[rel]
                s = Sc(ctx, hooks=h2)
                z = list(zoo(s).values())
                s.call(None, 'Aggregation::aggregate_obstacles', Seq([s.sp(z[k]) for k in perm]))
                look(s, 'aggregation')
        for agg in (TRUE, FALSE):
            s = Sc(ctx, hooks=dict(hooks, **{NS + 'Ellipsoid::is_intersecting_ellipsoid': lambda i, this, vals, fn: TRUE}))
            z = zoo(s)
            e = s.env(list(z.values()), agg)
            for n in ('hull', 'plain', 'z3'):
                s.val(e, 'Environment::operator[]', Str(n))
            s.call(e, 'Environment::update')
            look(s, 'environment')
    with ctx.sc('relations of four ellipsoids', 'Aggregation::aggregate_obstacles'):
        pairs = list(itertools.combinations('abcd', 2))
        for bits in itertools.product((0, 1), repeat=6):
            s = Sc(ctx, hooks=relation_hooks({frozenset(p): True for p, b in zip(pairs, bits) if b}))
            s.call(None, 'Aggregation::aggregate_obstacles', Seq([s.sp(mellipsoid(s, ID, n, rot=False, moving=False, curv=False, obsname=n)) for n in 'abcd']))
            look(s, 'aggregation')
            del ctx.interps[:-1]
    with ctx.sc('agents', 'Agent::Agent', 'Agent::get_envelope'):
        s = Sc(ctx, hooks=hooks)
        a = magent(s, ID, 'a')
        for m in mutators(ctx, 'Agent'):
            apply(s, a, m)
        b = copy_of(s, a, 'Agent')
        s.assign(b, a)
        for x in (a, b):
            e = s.call(x, 'Agent::get_envelope')
            ctx.check('envelope tells its kind', kind_name(s, e) == kind_of(s, e), 'a %s says it is a %r' % (kind_of(s, e), kind_name(s, e)))
        look(s, 'agent')
    with ctx.sc('avoidance and drawings', 'Modulation::modulate_velocity'):
        s = Sc(ctx, hooks=INTER)
        os, a, e = abs_scene(s, 2)
        mv(s, a, e)
        look(s, 'avoidance')
    with ctx.sc('conversions'):
        sites = downcasts(ctx)
        ctx.extra['conversions to a kind'] = ['%s at %s' % (q, l) for q, l, t, u in sites]
        for n, (q, l, t, u) in enumerate(sites):
            f = [x for x in ev if x[0] == l]
            name = 'in %s to %s (%d)' % (q.replace(NS, ''), t.strip(), sum(1 for y in sites[:n] if (y[0], y[2]) == (q, t)))
            if f:
                ctx.fail(name, '%s: %s' % (f[0][2], f[0][1]), loc=l)
            elif u not in visited:
                ctx.und(name, 'no scene reaches it')
            else:
                ctx.ok(name)


def _name(i, lv):
    return i.read(lv).f['name'].lit()
