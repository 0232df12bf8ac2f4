"""C20 Everything reported is initialised."""
from engine.ctx import *
from checks import c13
from checks.scenes import *

EXPLANATION = ('Definite initialisation by abstract interpretation: uninitialised memory is a marked symbol. After every constructor (every number of defaulted '
               'arguments) and every copy, every attribute reported by the object must be free of marks, likewise every value computed by the queries in the scenes of '
               'the purity check, on every branch; a dependence is confirmed before it is reported.')
ASSUMPTIONS = ['loops over samples are analysed with few samples', 'a hull is asked only after it has been computed']
CLASSES = ('Pose', 'State', 'Agent', 'Obstacle', 'Ellipsoid', 'StarShapeHull', 'Aggregate', 'Environment')


def getters(ctx, cls):
    out, todo, seen = [], [NS + cls], set()
    while todo:
        c = todo.pop(0)
        r = ctx.p.records.get(c)
        if r is None:
            continue
        for m in r['methods']:
            if m.get('acc') == 'public' and m.get('const') and m['n'] not in seen and not m['n'].startswith('operator') and \
                    (m['n'].startswith(('get_', 'is_')) and not m['pt']):
                seen.add(m['n'])
                out.append(m)
        todo += r['bases']
    return out


def fields_of(x, path=''):
    if isinstance(x, Rec):
        for k, v in sorted(x.f.items()):
            if not k.startswith('#'):
                yield from fields_of(v, path + '.' + k)
    else:
        yield path[1:], x


def report(ctx, s, o, cls, what, loc):
    """every attribute the object reports"""
    bad = False
    for g in getters(ctx, cls):
        if g['n'] in ('is_closed',):
            continue
        try:
            r, _ = apply(s, o, g)
        except Undecided as e:
            ctx.und('%s: %s' % (what, g['n']), str(e))
            continue
        if isinstance(r, (LV, LVG)):
            r = s.read(r)
        if isinstance(r, (Str, Ptr, Seq, Map)) or r is None:
            continue
        bad = not ctx.defined('%s: %s' % (what, g['n']), r, loc=loc) or bad
    if not bad:
        # what is held: no marks, so that nothing later can see one
        for n, v in fields_of(s.read(o)):
            try:
                if undefs(flat(v)):
                    ctx.und('%s: held in %s' % (what, n), 'uninitialised, not reported as an attribute')
            except Undecided:
                pass


def run(ctx):
    hooks = dict(NOHULL)
    for cls in CLASSES:
        with ctx.sc('constructors of %s' % cls, '%s::%s' % (cls, cls)):
            for m, d in ctors(ctx, cls):
                s = Sc(ctx, hooks=hooks)
                try:
                    o, _, _ = construct(s, cls, m, d)
                except Undecided as e:
                    ctx.und(sig(m, d), str(e))
                    continue
                report(ctx, s, o, cls, sig(m, d), m['l'])
        with ctx.sc('copies of %s' % cls, '%s::%s' % (cls, cls)):
            s = Sc(ctx, hooks=hooks)
            m, d = ctors(ctx, cls)[-1]
            o, _, _ = construct(s, cls, m, d)
            c = copy_of(s, o, cls)
            if c is not None:
                report(ctx, s, c, cls, 'copied', m['l'])
            m, d = ctors(ctx, cls)[0]
            o2, _, _ = construct(s, cls, m, d)
            s.assign(o2, o)
            report(ctx, s, o2, cls, 'assigned', m['l'])
    # queries right after every constructor
    E = 'Ellipsoid::'
    for m, d in ctors(ctx, 'Ellipsoid'):
        with ctx.sc('queries after %s, %d given' % (sig(m, d), len(m['pt']) - d), E + 'Ellipsoid'):
            s = Sc(ctx, hooks=hooks)
            o, _, _ = construct(s, 'Ellipsoid', m, d)
            a = s.new('Agent', s.i.new('State', [T.vatom('pA')]), T.atom('mA', nonneg=True))
            ctx.defined('distance', s.val(o, 'Obstacle::compute_distance_to_agent', a))
            ctx.defined('normal', s.val(o, 'Obstacle::compute_normal_to_agent', a))
            ctx.defined('inside', s.val(o, 'Obstacle::point_is_inside', T.vatom('x')))
            ctx.defined('samples', s.val(o, E + 'sample_from_parameterization', T.const(2), TRUE))
            ctx.defined('line', s.val(o, 'Obstacle::compute_interesection_points', T.vatom('x'), T.vatom('y')))
            ctx.defined('area', s.val(o, E + 'area', TRUE))
            ctx.defined('closed', s.val(o, 'Obstacle::is_closed'))
    for m, d in ctors(ctx, 'Agent'):
        with ctx.sc('queries after %s, %d given' % (sig(m, d), len(m['pt']) - d), 'Agent::Agent'):
            s = Sc(ctx, hooks=dict(hooks, **{NS + 'Ellipsoid::sample_from_parameterization': c13.few_samples}))
            a, _, _ = construct(s, 'Agent', m, d)
            e = s.call(a, 'Agent::get_envelope')
            o = mellipsoid(s, ID, 'e', curv=False, rot=False)
            for k, v in s.attrs(e).items():
                if isinstance(v, (P, V, M, Q)):
                    ctx.defined('envelope: ' + k, v)
            ctx.defined('distance', s.val(o, 'Obstacle::compute_distance_to_agent', a))
            for mm in mutators(ctx, 'Agent'):
                apply(s, a, mm)
            e = s.call(a, 'Agent::get_envelope')
            for k, v in s.attrs(e).items():
                if isinstance(v, (P, V, M, Q)):
                    ctx.defined('changed envelope: ' + k, v)
    with ctx.sc('hulls', 'StarShapeHull::StarShapeHull', 'StarShapeHull::compute_from_primitives'):
        for inside in (TRUE, FALSE):
            s = Sc(ctx, hooks=polar_hooks())
            ms = [mray(s, 'a', [(F(2), F(-1)), None])]
            h = s.new('StarShapeHull', inside, T.const(4))
            r = s.read(h)
            for n, v in fields_of(r):
                if isinstance(v, (P, V, C3, Arr)):
                    ctx.defined('new: ' + n, v)
            s.call(h, 'StarShapeHull::compute_from_primitives', Seq([s.sp(x) for x in ms]), T.vatom('c'), n=2)
            for n, v in fields_of(s.read(h)):
                if isinstance(v, (P, V, C3, Arr)):
                    ctx.defined('computed: ' + n, v)
            s.call(h, 'StarShapeHull::set_resolution', T.const(3))
            s.call(h, 'StarShapeHull::compute_from_primitives', Seq([s.sp(x) for x in ms]), T.vatom('c'), n=2)
            for n, v in fields_of(s.read(h)):
                if isinstance(v, (P, V, C3, Arr)):
                    ctx.defined('recomputed with another resolution: ' + n, v)
            ctx.defined('closed', s.val(h, 'StarShapeHull::is_closed'))
    for name, fn, f in c13.queries():
        if name == 'obstacle lookup':
            continue
        with ctx.sc(name, fn):
            s, o = c13.build(ctx)
            ctx.defined('answer', f(s, o, 0))
    for name, fn, f in c13.heavy():
        with ctx.sc(name, fn):
            s, o = c13.build(ctx)
            s.i.hooks[NS + 'Ellipsoid::sample_from_parameterization'] = c13.few_samples
            ctx.defined('answer', f(s, o, 0))
    with ctx.sc('modulation with every option', MV):
        for local in (TRUE, FALSE):
            for rep in (TRUE, FALSE):
                for planar in (TRUE, FALSE):
                    for n in (0, 1, 2):
                        s = Sc(ctx, hooks=INTER)
                        os, a, e = abs_scene(s, n)
                        ctx.defined('local %s, repulsion %s, planar %s, %d obstacles' % (local is TRUE, rep is TRUE, planar is TRUE, n), mv(s, a, e, local, rep, planar))
    with ctx.sc('drawings', 'Obstacle::draw'):
        for name, fn, f in c13.drawings():
            s, o = c13.build(ctx)
            s.i.sample = True
            f(s, o, 0)
            vals = [x for k, pc, data, loc, st in s.i.events if k == 'plt' for x in flatp(data[1])]
            ctx.defined(name, vals)
    with ctx.sc('helpers', 'MathTools::linspace'):
        s = Sc(ctx)
        for n in (2, 3, 4):
            ctx.defined('linspace %d' % n, s.val(None, 'MathTools::linspace', T.atom('a'), T.atom('b'), T.const(n)))
            ctx.defined('gridspace %d' % n, s.val(None, 'MathTools::gridspace', Tup([T.atom('a'), T.atom('b')]), Tup([T.atom('c'), T.atom('d')]), Tup([T.const(n), T.const(n + 1)])))
        ctx.defined('polar', s.val(None, 'MathTools::cartesian_to_polar', T.vatom('x')))
        ctx.defined('Cartesian', s.val(None, 'MathTools::polar_to_cartesian', T.vatom('x')))
        ctx.defined('sign', s.val(None, 'MathTools::sign', T.atom('x'))) if ctx.p.find('MathTools::sign') else None


def flatp(x):
    out = []
    for y in (x if isinstance(x, (list, tuple)) else [x]):
        if isinstance(y, (list, tuple)):
            out += flatp(y)
        elif isinstance(y, (P, V, M, Q, BN)):
            out.append(y)
        elif isinstance(y, (Seq, Tup)):
            out += flatp(y.items)
    return out
