"""C27 Attributes are stored and reported faithfully, one at a time."""
from engine.ctx import *
from engine.interp import Dead
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of every constructor (with every number of defaulted arguments), every setter, every pair of setters and every copy on symbolic values: '
               'what the getters report afterwards is compared, attribute by attribute, with a model that maps the name of the parameter to the attribute. '
               'Whatever is not named keeps its documented default or its previous value; copies and their sources do not influence each other.')
ASSUMPTIONS = ['orientations are given as unit quaternions', 'real arithmetic']
CLASSES = ('Pose', 'State', 'Agent', 'Obstacle', 'Ellipsoid', 'StarShapeHull', 'Aggregate', 'Environment')
Z3 = lambda: T.vec3(ZERO, ZERO, ZERO)
POSE, VEL = ('position', 'orientation'), ('linear_velocity', 'angular_velocity')
# documented defaults: everything at the origin, at rest, without margin; unit half-axes, ellipsoidal curvature
DEFAULTS = {'safety_margin': ZERO, 'aggregated': TRUE}
NAMES = {'Obstacle': 'obstacle', 'Aggregate': 'aggregate', 'StarShapeHull': ''}
TYPES = {'Obstacle': '', 'Ellipsoid': 'Ellipsoid', 'Aggregate': 'Aggregate', 'StarShapeHull': 'StarShapeHull'}
ONE3 = lambda: T.vec3(ONE, ONE, ONE)


def qa(s, q):
    return s.qattr(q)


def arr(v):
    """three equal components, or an array"""
    return T.vec3(v, v, v) if isinstance(v, P) else v


def blank(s, cls):
    d = {'position': Z3(), 'orientation': qa(s, T.QID)}
    if cls != 'Pose':
        d.update(linear_velocity=Z3(), angular_velocity=Z3())
    if cls not in ('Pose', 'State'):
        d['safety_margin'] = ZERO if cls == 'Agent' else arr(ZERO)
    if cls in TYPES:
        d.update(name=Str(NAMES.get(cls, '')), type=Str(TYPES[cls]))
    if cls == 'Ellipsoid':
        d.update(axis_lengths=ONE3(), curvature_factor=ONE3())
    return d


def read_in(s, x, what):
    """attributes of a pose or a state that was handed over"""
    lv = s.i.alloc(x)
    return {k: v for k, v in s.attrs(lv).items() if k in POSE + VEL}


def put(s, cls, d, args):
    """the model: the attributes after an operation with these named arguments; None: a name that is not understood"""
    d = dict(d)
    left = dict(args)
    comp = {}
    for n, v in args.items():
        base = n[1:] if len(n) == 2 and n[0] in 'cpq' else n
        if n in ('x', 'y', 'z', 'cx', 'cy', 'cz', 'px', 'py', 'pz', 'qw', 'qx', 'qy', 'qz'):
            comp[('q' if n[0] == 'q' else 'p') + base] = v
        elif n == 'position':
            d['position'] = v
        elif n == 'orientation':
            d['orientation'] = qa(s, v)
        elif n in VEL or n == 'name':
            d[n] = v
        elif n in ('axis_lengths', 'curvature_factor'):
            d[n] = arr(v)
        elif n == 'safety_margin':
            d[n] = v if cls == 'Agent' else arr(v)
        elif n == 'pose':
            d.update(read_in(s, v, n))
        elif n == 'state':
            d.update(read_in(s, v, n))
        elif n == 'reference_position':
            d[n] = v
        else:
            return None
        del left[n]
    for n in list(left):
        left.pop(n)
    if comp:
        if {'px', 'py', 'pz'} <= set(comp):
            d['position'] = T.vec3(comp['px'], comp['py'], comp['pz'])
        if {'qw', 'qx', 'qy', 'qz'} <= set(comp):
            d['orientation'] = qa(s, T.qnormalized(T.q4(*[comp['q' + k] for k in 'wxyz'])))
        if not ({'px', 'py', 'pz'} <= set(comp)):
            return None
    return d


def reference(cls, d, args, ctor):
    """obstacles: the reference point starts at the position"""
    if cls in TYPES and ctor and 'reference_position' not in args:
        d['reference_position'] = d['position']
    return d


def compare(ctx, what, got, want, loc=None):
    for k, w in sorted(want.items()):
        if w is None:
            continue
        if k not in got:
            ctx.und('%s: %s' % (what, k), 'not reported')
            continue
        g = got[k]
        name = '%s: %s' % (what, k)
        if isinstance(g, (Str, list)) or isinstance(w, (Str, list)) or isinstance(g, G):
            ctx.check(name, same_value(g, w), 'reported: %s, given: %s' % (short(g), short(w)), loc=loc)
        else:
            ctx.eq(name, g, w)


def setters(ctx, cls):
    return [m for m in mutators(ctx, cls) if m['n'].startswith('set_') and m['n'] not in ('set_resolution', 'set_aggregated')]


def run(ctx):
    hooks = dict(NOHULL)
    for cls in CLASSES:
        if cls in ('Environment',):
            continue
        with ctx.sc('constructors of ' + cls, '%s::%s' % (cls, cls)):
            for m, d in ctors(ctx, cls):
                s = Sc(ctx, hooks=hooks)
                if 'primitives' in m['pn']:
                    continue
                o, args, _ = construct(s, cls, m, d)
                if any(n in ('is_inside', 'resolution', 'min_radius') for n in args):
                    args = {k: v for k, v in args.items() if k not in ('is_inside', 'resolution', 'min_radius')}
                if 'p' in args:
                    want = read_in(s, args['p'], 'p')
                else:
                    want = put(s, cls, blank(s, cls), args)
                if want is None:
                    ctx.und(sig(m, d), 'parameters not understood')
                    continue
                compare(ctx, '%s, %d given' % (sig(m, d), len(m['pt']) - d), s.attrs(o), reference(cls, want, args, True), m['l'])
                if {'qw', 'qx', 'qy', 'qz'} <= set(args):
                    quaternion(ctx, s, o, args, m)
        with ctx.sc('getters of ' + cls, '%s::%s' % (cls, cls)):
            agree(ctx, cls, hooks)
        with ctx.sc('setters of ' + cls, *['%s::%s' % (m['q'].split('::')[-2], m['n']) for m in setters(ctx, cls)[:4]] or ['%s::%s' % (cls, cls)]):
            single(ctx, cls, hooks)
        with ctx.sc('two setters of ' + cls, *['%s::%s' % (m['q'].split('::')[-2], m['n']) for m in setters(ctx, cls)[:4]] or ['%s::%s' % (cls, cls)]):
            pairs(ctx, cls, hooks)
        with ctx.sc('copies of ' + cls, '%s::%s' % (cls, cls)):
            copies(ctx, cls, hooks)
    with ctx.sc('members of aggregates', 'Aggregate::set_reference_position', 'Aggregate::add_primitive'):
        for m in setters(ctx, 'Aggregate'):
            for nested in (False, True):
                s = Sc(ctx, hooks=hooks)
                os = [mellipsoid(s, ID, str(k), obsname='m%d' % k, curv=False, rot=False) for k in range(2)]
                mid = [s.new('Aggregate', Seq([s.sp(o) for o in os]), heap=True)] if nested else os
                a = s.new('Aggregate', Seq([s.sp(o) for o in mid]))
                for k, o in enumerate(os):
                    s.call(o, 'Obstacle::set_reference_position', T.vatom('own%d' % k))
                at = [s.attrs(o) for o in os]
                _, args = apply(s, a, m, 'g')
                for k, o in enumerate(os):
                    want = {x: y for x, y in at[k].items() if x != 'members'}
                    if 'reference_position' in args:
                        want['reference_position'] = args['reference_position']
                    compare(ctx, '%s%s, member %d' % (sig(m), ' of an aggregate of an aggregate' if nested else '', k), s.attrs(o), want, m['l'])
    with ctx.sc('merging mode of environments', 'Environment::set_aggregated', 'Environment::is_aggregated', 'Environment::Environment'):
        x = T.bpred('given', T.base('vec', 'given'))
        for k, want in ((0, TRUE), (1, x)):
            s = Sc(ctx)
            e = s.new('Environment', *([x] if k else []))
            ctx.eq('constructor with %d arguments' % k, s.val(e, 'Environment::is_aggregated'), want)
            for v in (FALSE, TRUE, x):
                s.call(e, 'Environment::set_aggregated', v)
                ctx.eq('set afterwards (%d, %s)' % (k, short(v)), s.val(e, 'Environment::is_aggregated'), v)


def quaternion(ctx, s, o, args, m):
    """four numbers: the same orientation as the quaternion of these numbers in the order w, x, y, z"""
    for w, x, y, z in ((F(3, 5), F(4, 5), 0, 0), (F(3, 5), 0, F(4, 5), 0), (F(3, 5), 0, 0, F(4, 5)), (F(1, 2), F(1, 2), F(1, 2), F(1, 2)), (F(1, 5), F(2, 5), F(2, 5), F(4, 5))):
        s2 = Sc(ctx)
        c = [T.const(v) for v in (w, x, y, z)]
        o2 = s2.new(m['q'].split('::')[-1], *([T.atom('a'), T.atom('b'), T.atom('c')] + c))
        got = s2.val(o2, 'Pose::get_orientation')
        for nm, v in zip('wxyz', c):
            ctx.eq('%s: component %s for (%s, %s, %s, %s)' % (sig(m), nm, w, x, y, z), T.qcomp(got, nm), v)


def fresh(ctx, cls, s, tag):
    """an object with everything set"""
    m, d = next((m, d) for m, d in reversed(ctors(ctx, cls)) if 'primitives' not in m['pn'] and d == 0)
    o, _, _ = construct(s, cls, m, d)
    if cls == 'Aggregate':
        for k in range(2):
            s.call(o, 'Aggregate::add_primitive', s.sp(mellipsoid(s, ID, '%s%d' % (tag, k), obsname='%s%d' % (tag, k), curv=False, rot=False)), FALSE)
    for k, m in enumerate(setters(ctx, cls)):
        apply(s, o, m, '%s%d' % (tag, k))
    return o


def agree(ctx, cls, hooks):
    """nested getters report the same as direct ones; components those of the whole"""
    s = Sc(ctx, hooks=hooks)
    o = fresh(ctx, cls, s, 'f')
    at = s.attrs(o)
    own = {m['n'] for c in [cls] + [b.split('::')[-1] for b in ctx.p.records[NS + cls]['bases']] for m in ctx.p.records[NS + c]['methods']}
    base = cls if cls in ('State', 'Agent') else 'Obstacle'
    if cls != 'Pose' and 'get_pose' in own:
        p = s.call(o, base + '::get_pose', n=0)
        p = p if isinstance(p, (LV, LVG)) else s.i.alloc(p)
        compare(ctx, 'the pose', {k: v for k, v in s.attrs(p).items()}, {k: at[k] for k in POSE})
    if cls not in ('Pose', 'State') and 'get_state' in own:
        p = s.call(o, base + '::get_state', n=0)
        p = p if isinstance(p, (LV, LVG)) else s.i.alloc(p)
        compare(ctx, 'the state', {k: v for k, v in s.attrs(p).items()}, {k: at[k] for k in POSE + VEL})
    for m in ctx.p.records[NS + cls]['methods']:
        if m['n'].startswith('get_') and len(m['pt']) == 1 and 'int' in m['pt'][0]:
            whole = at.get(m['n'][4:])
            if whole is None:
                continue
            for k in range(3):
                r = s.val(o, '%s::%s' % (cls, m['n']), T.const(k), n=1)
                ctx.eq('%s: component %d' % (m['n'], k), r, whole.items[k] if isinstance(whole, Arr) else T.vcomp(whole, k))


def expected(s, cls, at, m, args):
    """attributes after a setter, given those before"""
    before = {k: v for k, v in at.items() if not k.startswith('envelope') and k != 'members'}
    want = put(s, cls, before, args)
    return want


def single(ctx, cls, hooks):
    for m in setters(ctx, cls):
        s = Sc(ctx, hooks=hooks)
        o = fresh(ctx, cls, s, 'f')
        at = s.attrs(o)
        _, args = apply(s, o, m, 'g')
        want = expected(s, cls, at, m, args)
        if want is None:
            ctx.und(sig(m), 'parameters not understood')
            continue
        if 'members' in at:
            want['members'] = at['members']
        compare(ctx, sig(m), s.attrs(o), want, m['l'])
        if cls == 'Agent':
            # the envelope changes its geometry only: what it is does not depend on what is set
            now = s.attrs(o)
            for k in ('envelope name', 'envelope type', 'envelope curvature_factor', 'envelope safety_margin'):
                if k in at:
                    compare(ctx, sig(m), {k: now.get(k)}, {k: at[k]})


def pairs(ctx, cls, hooks):
    ms = setters(ctx, cls)
    n = 0
    for a in ms:
        for b in ms:
            s = Sc(ctx, hooks=hooks)
            o = fresh(ctx, cls, s, 'f')
            want = s.attrs(o)
            for k, m in enumerate((a, b)):
                _, args = apply(s, o, m, 'g%d' % k)
                want = expected(s, cls, want, m, args)
                if want is None:
                    break
            if want is None:
                continue
            n += 1
            compare(ctx, '%s then %s' % (sig(a), sig(b)), s.attrs(o), want, b['l'])
    ctx.extra['pairs of setters'] = ctx.extra.get('pairs of setters', 0) + n


def copies(ctx, cls, hooks):
    if cls == 'Aggregate':
        return
    for how in ('copied', 'assigned'):
        s = Sc(ctx, hooks=hooks)
        o = fresh(ctx, cls, s, 'f')
        at = s.attrs(o)
        if how == 'copied':
            c = copy_of(s, o, cls)
            if c is None:
                continue
        else:
            r = ctx.p.records[NS + cls]
            own = [m for m in r['methods'] if m['n'] == 'operator=' and not m.get('del')]
            if not own and not r.get('implcopyassign'):
                continue
            c = fresh(ctx, cls, s, 'c')
            s.assign(c, o)
        compare(ctx, how, s.attrs(c), {k: v for k, v in at.items() if k != 'members'})
        compare(ctx, how + ', the source', s.attrs(o), {k: v for k, v in at.items() if k != 'members'})
        for m in setters(ctx, cls):
            apply(s, c, m, 'x' + m['n'])
        compare(ctx, how + ' and the copy changed: the source', s.attrs(o), {k: v for k, v in at.items() if k != 'members'})
        at2 = s.attrs(c)
        for m in setters(ctx, cls):
            apply(s, o, m, 'y' + m['n'])
        compare(ctx, how + ' and the source changed: the copy', s.attrs(c), at2)
