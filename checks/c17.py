"""C17 Aggregates stay consistent with their members."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of every way of assembling an aggregate of up to the stated number of members at symbolic poses (at once in any order, '
               'one at a time in any order, mixed, refreshed or not): names, position, reference points, hull inputs and answers are compared as terms '
               'with the mean of the member positions and between the ways of assembly.')
ASSUMPTIONS = ['number of members as stated', 'what a hull makes of its input is the subject of C25']
CT, ADD, UPH, UPC = 'Aggregate::Aggregate', 'Aggregate::add_primitive', 'Aggregate::update_hull', 'Aggregate::update_center_position'
NAMES = ('m', 'b', 'Z', 'a', 'ab')


def scene(ctx, n, **kw):
    s = Sc(ctx, hooks=relation_hooks({}))
    return s, [mellipsoid(s, ID, x, moving=False, curv=False, obsname=x, **kw) for x in NAMES[:n]]


def refreshed_bad(s, a):
    s.call(a, UPC)
    s.call(a, UPH)
    return aggregate_bad(s, a)


def run(ctx):
    top = 5 if ctx.thorough else 4
    for n in range(1, top + 1):
        with ctx.sc('%d members at once' % n, CT):
            bad = None
            for perm in itertools.permutations(range(n)):
                s, o = scene(ctx, n)
                a = s.new('Aggregate', Seq([s.sp(o[k]) for k in perm]))
                bad = aggregate_bad(s, a)
                if not bad and set(members(s, a)) != set(o):
                    bad = 'members differ'
                if bad:
                    bad = 'order %s: %s' % (perm, bad)
                    break
            ctx.check('name, centre, references and hulls, in every order', bad is None, bad)
        with ctx.sc('%d members one at a time' % n, ADD):
            bad = None
            for perm in itertools.permutations(range(n)):
                for flags in set(itertools.product((True, False), repeat=n)) if n < 4 else [(True,) * n, (False,) * n, (False,) * (n - 1) + (True,)]:
                    s, o = scene(ctx, n)
                    a = s.new('Aggregate')
                    for j, (k, f) in enumerate(zip(perm, flags)):
                        s.call(a, ADD, s.sp(o[k]), TRUE if f else FALSE)
                        bad = bad or aggregate_bad(s, a, hulls=f)
                        if not bad and set(members(s, a)) != {o[x] for x in perm[:j + 1]}:
                            bad = 'members differ'
                    if not bad and not flags[-1]:
                        s.call(a, UPH)
                        bad = aggregate_bad(s, a)
                    if bad:
                        bad = 'order %s, hulls updated %s: %s' % (perm, flags, bad)
                        break
                if bad:
                    break
            ctx.check('name, centre, references and hulls, in every order', bad is None, bad)
        with ctx.sc('%d members, some at once' % n, CT, ADD):
            bad = None
            for k in range(1, n):
                s, o = scene(ctx, n)
                a = s.new('Aggregate', Seq([s.sp(x) for x in o[:k]]))
                for x in o[k:]:
                    s.call(a, ADD, s.sp(x), TRUE)
                bad = bad or aggregate_bad(s, a)
            ctx.check('name, centre, references and hulls', bad is None, bad)
        with ctx.sc('%d members, moved afterwards' % n, UPC, UPH):
            bad = None
            for how in range(2):
                s, o = scene(ctx, n)
                if how:
                    a = s.new('Aggregate', Seq([s.sp(x) for x in o]))
                else:
                    a = s.new('Aggregate')
                    for x in o:
                        s.call(a, ADD, s.sp(x), TRUE)
                for k, x in enumerate(o):
                    if k % 2 == 0 or n == 1:
                        s.call(x, 'Obstacle::set_position', T.vatom('moved%d' % k), n=1)
                bad = bad or refreshed_bad(s, a)
            ctx.check('refreshing follows the members', bad is None, bad)
    with ctx.sc('members of the same name', CT, ADD):
        bad = None
        for names in ('aa', 'aba', 'bab', 'aaa', 'aab'):
            for way in range(3):
                s = Sc(ctx, hooks=relation_hooks({}))
                o = [mellipsoid(s, ID, str(k), moving=False, curv=False, obsname=x) for k, x in enumerate(names)]
                k = (len(o), 0, 1)[way]
                a = s.new('Aggregate', *([Seq([s.sp(x) for x in o[:k]])] if k else []))
                for x in o[k:]:
                    s.call(a, ADD, s.sp(x), TRUE)
                bad = bad or aggregate_bad(s, a)
                if not bad and set(members(s, a)) != set(o):
                    bad = 'members differ'
                if bad:
                    bad = 'names %s, way %d: %s' % (names, way, bad)
                    break
            if bad:
                break
        ctx.check('name, centre, references and hulls', bad is None, bad)
    with ctx.sc('the same aggregate however assembled', CT, ADD):
        s, o = scene(ctx, 3)
        reps = []
        for perm in itertools.permutations(range(3)):
            for way in range(2):
                s.i.s = s.i.s.copy()
                if way:
                    a = s.new('Aggregate', Seq([s.sp(o[k]) for k in perm]))
                else:
                    a = s.new('Aggregate')
                    for k in perm:
                        s.call(a, ADD, s.sp(o[k]), TRUE)
                reps.append(s.attrs(a))
        for k, r in enumerate(reps[1:]):
            ctx.attrs_eq('assembly %d' % (k + 1), r, reps[0])
    with ctx.sc('setting the reference point', 'Aggregate::set_reference_position'):
        s, o = scene(ctx, 3)
        a = s.new('Aggregate', Seq([s.sp(x) for x in o]))
        st = s.snap(a, *o)
        r = T.vatom('newref')
        s.call(a, 'Obstacle::set_reference_position', r)
        ctx.eq('of the aggregate', s.val(a, 'Obstacle::get_reference_position'), r)
        for k, x in enumerate(o):
            ctx.eq('of member %d' % k, s.val(x, 'Obstacle::get_reference_position'), r)
        for what, x, y in zip(('aggregate', 'member 0', 'member 1', 'member 2'), s.snap(a, *o), st):
            ctx.attrs_eq('nothing else: ' + what, x, y, skip=('reference_position',))
        s.call(a, UPH)
        o1 = s.read(a)
        for k, h in sorted(o1.f.items()):
            if isinstance(h, Rec) and '#centre' in h.f:
                ctx.eq('then refreshed, %s is centred there' % k, h.f['#centre'], r)
    with ctx.sc('aggregates of aggregates', CT, ADD):
        for way in range(2):
            s, o = scene(ctx, 4)
            i = s.new('Aggregate', Seq([s.sp(o[0]), s.sp(o[1])]), heap=True)
            if way:
                a = s.new('Aggregate', Seq([s.sp(o[2]), s.sp(i)]))
            else:
                a = s.new('Aggregate')
                s.call(a, ADD, s.sp(i), TRUE)
                s.call(a, ADD, s.sp(o[2]), TRUE)
            b = aggregate_bad(s, a)
            ctx.check('consistent with its direct members, way %d' % way, b is None, b)
            r = s.val(a, 'Obstacle::get_reference_position')
            for k in (0, 1):
                ctx.eq('member %d of its member shares the reference, way %d' % (k, way), s.val(o[k], 'Obstacle::get_reference_position'), r)
    with ctx.sc('members keep everything else', CT, ADD, UPH, UPC):
        for way in range(2):
            s, o = scene(ctx, 3)
            st = s.snap(*o)
            if way:
                a = s.new('Aggregate', Seq([s.sp(x) for x in o]))
            else:
                a = s.new('Aggregate')
                for x in o:
                    s.call(a, ADD, s.sp(x), TRUE)
            s.call(a, UPC)
            s.call(a, UPH)
            for k, (x, y) in enumerate(zip(s.snap(*o), st)):
                ctx.attrs_eq('member %d, way %d' % (k, way), x, y, skip=('reference_position',))
    with ctx.sc('hulls really computed', CT, UPH):
        for way in range(2):
            s = Sc(ctx, hooks=dict(NOHULL, **polar_hooks()))
            o = [mray(s, x, [t]) for x, t in zip('ab', ((F(2), F(-1)), (F(3), F(1))))]
            a = s.new('Aggregate', Seq([s.sp(o[1 - way])]))
            s.call(a, ADD, s.sp(o[way]), FALSE)
            f = s.read(a).f
            hs = [k for k in ('inside_hull', 'outside_hull') if isinstance(f.get(k), Rec) and 'resolution' in f[k].f and 'is_inside' in f[k].f]
            if len(hs) != 2:
                raise Undecided('representation of aggregates not recognised')
            del s.i.hooks[NS + 'StarShapeHull::compute_from_primitives']
            for k in hs:
                s.i.write(a + ('f', k) + ('f', 'resolution'), T.const(4))
            s.call(a, UPH)
            for k in hs:
                h = a + ('f', k)
                inside = s.read(h).f['is_inside']
                ctx.check('%s is of its side, way %d' % (k, way), inside is (TRUE if k == 'inside_hull' else FALSE), 'it is not')
                ref = s.new('StarShapeHull', inside, T.const(4))
                s.call(ref, 'StarShapeHull::compute_from_primitives', Seq([s.sp(x) for x in o]), mean_pos(s, o), n=2)
                for x in ('position', 'reference_position'):
                    ctx.eq('%s: %s is the mean, way %d' % (k, x, way), s.val(h, 'Obstacle::get_' + x), mean_pos(s, o))
                for x in ('cartesian_surface_points', 'polar_surface_points'):
                    if x in s.read(h).f:
                        ctx.eq('%s: %s are those of a fresh hull, way %d' % (k, x, way), list(s.read(h).f[x].cols)[:4], list(s.read(ref).f[x].cols))
