"""C10 Free motion is untouched."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Value graphs of modulate_velocity with obstacles of unknown kind and under every '
               'intersection relation: the result without obstacles, or in local mode when no predicate of the envelope holds, is the velocity of the agent; '
               'in every other case it is the value of the global mode, which depends on every listed obstacle and on none preferentially.')
ASSUMPTIONS = ['real arithmetic', 'local mode with up to 2 obstacles (thorough: 3), every combination of them met by the envelope, and with up to 40 none of which is met']


def run(ctx):
    for agg in (FALSE, TRUE):
        for local in (FALSE, TRUE):
            for rep in (FALSE, TRUE):
                for planar in (FALSE, TRUE):
                    with ctx.sc('no obstacle (aggregated %s, local %s, repulsion %s, planar %s)' % (agg is TRUE, local is TRUE, rep is TRUE, planar is TRUE), MV):
                        s = Sc(ctx)
                        a = magent(s, ID)
                        for up in (False, True):
                            e = s.env([], agg, up)
                            ctx.eq('the velocity of the agent', mv(s, a, e, local, rep, planar), s.val(a, 'Agent::get_linear_velocity'))
                        ctx.returns('returns', s.i)
    for rep in (FALSE, TRUE):
        for n in (1, 2) if not ctx.thorough else (1, 2, 3):
            with ctx.sc('local mode with %d obstacles, repulsion %s' % (n, rep is TRUE), MV, 'Obstacle::is_intersecting'):
                w0 = None
                for mask in range(1 << n):
                    table = {frozenset(('envelope', 'o%d' % k)): True for k in range(n) if mask >> k & 1}
                    s = Sc(ctx, hooks=relation_hooks(table))
                    e = s.env([mellipsoid(s, ID, str(k), curv=False, moving=False) for k in range(n)])
                    a = magent(s, ID)
                    what = 'envelope meets %s' % [k for k in range(n) if mask >> k & 1]
                    w = mv(s, a, e, FALSE, rep)
                    if w0 is None:
                        w0 = w
                    ctx.eq('%s: global mode does not depend on it' % what, w, w0)
                    v = mv(s, a, e, TRUE, rep)
                    if mask == 0:
                        ctx.eq('%s: velocity of the agent' % what, v, s.val(a, 'Agent::get_linear_velocity'))
                    else:
                        ctx.sep('%s: as in global mode' % what, finite(v), finite(w), n=10)
                    ctx.returns('returns', s.i)
    for n in (5, 12, 40):
        with ctx.sc('local mode with %d obstacles' % n, MV, 'Obstacle::is_intersecting'):
            for agg in (FALSE, TRUE):
                s = Sc(ctx, hooks=relation_hooks({}))
                e = s.env([mellipsoid(s, ID, str(k), rot=False, curv=False, moving=False) for k in range(n)], agg)
                a = magent(s, ID)
                ctx.eq('none met, aggregated %s: velocity of the agent' % (agg is TRUE), mv(s, a, e, TRUE, FALSE), s.val(a, 'Agent::get_linear_velocity'))
    for planar in (FALSE, TRUE):
        with ctx.sc('every obstacle takes part, planar %s' % (planar is TRUE), MV):
            s = Sc(ctx)
            os, a, e = abs_scene(s, 3)
            v = finite(mv(s, a, e, FALSE, FALSE, planar))
            bs = T.all_bases(v)
            for k in range(3):
                for sym, what in (('d%d' % k, 'distance'), ('n%d' % k, 'normal'), ('v%d' % k, 'velocity'), ('w%d' % k, 'angular velocity')):
                    b = T.single_base(T.atom(sym)) if what == 'distance' else T.base('vec', sym)
                    ctx.check('%s of obstacle %d counts' % (what, k), any(x is b for x in bs), 'the result does not depend on it')
    with ctx.sc('agent at rest', MV):
        s = Sc(ctx)
        os, a, e = abs_scene(s, 3, agent_moving=False)
        bs = T.all_bases(finite(mv(s, a, e)))
        for k in range(3):
            for sym, what in (('v%d' % k, 'velocity'), ('w%d' % k, 'angular velocity'), ('n%d' % k, 'normal')):
                ctx.check('%s of obstacle %d counts' % (what, k), any(x is T.base('vec', sym) for x in bs), 'the result does not depend on it')
    with ctx.sc('order and repetition', MV):
        s = Sc(ctx)
        os, a, e = abs_scene(s, 2)
        v = finite(mv(s, a, e))
        s2 = Sc(ctx)
        os2, a2, e2 = abs_scene(s2, 2, names=['1', '0'])
        ctx.sep('the order of the list does not matter', finite(mv(s2, a2, e2)), v, n=10)
        s3 = Sc(ctx)
        same = [mabstract(s3, ID, '0', abs_handlers(), obsname='x%d' % k) for k in range(2)]
        a3 = magent(s3, ID)
        v3 = finite(mv(s3, a3, s3.env(same)))
        s4 = Sc(ctx)
        os4, a4, e4 = abs_scene(s4, 1)
        ctx.sep('an obstacle listed twice under two names counts once', v3, finite(mv(s4, a4, e4)), n=10)
