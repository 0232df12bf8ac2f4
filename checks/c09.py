"""C09 The commanded velocity is always finite."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Guard dominance on the value graph of modulate_velocity: whenever the finiteness test of the code answers no, the returned '
               'velocity must be exactly zero (or the unchanged velocity of the agent), and whenever it answers yes, every component returned '
               'must be one the test covered, for NaN and for infinities.')
ASSUMPTIONS = ['the velocity of the agent itself is finite', 'IEEE semantics of the finiteness tests of Eigen and the standard library']
KINDS = {'allFinite': 'ni', 'isfinite': 'ni', 'hasNaN': 'n', 'isnan': 'n', 'isinf': 'i'}


def answer(x, world):
    """the tests as they answer for a finite value ('good'), NaN ('n') and an infinity ('i')"""
    def fb(b):
        if b.kind == 'pred' and b.args[0] in KINDS:
            pos = b.args[0] in ('allFinite', 'isfinite')
            seen = world != 'good' and world in KINDS[b.args[0]]
            return TRUE if pos != seen else FALSE
        return None
    return T.subst(x, fb)


def guard(ctx, name, v, early, early_val):
    """v returned; early: condition of the early return"""
    preds = [b for b in T.all_bases(v) if b.kind == 'pred' and b.args[0] in KINDS]
    good = answer(v, 'good')
    want = T.vite(early, early_val, T.VZERO)
    if not preds:
        ctx.sep('%s: finiteness is tested' % name, v, want)
        return
    for k, what in (('n', 'NaN'), ('i', 'an infinity')):
        ctx.eq('%s: zero when the test meets %s' % (name, what), answer(v, k), want)
    cov = {'n': [], 'i': []}
    for b in preds:
        for x in b.args[1:]:
            for k in KINDS[b.args[0]]:
                cov[k].append(answer(x, 'good'))
    T_ = lambda x: T.vite(early, T.VZERO, x) if isinstance(x, V) else T.ite(early, ZERO, x)
    g = T_(good)
    comps = [T.vcomp(g, k) for k in range(3)]
    for k, what in (('n', 'NaN'), ('i', 'infinity')):
        whole = False
        part = [False] * 3
        close = False
        for x in cov[k]:
            y = T_(x)
            if isinstance(y, V):
                if T._same(y, g) or witness.separate(y, g, None, 12, ctx.seed) is None:
                    whole = True
            elif isinstance(y, P):
                for e in (T.vnorm(g), T.vdot(g, g), T.add(*comps)):
                    if T._same(y, e) or witness.separate(y, e, None, 8, ctx.seed) is None:
                        whole = True
                for j in range(3):
                    if T._same(y, comps[j]) or witness.separate(y, comps[j], None, 8, ctx.seed) is None:
                        part[j] = True
        ctx.check('%s: %s is covered by the test' % (name, what), whole or all(part),
                  'the value returned is not the one that was tested: %s' % (short(good)))


def run(ctx):
    for n in (1, 2) if not ctx.thorough else (1, 2, 3):
        for rep in (FALSE, TRUE):
            for planar in (FALSE, TRUE):
                with ctx.sc('%d obstacles, repulsion %s, planar %s' % (n, rep is TRUE, planar is TRUE), MV):
                    s = Sc(ctx)
                    os, a, e = abs_scene(s, n)
                    guard(ctx, 'result', mv(s, a, e, FALSE, rep, planar), FALSE, T.VZERO)
                    ctx.returns('returns', s.i)
    for rep in (FALSE, TRUE):
        with ctx.sc('ellipsoids, repulsion %s' % (rep is TRUE), MV):
            s = Sc(ctx)
            os = [mellipsoid(s, ID, '0', curv=False)]
            a = magent(s, ID)
            guard(ctx, 'result', mv(s, a, s.env(os), FALSE, rep), FALSE, T.VZERO)
    with ctx.sc('local mode', MV):
        s = Sc(ctx)
        s.i.hooks = dict(INTER)
        os = [mellipsoid(s, ID, str(k), curv=False) for k in range(2)]
        a = magent(s, ID)
        e = s.env(os)
        v = mv(s, a, e, TRUE, TRUE)
        miss = T.b_and(*[T.b_not(inter_env(k)) for k in range(2)])
        guard(ctx, 'result', v, miss, s.val(a, 'Agent::get_linear_velocity'))
    with ctx.sc('agent at rest', MV):
        s = Sc(ctx)
        os, a, e = abs_scene(s, 2, agent_moving=False)
        guard(ctx, 'result', mv(s, a, e, FALSE, TRUE), FALSE, T.VZERO)
