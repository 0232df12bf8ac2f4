"""C29 Drawings show the plane they are asked for."""
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('The calls to the plotting library are collected by abstract interpretation on symbolic scenes.  The drawing of one scene in "xy" and the one in "xz" together give '
               'every drawn point in space; these points must be the positions, reference positions, samples and histories themselves, or move with the scene under '
               'every rigid motion, which no mixture of coordinates of different quantities does.  Outlines of ellipsoids are compared with the equation of the ellipse in the frame '
               'of the obstacle and moved by its pose.  The panels of a configuration are compared with the sets of elements of each plane.')
ASSUMPTIONS = ['third party plotting calls draw what they are given', 'real arithmetic', 'an outline of many points is analysed at the first three and the last of them']
PT = 'PlottingTools::'
V3 = 'Matrix<double, 3, 1>'


class El:
    """one drawn element: its points in the plane and how it is drawn"""
    def __init__(self, kind, xs, ys, style, loc):
        self.kind, self.xs, self.ys, self.style, self.loc = kind, xs, ys, style, loc

    @property
    def single(self):
        return len(self.xs) == 1

    def __repr__(self):
        return '%s at %s' % (self.kind, self.loc)


def seq(v):
    if isinstance(v, Seq):
        return list(v.items)
    if isinstance(v, Arr):
        return list(v.items)
    if isinstance(v, V):
        return [T.vcomp(v, k) for k in range(3)]
    raise Undecided('drawn points not recognised')


def drawn(s, n0=0):
    """(name, element or arguments) of every call of the plotting library"""
    out = []
    for k, pc, data, loc, st in s.i.events[n0:]:
        if k != 'plt':
            continue
        if pc is not TRUE:
            raise Undecided('conditional drawing at %s' % loc)
        n, a = data
        if n in ('plot', 'scatter') and len(a) >= 2:
            xs, ys = seq(a[0]), seq(a[1])
            if len(xs) != len(ys):
                out.append((n, El('curve with %d first and %d second coordinates' % (len(xs), len(ys)), [], [], '', loc)))
                continue
            style = a[2] if len(a) > 2 else None
            idx = range(len(xs))
            if s.i.sampled and len(xs) > 16 and len([k for k in idx if xs[k] is ZERO and ys[k] is ZERO]) > len(xs) // 2:
                idx = [k for k in idx if k in s.i.sampled]
            st_ = style.lit() if isinstance(style, Str) else None
            out.append((n, El('marker' if len(xs) == 1 else 'curve', [xs[k] for k in idx], [ys[k] for k in idx], st_, loc)))
        elif n in ('text', 'annotate'):
            nums = [x for x in a if isinstance(x, P)]
            strs = [x for x in a if isinstance(x, Str)]
            if len(nums) != 2 or len(strs) != 1:
                raise Undecided('label not recognised at %s' % loc)
            out.append(('text', El('label', nums[:1], nums[1:], strs[0].lit(), loc)))
        else:
            out.append((n, a))
    return out


def els(ds):
    return [d for n, d in ds if isinstance(d, El)]


def same(a, b):
    return a is b or T._same(a, b)


def broken(ctx, es):
    for e in es:
        if not e.xs:
            ctx.check('points of a %s' % e.kind.split()[0], False, e.kind, loc=e.loc)
    return [e for e in es if e.xs]


def spatial(ctx, xy, xz):
    """the points in space of the elements of both drawings, or None"""
    if not ctx.check('both planes show the same elements', [e.kind for e in xy] == [e.kind for e in xz] and [len(e.xs) for e in xy] == [len(e.xs) for e in xz],
                     'xy: %s; xz: %s' % (xy, xz)):
        return None
    out = []
    for a, b in zip(xy, xz):
        ctx.eq('%s: the same first coordinates in both planes' % a.kind, a.xs, b.xs)
        out.append([T.vec3(x, y, z) for x, y, z in zip(a.xs, a.ys, b.ys)])
    return out


def at_one_of(ctx, name, pt, wants):
    """the point is one of the given ones, all of its coordinates"""
    for w, v in wants.items():
        if same(pt, v):
            ctx.ok(name)
            return w
    best = max(wants, key=lambda w: sum(1 for k in range(3) if same(T.vcomp(pt, k), T.vcomp(wants[w], k))))
    ctx.eq(name + ' (%s)' % best, pt, wants[best])
    return None


def run(ctx):
    agents(ctx)
    trajectories(ctx)
    for name in ('n', ''):
        ellipsoids(ctx, name)
    hulls(ctx)
    aggregates(ctx)
    other_planes(ctx)
    lists(ctx)
    panels(ctx)


def agents(ctx):
    with ctx.sc('agent', PT + 'plot_agent'):
        r = {}
        for ax in ('xy', 'xz'):
            s = Sc(ctx)
            a = magent(s, ID)
            s.call(None, PT + 'plot_agent', a, Str(ax))
            r[ax] = broken(ctx, els(drawn(s)))
            ctx.check('is drawn once (%s)' % ax, len(r[ax]) == 1 and r[ax][0].single, 'drawn: %s' % r[ax])
            p = s.attrs(a)['position']
        pts = spatial(ctx, r['xy'], r['xz'])
        for q in pts or []:
            ctx.eq('is drawn at its position', q[0], p)


def trajectories(ctx):
    with ctx.sc('trajectory', PT + 'plot_agent_trajectory'):
        for n in (0, 1, 2, 3):
            h = [T.vatom('h%d' % k) for k in range(n)]
            r = {}
            for ax in ('xy', 'xz'):
                s = Sc(ctx)
                s.call(None, PT + 'plot_agent_trajectory', T.vatom('goal'), Seq(list(h)), Str(ax))
                ds = [e for e in els(drawn(s)) if e.xs or e.kind != 'curve']
                r[ax] = broken(ctx, ds)
            pts = spatial(ctx, r['xy'], r['xz'])
            if pts is None:
                continue
            want = [('goal', [T.vatom('goal')])] + ([('history', h)] if n else [])
            left = list(pts)
            for w, v in want:
                fit = [q for q in left if len(q) == len(v)]
                hit = [q for q in fit if all(same(x, y) for x, y in zip(q, v))]
                if hit:
                    left.remove(hit[0])
                    ctx.ok('%s of %d points' % (w, n))
                elif len(fit) == 1:
                    left.remove(fit[0])
                    ctx.eq('%s of %d points' % (w, n), fit[0], v)
                else:
                    ctx.check('%s of %d points' % (w, n), False, '%s is not drawn: %s' % (w, [short(x) for q in left for x in q]))
            ctx.check('nothing else (%d points)' % n, not left, 'also drawn: %s' % [short(x) for q in left for x in q])


def one(ctx, make, ax, g=ID):
    s = Sc(ctx, hooks=dict(NOHULL))
    s.i.sample = True
    o = make(s, g)
    n0 = len(s.i.events)
    s.call(o, 'Obstacle::draw', Str('k'), Str(ax), n=2)
    return s, o, broken(ctx, els(drawn(s, n0)))


def places(s, o, d=None, pre=''):
    """position and reference position of an obstacle and of its parts"""
    d = {} if d is None else d
    at = s.attrs(o)
    d[pre + 'position'], d[pre + 'reference position'] = at['position'], at['reference_position']
    return d


def ellipsoids(ctx, name):
    who = 'named ellipsoid' if name else 'ellipsoid without a name'
    make = lambda s, g: mellipsoid(s, g, 'e', curv=False, obsname=name)
    with ctx.sc(who, 'Ellipsoid::draw'):
        r, pl = {}, None
        for ax in ('xy', 'xz'):
            s, o, es = one(ctx, make, ax)
            r[ax] = es
            pl = places(s, o)
        marks = {ax: [e for e in r[ax] if e.single] for ax in r}
        pts = spatial(ctx, marks['xy'], marks['xz'])
        shown = set()
        for e, q in zip(marks['xy'], pts or []):
            w = at_one_of(ctx, 'every %s is at the position or the reference position' % e.kind, q[0], pl)
            shown.add(w)
            if e.kind == 'label':
                ctx.check('the label is the name, at the position', e.style == name and w == 'position', 'label %r at the %s' % (e.style, w), loc=e.loc)
        if None not in shown and pts is not None:
            ctx.check('position and reference position are shown', shown == set(pl), 'only %s' % sorted(shown))
        for j, ax in ((1, 'xy'), (2, 'xz')):
            # in the frame of the obstacle
            s, o, es = one(ctx, lambda s, g: mellipsoid(s, g, 'e', curv=False, obsname=name, rot=False, p=T.VZERO), ax)
            at = s.attrs(o)
            a, m = at['axis_lengths'], at['safety_margin']
            cs = [e for e in es if not e.single]
            solid, dashed = [e for e in cs if '--' not in (e.style or '')], [e for e in cs if '--' in (e.style or '')]
            if not ctx.check('an outline and a dashed safety outline (%s)' % ax, len(solid) == 1 and len(dashed) == 1, 'curves: %s' % [e.style for e in cs]):
                continue
            moved = [e for e in r[ax] if not e.single]
            for what, e, ext in (('outline', solid[0], a), ('safety outline', dashed[0], T.vadd(a, m) if isinstance(a, V) else None)):
                if ext is None:
                    raise Undecided('half-axes not recognised')
                l0, l1 = T.vcomp(ext, 0), T.vcomp(ext, j)
                for k, (x, y) in enumerate(zip(e.xs, e.ys)):
                    u, v = T.div(x, l0), T.div(y, l1)
                    ctx.eq('%s (%s): points on the ellipse of its half-axes' % (what, ax), T.add(T.mul(u, u), T.mul(v, v)), ONE)
                ctx.eq('%s (%s): closed' % (what, ax), [e.xs[0], e.ys[0]], [e.xs[-1], e.ys[-1]])
                ctx.check('%s (%s): more than a point' % (what, ax), not (same(e.xs[0], e.xs[1]) and same(e.ys[0], e.ys[1])), 'the first two points are the same', loc=e.loc)
                # with its pose: the plane of the body that is drawn, moved
                f = [c for c in moved if (c.style or '') == (e.style or '') and len(c.xs) == len(e.xs)]
                if len(f) != 1:
                    ctx.und('%s (%s): moved by the pose' % (what, ax), 'number of points depends on the pose')
                    continue
                s2, o2, _ = one(ctx, make, ax)
                at2 = s2.attrs(o2)
                for k, (x, y) in enumerate(zip(e.xs, e.ys)):
                    loc = T.vec3(x, y, ZERO) if j == 1 else T.vec3(x, ZERO, y)
                    w = T.vadd(at2['position'], T.qrot(s2.quat('qe'), loc))
                    ctx.eq('%s (%s): moved by the pose' % (what, ax), [f[0].xs[k], f[0].ys[k]], [T.vcomp(w, 0), T.vcomp(w, j)])


def equivariant(ctx, make, who):
    """every drawn point of the moved scene is the moved point"""
    r = {}
    for ax in ('xy', 'xz'):
        for mv_ in (False, True):
            s = Sc(ctx, hooks=dict(NOHULL))
            s.i.sample = True
            g = rigid(s) if mv_ else ID
            o = make(s, g)
            n0 = len(s.i.events)
            s.call(o, 'Obstacle::draw', Str('k'), Str(ax), n=2)
            r[ax, mv_] = broken(ctx, els(drawn(s, n0)))
    p0, p1 = (spatial(ctx, r['xy', k], r['xz', k]) for k in (False, True))
    if p0 is None or p1 is None:
        return None
    for e, a, b in zip(r['xy', False], p0, p1):
        ctx.eq('%s: every %s moves with the scene' % (who, e.kind), b, [g.pt(x) for x in a])
    return r['xy', False], p0


def hulls(ctx):
    for inside, name in ((False, ''), (True, ''), (False, 'hn'), (True, 'hn')):
        who = ('named ' if name else '') + ('inner hull' if inside else 'outer hull')
        with ctx.sc(who, 'StarShapeHull::draw'):
            def make(s, g):
                h = mhull(s, g, 'h', 4, inside)
                s.call(h, 'Obstacle::set_name', Str(name))
                s.call(h, 'Obstacle::set_reference_position', g.pt(T.vatom('rh')))
                return h
            out = equivariant(ctx, make, who)
            s = Sc(ctx)
            h = make(s, ID)
            pl = places(s, h)
            if out is None:
                continue
            shown = set()
            n = 0
            for e, q in zip(*out):
                if e.single:
                    shown.add(at_one_of(ctx, 'every %s is at the position or the reference position' % e.kind, q[0], pl))
                else:
                    n += 1
                    own = [x for x in q[:-1] if any(same(x, y) for y in q[:q.index(x)])] if len(q) > 1 else []
                    ctx.check('the outline passes by all samples', len(q) - len(own) >= 4, '%d of 4 points' % (len(q) - len(own)), loc=e.loc)
                    for x in q:
                        w = T.vsub(x, pl['position'])
                        rad = [T.vdot(w, w)]
                        ks = [k for k in range(4) if same(rad[0], T.mul(T.atom('radh%d' % k, pos=True), T.atom('radh%d' % k, pos=True)))]
                        if not ks:
                            ctx.und('the outline passes by all samples', 'a drawn point is not recognised')
            ctx.check('an outline is drawn', n == 1, '%d outlines' % n)
            if None not in shown:
                ctx.check('position and reference position are shown', shown == set(pl), 'only %s' % sorted(shown))


def aggregates(ctx):
    def make(s, g):
        ms = [mellipsoid(s, g, str(k), curv=False, obsname=('m%d' % k if k else '')) for k in range(2)]
        return maggregate(s, g, ms, [mhull(s, g, 'hi', 3, True), mhull(s, g, 'ho', 4, False)])
    with ctx.sc('aggregate', 'Aggregate::draw'):
        r = {}
        for ax in ('xy', 'xz'):
            s, o, es = one(ctx, make, ax)
            r[ax] = es
        pl = places(s, o)
        d = {}
        for k, m in enumerate(members(s, o)):
            places(s, m, d, 'member %d: ' % k)
        ob = s.read(o)
        hs = {k: v for k, v in ob.f.items() if isinstance(v, Rec) and v.cls.endswith('StarShapeHull')}
        for k in hs:
            places(s, o + ('f', k), d, k + ': ')
        d.update(pl)
        marks = {ax: [e for e in r[ax] if e.single] for ax in r}
        pts = spatial(ctx, marks['xy'], marks['xz'])
        shown = []
        for e, q in zip(marks['xy'], pts or []):
            w = at_one_of(ctx, 'every %s belongs to the aggregate, a member or a hull' % e.kind, q[0], d)
            if w is not None:
                shown += [x for x in d if same(d[x], d[w])]
        for x in d:
            if x == 'position' or 'hull: ' in x:
                continue
            ctx.check('%s is shown' % x, x in shown, 'no marker at the %s' % x)
        # what the parts draw on their own
        for ax in ('xy', 'xz'):
            want = []
            s, o, _ = one(ctx, make, ax)
            for m in members(s, o) + [o + ('f', k) for k in hs]:
                n0 = len(s.i.events)
                s.call(m, 'Obstacle::draw', Str('k'), Str(ax), n=2)
                want += els(drawn(s, n0))
            left = [e for e in r[ax] if not e.single]
            ok = True
            for e in want:
                if e.single:
                    continue
                hit = [f for f in left if len(f.xs) == len(e.xs) and all(same(x, y) for x, y in zip(f.xs + f.ys, e.xs + e.ys))]
                if not hit:
                    ok = False
                    ctx.check('outlines of all parts (%s)' % ax, False, 'the curve of %s is missing' % e.loc)
                else:
                    left.remove(hit[0])
            if ok:
                ctx.check('outlines of all parts (%s)' % ax, not left, 'also drawn: %s' % left)


def other_planes(ctx):
    """a plane that is not known: nothing, the plane "xy", or really the other one"""
    def make(kind):
        def f(s, g):
            if kind == 'Ellipsoid':
                return mellipsoid(s, g, 'e', curv=False)
            if kind == 'Hull':
                return mhull(s, g, 'h', 3)
            return maggregate(s, g, [mellipsoid(s, g, str(k), curv=False) for k in range(2)], [mhull(s, g, 'hi', 3, True), mhull(s, g, 'ho', 3, False)])
        return f

    def agent(s):
        s.call(None, PT + 'plot_agent', magent(s, ID), Str(s.ax))

    def traj(s):
        s.call(None, PT + 'plot_agent_trajectory', T.vatom('goal'), Seq([T.vatom('h0'), T.vatom('h1')]), Str(s.ax))
    todo = [(k, k, lambda s, k=k: s.call(make(k)(s, ID), 'Obstacle::draw', Str('k'), Str(s.ax), n=2)) for k in ('Ellipsoid', 'Hull', 'Aggregate')]
    for who, k, f in todo + [('agent', '', agent), ('trajectory', '', traj)]:
        with ctx.sc('unknown plane: %s' % who, 'Obstacle::draw' if k else PT + 'plot_agent'):
            r = {}
            for ax in ('xy', 'xz', 'yz', '', 'zz'):
                s = Sc(ctx, hooks=dict(NOHULL))
                s.i.sample = True
                s.ax = ax
                f(s)
                r[ax] = broken(ctx, els(drawn(s)))
            pts = [[T.vec3(x, y, z) for x, y, z in zip(a.xs, a.ys, b.ys)] for a, b in zip(r['xy'], r['xz']) if len(a.xs) == len(b.xs)]
            for ax in ('yz', '', 'zz'):
                es = r[ax]
                ok = all(any(same_els([e], [f_]) for f_ in r['xy']) for e in es)
                if not ok and ax == 'yz':
                    flat_ = [p for q in pts for p in q]
                    ok = all(any(same(x, T.vcomp(p, 1)) and same(y, T.vcomp(p, 2)) for p in flat_) for e in es if e.single for x, y in zip(e.xs, e.ys))
                ctx.check('draws nothing wrong in %r' % ax, ok, 'neither nothing nor the plane "xy": %s' % es)


def same_els(a, b):
    left = list(b)
    for e in a:
        hit = [f for f in left if (f.kind, len(f.xs)) == (e.kind, len(e.xs)) and all(same(x, y) for x, y in zip(e.xs + e.ys, f.xs + f.ys))]
        if not hit:
            return False
        left.remove(hit[0])
    return not left


def lists(ctx):
    """every obstacle of a list is drawn once, however many there are"""
    with ctx.sc('lists', PT + 'plot_obstacles'):
        for n in (0, 1, 5, 6, 7, 8, 13):
            for ax in ('xy', 'xz'):
                seen = []

                def rec(i, this, vals, fn):
                    a = [i.read(v) if isinstance(v, (LV, LVG)) else v for v in vals]
                    seen.append((this, a[1].lit() if isinstance(a[1], Str) else None))
                s = Sc(ctx, hooks=dict(NOHULL, **{NS + 'Ellipsoid::draw': rec}))
                es = [mellipsoid(s, ID, 'e%d' % k, curv=False) for k in range(n)]
                s.call(None, PT + 'plot_obstacles', Seq([s.sp(e) for e in es]), Str(ax))
                ctx.check('each of %d obstacles is drawn once' % n, [x for x, y in seen] == es or sorted(map(repr, (x for x, y in seen))) == sorted(map(repr, es)), '%d of them are drawn' % len(seen))
                ctx.no_events('colours of %d obstacles' % n, s.i, ('oob', 'invalidated', 'dangling', 'div0'))
                ctx.check('each of %d obstacles in the plane asked for' % n, all(y == ax for x, y in seen), 'planes %s instead of %s' % (sorted(set(str(y) for x, y in seen)), ax))


def panels(ctx):
    def scene():
        s = Sc(ctx, hooks=dict(NOHULL))
        s.i.sample = True
        a, b = magent(s, ID), magent(s, ID, 'B')
        e = mellipsoid(s, ID, 'e', curv=False)
        h = mhull(s, ID, 'h', 3)
        return s, a, b, Seq([s.sp(e), s.sp(h)]), T.vatom('goal'), Seq([T.vatom('h0'), T.vatom('h1')])

    def parts(agents, traj, ax):
        s, a, b, os, goal, hist = scene()
        out = {}
        for who, f in [('obstacles', lambda: s.call(None, PT + 'plot_obstacles', os, Str(ax)))] + \
                      [('agent %d' % k, lambda x=x: s.call(None, PT + 'plot_agent', x, Str(ax))) for k, x in enumerate((a, b)[:agents])] + \
                      ([('trajectory', lambda: s.call(None, PT + 'plot_agent_trajectory', goal, hist, Str(ax)))] if traj else []):
            n0 = len(s.i.events)
            f()
            out[who] = els(drawn(s, n0))
        return out
    todo = [('configuration', 'plot_configuration', 1, True, lambda s, a, b, os, goal, hist, f, sh, d3: s.call(None, PT + 'plot_configuration', a, os, goal, hist, f, sh, d3, n=7)),
            ('configuration of obstacles', 'plot_configuration', 0, False, lambda s, a, b, os, goal, hist, f, sh, d3: s.call(None, PT + 'plot_configuration', os, f, sh, d3, n=4)),
            ('guard configuration', 'plot_guard_configuration', 2, True, lambda s, a, b, os, goal, hist, f, sh, d3: s.call(None, PT + 'plot_guard_configuration', a, b, os, goal, hist, f, sh, d3))]
    for who, fn, agents_, traj, f in todo:
        with ctx.sc(who, PT + fn):
            ref = {ax: parts(agents_, traj, ax) for ax in ('xy', 'xz')}
            for d3 in (TRUE, FALSE):
                for file in ('', 'pic'):
                    for show in (TRUE, FALSE):
                        s, a, b, os, goal, hist = scene()
                        f(s, a, b, os, goal, hist, Str(file), show, d3)
                        ds = drawn(s)
                        tag = '%s, %s, %s' % ('3D' if d3 is TRUE else 'planar', 'saved' if file else 'not saved', 'shown' if show is TRUE else 'not shown')
                        names = [n for n, d in ds]
                        saves = [d for n, d in ds if n in ('save', 'savefig')]
                        ctx.check('saved when a name is given and only then (%s)' % tag, len(saves) == (1 if file else 0), '%d files' % len(saves))
                        for d in saves:
                            p = d[0].lit() if d and isinstance(d[0], Str) else None
                            ctx.check('saved under its name (%s)' % tag, p is None or file in p, 'saved as %s' % p)
                        ctx.check('shown when asked and only then (%s)' % tag, names.count('show') == (1 if show is TRUE else 0), '%d times' % names.count('show'))
                        ps, cur = [], []
                        for n, d in ds:
                            if n in ('subplot', 'subplot2grid', 'figure') and cur:
                                ps.append(cur)
                                cur = []
                            if isinstance(d, El):
                                cur.append(d)
                        if cur:
                            ps.append(cur)
                        planes = []
                        for k, p in enumerate(ps):
                            hit = [ax for ax in ref if same_els(p, [e for es in ref[ax].values() for e in es])]
                            if hit:
                                planes.append(hit[0])
                                ctx.ok('panel %d shows all its elements in one plane (%s)' % (k + 1, tag))
                                continue
                            why = []
                            for w in ref['xy']:
                                ins = [ax for ax in ref if all(any(same_els([e], [x]) for x in p) for e in ref[ax][w])]
                                why.append('%s in %s' % (w, ', '.join(ins) or 'no plane as a whole'))
                            ctx.check('panel %d shows all its elements in one plane (%s)' % (k + 1, tag), False, '; '.join(why))
                        ctx.check('panels (%s)' % tag, len(ps) == len(planes) and (len(ps) == 1 if d3 is FALSE else set(planes) == {'xy', 'xz'}) or len(planes) != len(ps), 'the panels show %s' % planes)
                        if file or show is TRUE:
                            last = max(i for i, n in enumerate(names) if n in ('save', 'savefig', 'show'))
                            first = min(i for i, n in enumerate(names) if n in ('save', 'savefig', 'show'))
                            ctx.check('complete before it is saved or shown (%s)' % tag, not any(isinstance(d, El) for n, d in ds[first:]), 'something is drawn after that')
                            ctx.check('not closed before it is saved or shown (%s)' % tag, 'close' not in names[:last] and 'clf' not in names[:last], 'closed before')
