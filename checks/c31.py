"""C31 Textual dumps report every attribute under its name."""
import re
from engine.ctx import *
from engine.values import Stream
from checks.scenes import *

V3_ = 'Matrix<double, 3, 1>'

EXPLANATION = ('The stream operators are interpreted on symbolic objects of every kind and the sequence of tokens they write (texts and values) is read back: after the label of an '
               'attribute must come exactly the components of this attribute, in order.  The abstract heap is compared before and after, the dump of an aggregate must contain the '
               'one of every member, and the value that is returned must be the stream that was given.')
ASSUMPTIONS = ['orientations are unit quaternions', 'real arithmetic']
LABELS = {'position': r'(?<!reference )(?<!reference_)position', 'orientation': r'orientation|quaternion', 'linear_velocity': r'linear[ _]velocity', 'angular_velocity': r'angular[ _]velocity',
          'reference_position': r'reference[ _](position|point)', 'safety_margin': r'(safety[ _])?margin', 'axis_lengths': r'axis[ _]lengths?|half[ -]axes|semi[ -]axes', 'curvature_factor': r'curvature([ _]factors?)?'}


QUAT = {'pose': 'q', 'state': 'qs', 'agent': 'qA', 'ellipsoid': 'qe', 'hull': 'qh', 'plain obstacle': 'qo'}


def comps(x):
    if isinstance(x, P):
        return [x]
    if isinstance(x, V):
        return [T.vcomp(x, k) for k in range(3)]
    if isinstance(x, (Arr, Seq, Tup)):
        return [y for z in x.items for y in comps(z)]
    if isinstance(x, Q):
        return [T.qcomp(x, c) for c in 'wxyz']
    if type(x).__name__ == 'RowV':
        return comps(x.v)
    raise Undecided('printed value not recognised: %s' % short(x))


def parse(toks):
    """the dump as a list of (text before, value) with a last (text, None)"""
    out, text = [], ''
    for t in toks:
        if isinstance(t, Str):
            for p in t.p:
                if isinstance(p, str):
                    text += p
                else:
                    v = p[2] if isinstance(p, tuple) and len(p) > 2 else None
                    for c in comps(v):
                        out.append((text, c))
                        text = ''
            continue
        if isinstance(t, tuple) and t and t[0] == 'choice':
            raise Undecided('what is printed depends on the values')
        if isinstance(t, Opq):
            raise Undecided('printed value not recognised')
        for c in comps(t):
            out.append((text, c))
            text = ''
    return out + [(text, None)]


def dump(ctx, s, cls, x):
    """tokens of a printed object, after checking that nothing else happens"""
    o = s.i.alloc(Stream())
    before = {k: v for k, v in s.i.s.st.items() if k[0] not in 'LT'}
    r = s.call(None, 'operator<<', o, x, pt=['ostream', 'Avoidance::' + cls + ' '])
    st = s.read(o)
    if not isinstance(st, Stream):
        raise Undecided('the stream is not recognised')
    for k, v in before.items():
        w = s.i.s.st.get(k)
        if w is not None and w is not v and not (same_value(v, w) or repr(v) == repr(w)):
            ctx.check('printing changes nothing', False, 'an object changes: %s' % short(v))
    ctx.ok('printing changes nothing')
    if isinstance(r, LV):
        ctx.check('the stream itself is handed on', r == o, 'another stream is returned')
    return st.toks


def after(items, label):
    """groups of values that follow the label; the label is the last word before the first value"""
    out = []
    for k, (t, v) in enumerate(items):
        # the name of a value is the last wording before it
        words = [w for w in re.split(r'[\n;]|<=>|, (?=[a-z])', t) if re.search('[A-Za-z]', w)]
        if v is None or not words or not re.search(label, words[-1], re.I):
            continue
        g = [v]
        for t2, v2 in items[k + 1:]:
            if v2 is None or re.search('[A-Za-z]', t2):
                break
            g.append(v2)
        out.append(g)
    return out


def reported(ctx, who, items, text, at, quat):
    for k, v in at.items():
        if k.startswith('envelope'):
            continue
        if isinstance(v, Str):
            if v.lit():
                ctx.check('%s: %s is printed' % (who, k), v.lit() in text, '%r is not in the dump' % v.lit())
            continue
        if k not in LABELS:
            continue
        got = after(items, LABELS[k])
        if not ctx.check('%s: %s is printed once, next to its label' % (who, k), len(got) == 1, '%d values with this label' % len(got)):
            continue
        want = comps(v) if k != 'orientation' else None
        if k == 'orientation':
            w = [T.qcomp(quat, c) for c in 'wxyz']
            got = got[0]
            if not ctx.check('%s: all components of the orientation' % who, len(got) == 4, '%d components' % len(got)):
                continue
            last = w[1:] + w[:1]
            if all(T._same(x, y) for x, y in zip(got, last)):
                ctx.ok('%s: components of orientation' % who)
            else:
                ctx.eq('%s: components of orientation' % who, got, w)
            continue
        if not ctx.check('%s: all components of %s' % (who, k), len(got[0]) == len(want), '%d of %d components' % (len(got[0]), len(want))):
            continue
        ctx.eq('%s: components of %s' % (who, k), got[0], want)


def text_of(toks):
    return ''.join(p if isinstance(p, str) else '#' for t in toks for p in (t.p if isinstance(t, Str) else ['#']))


def objects(ctx):
    def pose(s):
        return s.i.alloc(s.i.new('Pose', [T.vatom('p'), s.quat('q')]))

    def state(s):
        return s.i.alloc(mstate(s, ID, 's'))
    yield 'pose', 'Pose', pose
    yield 'state', 'State', state
    yield 'agent', 'Agent', lambda s: magent(s, ID)
    yield 'ellipsoid', 'Obstacle', lambda s: mellipsoid(s, ID, 'e')

    def hull(s):
        h = mhull(s, ID, 'h', 2)
        s.call(h, 'Obstacle::set_reference_position', T.vatom('rh'))
        s.call(h, 'Obstacle::set_linear_velocity', T.vatom('vh'), n=1)
        s.call(h, 'Obstacle::set_angular_velocity', T.vatom('wh'), n=1)
        return h
    yield 'hull', 'Obstacle', hull
    yield 'plain obstacle', 'Obstacle', lambda s: s.new('Obstacle', Str('oo'), mstate(s, ID, 'o'), T.vatom('ro'), s.nnvec('mo'), pt=['basic_string', 'State', V3_, 'Array<double, 3, 1>'], heap=True)


def run(ctx):
    for who, cls, make in objects(ctx):
        with ctx.sc(who, cls + '::print' if cls == 'Obstacle' else 'operator<<'):
            s = Sc(ctx, hooks=dict(NOHULL))
            x = make(s)
            at = s.attrs(x)
            toks = dump(ctx, s, cls, x)
            items, text = parse(toks), text_of(toks)
            reported(ctx, who, items, text, at, s.quat(QUAT[who]))
            # printed again: the same
            again = parse(dump(ctx, s, cls, x))
            ctx.check('%s: printed again, the same' % who, len(again) == len(items) and all(a[0] == b[0] and (a[1] is b[1] or T._same(a[1], b[1])) for a, b in zip(again, items)), 'another text')
    for n in (0, 1, 2, 3):
        with ctx.sc('aggregate of %d' % n, 'Aggregate::print'):
            s = Sc(ctx, hooks=dict(NOHULL))
            ms = [mellipsoid(s, ID, str(k)) for k in range(n)]
            a = maggregate(s, ID, ms, [mhull(s, ID, 'i', 2, True), mhull(s, ID, 'o', 2, False)]) if n else s.new('Aggregate')
            s.call(a, 'Obstacle::set_linear_velocity', T.vatom('va'), n=1)
            s.call(a, 'Obstacle::set_angular_velocity', T.vatom('wa'), n=1)
            at = s.attrs(a)
            toks = dump(ctx, s, 'Obstacle', a)
            rest = list(parse(toks))
            for k, m in enumerate(ms):
                part = parse(dump(ctx, s, 'Obstacle', m))[:-1]
                vals = [v for t, v in part]
                at_m = None
                for i in range(len(rest)):
                    if len(rest) - i > len(vals) and all(r[1] is not None and T._same(r[1], v) for r, v in zip(rest[i:], vals)) and all(r[0] == p[0] for r, p in list(zip(rest[i:], part))[1:]) and rest[i][0].endswith(part[0][0]):
                        at_m = i
                        break
                if at_m is None:
                    ctx.check('the dump of every member is part of it', False, 'the dump of member %d is missing or differs' % k)
                else:
                    ctx.ok('the dump of every member is part of it')
                    tail = rest[at_m + len(vals)]
                    rest[at_m + len(vals)] = (rest[at_m][0][:len(rest[at_m][0]) - len(part[0][0])] + '\n' + tail[0], tail[1])
                    del rest[at_m:at_m + len(vals)]
            reported(ctx, 'aggregate', rest, text_of(toks), at, T.QID)
    with ctx.sc('angle and axis', 'operator<<'):
        for qw, qv in ((F(3, 5), (F(4, 5), 0, 0)), (F(3, 5), (0, F(-4, 5), 0)), (F(-3, 5), (0, 0, F(4, 5))), (F(4, 5), (F(1, 5), F(2, 5), F(2, 5))), (F(0), (F(2, 3), F(-1, 3), F(2, 3))), (F(1), (0, 0, 0))):
            s = Sc(ctx)
            p = s.i.alloc(s.i.new('Pose', [T.VZERO, T.q4(*[T.const(c) for c in (qw,) + qv])]))
            items = parse(dump(ctx, s, 'Pose', p))
            th = after(items, r'theta|angle(?!s)')
            ax = after(items, r'axis[^a-z]*$')
            if not th and not ax:
                ctx.ok('no angle and axis are printed')
                break
            if len(th) != 1 or len(ax) != 1 or len(th[0]) != 1 or len(ax[0]) != 3:
                ctx.check('an angle and an axis', False, 'angle: %s, axis: %s' % (th, ax))
                break
            th, ax = th[0][0], T.vec3(*ax[0])
            ctx.eq('the axis is a unit vector', T.vdot(ax, ax), ONE)
            # (w, v) and (-w, -v) are the same orientation
            half = T.scale(th, F(1, 2))
            c, sn = T.fn('cos', half), T.fn('sin', half)
            # (w, v) and (-w, -v) are the same orientation
            lo, hi = T.bounds(T.mul(c, T.const(qw)))[:2]
            sg = -1 if hi is not None and hi < 0 else 1
            if qw == 0:
                sv = T.add(*[T.mul(T.mul(sn, T.vcomp(ax, k)), T.const(qv[k])) for k in range(3)])
                lo, hi = T.bounds(sv)[:2]
                sg = -1 if hi is not None and hi < 0 else 1
            near(ctx, 'cosine of half the angle', c, sg * qw)
            axis = ax
            if any(qv):
                qvec = T.vec3(*[T.const(x) for x in qv])
                ctx.eq('the axis is parallel to the vector part', T.vcross(axis, qvec), T.VZERO)
                near(ctx, 'sine of half the angle along the axis', T.mul(sn, T.vdot(axis, qvec)), sg * sum(x * x for x in qv))
            else:
                near(ctx, 'sine of half the angle of the identity', sn, 0)


def near(ctx, name, got, want):
    """a constant is the given number"""
    lo, hi = T.bounds(got)[:2]
    if lo is None or hi is None:
        return ctx.und(name, 'no bounds for %s' % short(got))
    eps = F(1, 10 ** 6)
    if lo > want + eps or hi < want - eps:
        return ctx.check(name, False, 'between %.6f and %.6f instead of %.6f' % (lo, hi, want))
    if hi - lo > eps:
        return ctx.und(name, 'bounds too wide: %.6f to %.6f instead of %.6f, of %s' % (lo, hi, want, short(got)))
    ctx.ok(name)
