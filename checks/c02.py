"""C02 The safety envelope always reflects the current state."""
from engine.ctx import *
from checks.c01 import MUT
import itertools

EXPLANATION = ('For every constructor of Agent and every sequence of mutators up to length 2 (thorough: 3) on symbolic arguments, the value graph '
               'of the reported envelope is compared with that of a newly constructed agent with the same reported state; since the state '
               'before the last mutator is symbolic, longer histories are covered by the last-step argument.  Geometry of the envelope: '
               'bounds and direction laws on the value graph.')
ASSUMPTIONS = ['real arithmetic', 'safety margins are not negative']

ENV = lambda d: {k: v for k, v in d.items() if k.startswith('envelope')}


def fresh(s, a):
    """a new agent with the reported state of a"""
    q = s.val(a, 'Agent::get_orientation')
    st = s.i.new('State', [s.val(a, 'Agent::get_position'), q, s.val(a, 'Agent::get_linear_velocity'), s.val(a, 'Agent::get_angular_velocity')])
    return s.new('Agent', st, s.val(a, 'Agent::get_safety_margin'))


def ctors(s):
    st = s.state('A')
    m = T.atom('mA', nonneg=True)
    yield 'default', s.new('Agent')
    yield 'margin', s.new('Agent', m)
    yield 'state', s.new('Agent', st)
    yield 'state and margin', s.new('Agent', st, m)
    yield 'state without velocity', s.new('Agent', s.i.new('State', [T.vatom('pA'), s.quat('qA')]), m)
    a = s.agent('S')
    yield 'copy', s.new('Agent', a)
    b = s.new('Agent')
    s.assign(b, a)
    yield 'assignment', b
    yield 'transformed', s.i.alloc(s.val(a, 'Agent::transformed', s.new('Pose', T.vatom('tp'), s.quat('tq'))))


def run(ctx):
    U = 'Agent::update_envelope'
    with ctx.sc('after construction', 'Agent::Agent', U):
        s = Sc(ctx)
        for n, a in ctors(s):
            ctx.attrs_eq('%s constructor' % n, ENV(s.attrs(a)), ENV(s.attrs(fresh(s, a))))
            ctx.attrs_eq('%s constructor: envelope kind' % n, {'t': s.attrs(a)['envelope type']}, {'t': Str('Ellipsoid')})
    L = 3 if ctx.thorough else 2
    for n in range(1, L + 1):
        for seq in itertools.product(MUT, repeat=n):
            nm = ', '.join(m for m, _ in seq)
            with ctx.sc('after ' + nm, *['Agent::' + m for m, _ in seq]):
                s = Sc(ctx)
                a = s.agent()
                for k, (m, args) in enumerate(seq):
                    s.call(a, 'Agent::' + m, *args(s, str(k)), n=1)
                ctx.attrs_eq('envelope of a new agent', ENV(s.attrs(a)), ENV(s.attrs(fresh(s, a))))
    with ctx.sc('after a change on a default agent', U):
        s = Sc(ctx)
        for m, args in MUT:
            a = s.new('Agent')
            s.call(a, 'Agent::' + m, *args(s, '1'), n=1)
            ctx.attrs_eq(m, ENV(s.attrs(a)), ENV(s.attrs(fresh(s, a))))
    with ctx.sc('geometry', U):
        s = Sc(ctx)
        m = T.atom('mA', nonneg=True)
        v = T.vatom('vA')
        p = T.vatom('pA')
        a = s.new('Agent', s.i.new('State', [p, s.quat('qA'), v, T.vatom('wA')]), m)
        d = s.attrs(a)
        c, ax = d['envelope position'], d['envelope axis_lengths']
        off = T.vsub(c, p)
        x = [T.vcomp(ax, k) for k in range(3)]
        ctx.eq('centre lies on the line of motion', T.vcross(off, T.vunit(v)), T.VZERO)
        ctx.ge0('centre lies ahead', T.vdot(off, v))
        ctx.eq('reference point is the centre', d['envelope reference_position'], c)
        dist = T.vnorm(off)
        ctx.ge0('long half-axis reaches the margin behind the agent', T.sub(x[0], T.add(dist, m)))
        for k in range(3):
            ctx.ge0('half-axis %d covers the margin' % k, T.sub(x[k], m))
            ctx.ge0('half-axis %d is positive' % k, x[k], strict=True)
        for k in (1, 2):
            ctx.ge0('first half-axis is the longest (%d)' % k, T.sub(x[0], x[k]))
        ctx.eq('envelope margin does not count twice', d['envelope safety_margin'], T.VZERO)
        # at rest
        a = s.new('Agent', s.i.new('State', [p, s.quat('qA')]), m)
        d = s.attrs(a)
        ctx.eq('at rest the envelope is centred on the agent', d['envelope position'], p)
        # planar heading
        vx, vy = T.atom('vx'), T.atom('vy')
        v = T.vec3(vx, vy, ZERO)
        a = s.new('Agent', s.i.new('State', [p, s.quat('qA'), v, T.vatom('wA')]), m)
        d = s.attrs(a)
        h = T.mvec(d['envelope orientation'], T.ev(0))
        u = T.vunit(v)
        ctx.eq('longest half-axis points along the heading', [T.mul(T.vcomp(h, 0), T.vcomp(u, 1)), T.vcomp(h, 2)],
               [T.mul(T.vcomp(h, 1), T.vcomp(u, 0)), ZERO])
        ctx.ge0('longest half-axis points ahead', T.vdot(h, T.vunit(v)))
        off = T.vsub(d['envelope position'], p)
        # a moving agent looks ahead by a fixed share of its direction, whatever the speed
        k = T.vdot(off, T.vunit(v))
        sp = T.atom('speed', pos=True)
        for x, y in ((3, 4), (-5, 12), (1, 0), (-1, 0), (0, 1), (0, -1), (-8, -15), (24, -7)):
            ctx.ge0('an agent moving along (%d, %d) looks ahead at any speed' % (x, y), T.subst_base(k, {T.single_base(vx): T.mul(sp, T.const(x)), T.single_base(vy): T.mul(sp, T.const(y))}), strict=True)
