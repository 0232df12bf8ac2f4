"""C03 Every stored orientation is a unit quaternion of the rotation asked for."""
from engine.ctx import *

EXPLANATION = ('Abstract interpretation with a symbolic quaternion k*u (k of either sign, u unit): the norm factor and the rotation word of every '
               'reported orientation are computed; the norm has to be 1 and the word that of u, on every path that stores an orientation.')
ASSUMPTIONS = ['real arithmetic', 'given quaternions are not zero']


def quats():
    q = T.qatom('Q')
    yield 'long or short', q, Q(ONE, q.w)
    yield 'negated', Q(T.neg(q.s), q.w), Q(ONE, q.w)


def unit(ctx, s, name, q, want):
    """q is a unit quaternion and describes the rotation of want"""
    if isinstance(q, G):
        return ctx.und(name, 'conditional object')
    ctx.eq(name + ': unit norm', T.mul(q.s, q.s), ONE)
    if q.w == want.w:
        ctx.ok(name + ': rotation asked for')
    else:
        ctx.eq(name + ': rotation asked for', T.mword(q.w), T.mword(want.w))


def run(ctx):
    for nm, q, u in quats():
        with ctx.sc('construction, %s' % nm, 'Pose::Pose', 'State::State'):
            s = Sc(ctx)
            p = T.vatom('p')
            xs = [T.vcomp(p, k) for k in range(3)]
            unit(ctx, s, 'Pose(position, orientation)', s.val(s.new('Pose', p, q), 'Pose::get_orientation'), u)
            st = s.new('State', p, q)
            unit(ctx, s, 'State(position, orientation)', s.val(st, 'State::get_orientation'), u)
            st = s.new('State', p, q, T.vatom('v'), T.vatom('w'))
            unit(ctx, s, 'State(position, orientation, velocities)', s.val(st, 'State::get_orientation'), u)
            st = s.new('State', s.i.new('Pose', [p, q]))
            unit(ctx, s, 'State(pose)', s.val(st, 'State::get_orientation'), u)
            o = s.new('Ellipsoid', Str('o'), s.read(st), pt=['basic_string', 'State', 'double'])
            unit(ctx, s, 'Ellipsoid(state)', s.val(o, 'Obstacle::get_orientation'), u)
            o2 = s.new('Ellipsoid', o)
            unit(ctx, s, 'Ellipsoid copy', s.val(o2, 'Obstacle::get_orientation'), u)
            a = s.new('Agent', s.read(st))
            unit(ctx, s, 'Agent(state)', s.val(a, 'Agent::get_orientation'), u)
            b = s.new('Agent', a)
            unit(ctx, s, 'Agent copy', s.val(b, 'Agent::get_orientation'), u)
            pc = s.copy(s.new('Pose', p, q))
            unit(ctx, s, 'Pose copy', s.val(pc, 'Pose::get_orientation'), u)
        with ctx.sc('mutation, %s' % nm, 'Pose::set_orientation', 'State::set_orientation', 'Obstacle::set_orientation', 'Agent::set_orientation'):
            s = Sc(ctx)
            p = s.new('Pose', T.vatom('p'), s.quat('old'))
            s.call(p, 'Pose::set_orientation', q)
            unit(ctx, s, 'Pose::set_orientation', s.val(p, 'Pose::get_orientation'), u)
            st = s.i.alloc(s.state('x'))
            s.call(st, 'State::set_orientation', q)
            unit(ctx, s, 'State::set_orientation', s.val(st, 'State::get_orientation'), u)
            s.call(st, 'State::set_pose', s.read(p))
            unit(ctx, s, 'State::set_pose', s.val(st, 'State::get_orientation'), u)
            o = s.ellipsoid('0')
            s.call(o, 'Obstacle::set_orientation', q)
            unit(ctx, s, 'Obstacle::set_orientation', s.val(o, 'Obstacle::get_orientation'), u)
            s.call(o, 'Obstacle::set_pose', s.i.new('Pose', [T.vatom('p'), q]))
            unit(ctx, s, 'Obstacle::set_pose', s.val(o, 'Obstacle::get_orientation'), u)
            a = s.agent()
            s.call(a, 'Agent::set_orientation', q)
            unit(ctx, s, 'Agent::set_orientation', s.val(a, 'Agent::get_orientation'), u)
            s.call(a, 'Agent::set_pose', s.i.new('Pose', [T.vatom('p'), q]))
            unit(ctx, s, 'Agent::set_pose', s.val(a, 'Agent::get_orientation'), u)
            t = s.new('Pose', T.vatom('t'), q)
            a = s.agent()
            qa = s.val(a, 'Agent::get_orientation')
            s.call(a, 'Agent::transform', t)
            unit(ctx, s, 'Agent::transform', s.val(a, 'Agent::get_orientation'), T.qmul(u, qa))
            unit(ctx, s, 'Agent::transformed', s.val(s.i.alloc(s.val(a, 'Agent::transformed', t)), 'Agent::get_orientation'), T.qmul(u, T.qmul(u, qa)))
        with ctx.sc('algebra, %s' % nm, 'Pose::operator*', 'Pose::operator*=', 'Pose::inverse'):
            s = Sc(ctx)
            x = s.new('Pose', T.vatom('p'), q)
            r = T.qunit('R')
            y = s.new('Pose', T.vatom('t'), r)
            unit(ctx, s, 'inverse', s.val(s.i.alloc(s.val(x, 'Pose::inverse')), 'Pose::get_orientation'), Q(ONE, T.word_inv(u.w)))
            unit(ctx, s, 'product', s.val(s.i.alloc(s.val(x, 'Pose::operator*', y, pt=['Pose'])), 'Pose::get_orientation'), T.qmul(u, r))
            unit(ctx, s, 'product (right)', s.val(s.i.alloc(s.val(y, 'Pose::operator*', x, pt=['Pose'])), 'Pose::get_orientation'), T.qmul(r, u))
            s.call(x, 'Pose::operator*=', y)
            unit(ctx, s, 'in place product', s.val(x, 'Pose::get_orientation'), T.qmul(u, r))
    with ctx.sc('construction from seven numbers', 'Pose::Pose'):
        s = Sc(ctx)
        cs = [T.atom('q' + n) for n in 'wxyz']
        o = s.new('Pose', *[T.atom('p' + n) for n in 'xyz'] + cs)
        q = s.val(o, 'Pose::get_orientation')
        ctx.eq('unit norm', T.mul(q.s, q.s), ONE)
        ctx.eq('rotation of the components in the order w, x, y, z', T.mword(q.w), T.mword(T.q4(*cs).w))
    with ctx.sc('defaults', 'Pose::Pose', 'State::State', 'Obstacle::Obstacle', 'Agent::Agent'):
        s = Sc(ctx)
        xs = [T.atom('x'), T.atom('y'), T.atom('z')]
        p = T.vec3(*xs)
        for n, o, g in [('Pose()', s.new('Pose'), 'Pose'), ('Pose(position)', s.new('Pose', p), 'Pose'), ('Pose(x, y, z)', s.new('Pose', *xs), 'Pose'),
                        ('State()', s.new('State'), 'State'), ('State(position)', s.new('State', p, pt=['Matrix']), 'State'),
                        ('State(x, y, z)', s.new('State', *xs), 'State'), ('Agent()', s.new('Agent'), 'Agent'),
                        ('Obstacle(name)', s.new('Obstacle', Str('o')), 'Obstacle'),
                        ('Obstacle(name, x, y, z)', s.new('Obstacle', Str('o'), *xs), 'Obstacle'),
                        ('Ellipsoid(name)', s.new('Ellipsoid', Str('o'), pt=['basic_string', 'double']), 'Obstacle'),
                        ('Ellipsoid(name, x, y, z)', s.new('Ellipsoid', Str('o'), *xs), 'Obstacle')]:
            unit(ctx, s, n, s.val(o, g + '::get_orientation'), T.QID)
