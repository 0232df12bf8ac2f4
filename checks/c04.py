"""C04 Poses form a group acting on points."""
from engine.ctx import *

EXPLANATION = ('The group and action laws are equations between value graphs of the pose operators on symbolic poses and points, decided on '
               'normal forms of rotation words and vectors (complete for these laws); frame conditions compare the operands before and after.')
ASSUMPTIONS = ['real arithmetic', 'stored orientations are unit quaternions (C03)']


def run(ctx):
    def setup():
        s = Sc(ctx)
        ps = [s.new('Pose', T.vatom('p' + n), s.quat('q' + n)) for n in 'abc']
        return s, ps

    def mul(s, x, y):
        return s.i.alloc(s.val(x, 'Pose::operator*', y, pt=['Pose']))

    def act(s, x, v):
        return s.val(x, 'Pose::operator*', v, pt=['Matrix<double, 3, 1>'])

    def inv(s, x):
        return s.i.alloc(s.val(x, 'Pose::inverse'))

    def same(name, s, x, y):
        ctx.attrs_eq(name, s.attrs(x), s.attrs(y))
    OP, OPE, INV = 'Pose::operator*', 'Pose::operator*=', 'Pose::inverse'
    v = T.vatom('v')
    with ctx.sc('action', OP):
        s, (a, b, c) = setup()
        st = s.snap(a, b, c)
        ctx.eq('(a b) v = a (b v)', act(s, mul(s, a, b), v), act(s, a, act(s, b, v)))
        same('(a b) c = a (b c)', s, mul(s, mul(s, a, b), c), mul(s, a, mul(s, b, c)))
        e = s.new('Pose')
        ctx.eq('identity acts trivially', act(s, e, v), v)
        same('e a = a', s, mul(s, e, a), a)
        same('a e = a', s, mul(s, a, e), a)
        for n, x, y in zip('abc', st, s.snap(a, b, c)):
            ctx.attrs_eq('operand %s untouched' % n, y, x)
        t = T.vatom('t')
        sh = s.new('Pose', t)
        ctx.eq('a translation shifts', act(s, sh, v), T.vadd(v, t))
        r = s.new('Pose', T.VZERO, s.quat('qr'))
        ctx.eq('a rotation keeps lengths', T.vnorm2(act(s, r, v)), T.vnorm2(v))
        ctx.eq('acts as rotation then translation', act(s, a, v), T.vadd(T.qrot(s.val(a, 'Pose::get_orientation'), v), s.val(a, 'Pose::get_position')))
    with ctx.sc('inverse', INV, OP):
        s, (a, b, c) = setup()
        st = s.snap(a, b)
        e = s.new('Pose')
        same('a a^-1 = e', s, mul(s, a, inv(s, a)), e)
        same('a^-1 a = e', s, mul(s, inv(s, a), a), e)
        same('(a^-1)^-1 = a', s, inv(s, inv(s, a)), a)
        same('(a b)^-1 = b^-1 a^-1', s, inv(s, mul(s, a, b)), mul(s, inv(s, b), inv(s, a)))
        ctx.eq('a^-1 (a v) = v', act(s, inv(s, a), act(s, a, v)), v)
        ctx.eq('a (a^-1 v) = v', act(s, a, act(s, inv(s, a), v)), v)
        same('e^-1 = e', s, inv(s, e), e)
        for n, x, y in zip('ab', st, s.snap(a, b)):
            ctx.attrs_eq('operand %s untouched' % n, y, x)
    with ctx.sc('in place', OPE, OP):
        s, (a, b, c) = setup()
        want = s.attrs(mul(s, a, b))
        b0 = s.attrs(b)
        a0 = s.copy(a)
        r = s.call(a, OPE, b)
        ctx.attrs_eq('a *= b is a b', s.attrs(a), want)
        ctx.check('returns its left operand', r == a, 'returns something else')
        ctx.attrs_eq('right operand untouched', s.attrs(b), b0)
        s.call(a, OPE, c)
        ctx.attrs_eq('repeated', s.attrs(a), s.attrs(mul(s, mul(s, a0, b), c)))
        s, (a, b, c) = setup()
        want = s.attrs(mul(s, a, a))
        s.call(a, OPE, a)
        ctx.attrs_eq('a *= a is a a', s.attrs(a), want)
        s, (a, b, c) = setup()
        i = inv(s, a)
        s.call(a, OPE, i)
        ctx.attrs_eq('a *= a^-1 is e', s.attrs(a), s.attrs(s.new('Pose')))
    with ctx.sc('poses built from numbers', 'Pose::Pose', OP):
        s = Sc(ctx)
        a = s.new('Pose', *[T.atom('p' + n) for n in 'xyz'])
        e = s.new('Pose')
        same('a a^-1 = e', s, mul(s, a, inv(s, a)), e)
        ctx.eq('acts by shifting', act(s, a, v), T.vadd(v, T.vec3(*[T.atom('p' + n) for n in 'xyz'])))
        same('the identity is the pose at the origin', s, e, s.new('Pose', T.VZERO, T.QID))
