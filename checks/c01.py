"""C01 Agents are values."""
from engine.ctx import *

EXPLANATION = ('Abstract interpretation of the copy constructor, the copy assignment and the transformations of Agent for symbolic agents; '
               'heap cells are tracked by identity, so a shared envelope shows as a change of the other agent after any mutator.')
ASSUMPTIONS = ['real arithmetic', 'agents built through the constructors of the class']

MUT = [('set_safety_margin', lambda s, k: [T.atom('nm' + k, nonneg=True)]),
       ('set_pose', lambda s, k: [s.new('Pose', T.vatom('np' + k), s.quat('nq' + k))]),
       ('set_position', lambda s, k: [T.vatom('npos' + k)]),
       ('set_orientation', lambda s, k: [s.quat('nqq' + k)]),
       ('set_linear_velocity', lambda s, k: [T.vatom('nv' + k)]),
       ('set_angular_velocity', lambda s, k: [T.vatom('nw' + k)]),
       ('transform', lambda s, k: [s.new('Pose', T.vatom('tp' + k), s.quat('tq' + k))])]


def mk_copy(s, a):
    return s.new('Agent', a)


def mk_assign(s, a):
    b = s.agent('b')
    s.assign(b, a)
    return b


def mk_assign_default(s, a):
    b = s.new('Agent')
    s.assign(b, a)
    return b


def mk_chain(s, a):
    b = s.agent('b')
    c = s.agent('c')
    s.assign(b, a)
    s.assign(c, b)
    return c


def mk_bycopy(s, a):
    return s.copy(a)


WAYS = [('copy construction', mk_copy, 'Agent::Agent'), ('assignment', mk_assign, 'Agent::operator='),
        ('assignment to a default agent', mk_assign_default, 'Agent::operator='), ('copy by value', mk_bycopy, 'Agent::Agent'),
        ('chained assignment', mk_chain, 'Agent::operator=')]


def run(ctx):
    for name, mk, anchor in WAYS:
        with ctx.sc(name, anchor):
            s = Sc(ctx)
            a = s.agent('a')
            before = s.attrs(a)
            b = mk(s, a)
            ctx.attrs_eq('copy reports the source', s.attrs(b), before)
            ctx.attrs_eq('source untouched', s.attrs(a), before)
            n0 = len(s.i.events)
            rec = s.i.s.copy()
            for m, args in MUT:
                for who in ('copy', 'source'):
                    s.i.s = rec.copy()
                    x, y = (b, a) if who == 'copy' else (a, b)
                    s.call(x, 'Agent::' + m, *args(s, '1'), n=1)
                    ctx.attrs_eq('%s of the %s leaves the other agent alone' % (m, who), s.attrs(y), before,
                                 anchors=[anchor, 'Agent::' + m])
                # the copy keeps the envelope rule
                s.i.s = rec.copy()
                x = args(s, '1')
                s.call(a, 'Agent::' + m, *x, n=1)
                s.call(b, 'Agent::' + m, *x, n=1)
                ctx.attrs_eq('same reaction of copy and source to %s' % m, s.attrs(b), s.attrs(a), anchors=[anchor, 'Agent::' + m])
            # the copy outlives the source
            s.i.s = rec.copy()
    with ctx.sc('self assignment', 'Agent::operator='):
        s = Sc(ctx)
        a = s.agent('a')
        before = s.attrs(a)
        s.assign(a, a)
        ctx.attrs_eq('nothing changes', s.attrs(a), before)
    with ctx.sc('two copies of one agent', 'Agent::Agent'):
        s = Sc(ctx)
        a = s.agent('a')
        b, c = s.new('Agent', a), s.new('Agent', a)
        before = s.attrs(c)
        for m, args in MUT:
            s.call(b, 'Agent::' + m, *args(s, m), n=1)
        ctx.attrs_eq('changing one leaves the other alone', s.attrs(c), before)
    with ctx.sc('transformed', 'Agent::transformed', 'Agent::transform'):
        s = Sc(ctx)
        a = s.agent('a')
        before = s.attrs(a)
        p = s.new('Pose', T.vatom('tp'), s.quat('tq'))
        b = s.i.alloc(s.val(a, 'Agent::transformed', p))
        got = s.attrs(b)
        ctx.attrs_eq('source untouched', s.attrs(a), before)
        np = s.val(p, 'Pose::operator*', s.val(a, 'Agent::get_position'), pt=['Matrix<double, 3, 1>'])
        ctx.eq('position is transformed', got['position'], np)
        q = s.val(p, 'Pose::get_orientation')
        ctx.eq('orientation is transformed', got['orientation'], T.mmul(s.qattr(q), before['orientation']))
        ctx.attrs_eq('everything else is kept', got, before, only=('linear_velocity', 'angular_velocity', 'safety_margin'))
        c = s.new('Agent', a)
        s.call(c, 'Agent::set_pose', s.val(b, 'Agent::get_pose'))
        ctx.attrs_eq('envelope follows from the pose', got, s.attrs(c))
        rec = s.i.s.copy()
        for m, args in MUT:
            for x, y, w in ((b, a, before), (a, b, got)):
                s.i.s = rec.copy()
                s.call(x, 'Agent::' + m, *args(s, '2'), n=1)
                ctx.attrs_eq('%s of %s leaves the other alone' % (m, 'the result' if x is b else 'the source'), s.attrs(y), w)
        s.i.s = rec
        s.call(a, 'Agent::transform', p)
        ctx.attrs_eq('in place and out of place agree', s.attrs(a), got)
