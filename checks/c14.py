"""C14 Environment registry: unique names, typed errors, no partial change."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Typestate analysis of the registry: the abstract environment is driven through every history of additions, removals, look-ups, '
               'updates and option changes up to the stated length over three names and two obstacles per name (obstacles of unknown kind), and '
               'each abstract outcome (object returned, exception class raised, registry afterwards) is compared with the reference registry.')
ASSUMPTIONS = ['names are compared as whole strings', 'histories up to the stated length; obstacles do not change their name while registered']
NF, AE = 'ObstacleNotInEnvironmentException', 'ObstacleAlreadyExistsException'
ADD, REM, AT = 'Environment::add_obstacle', 'Environment::remove_obstacle', 'Environment::operator[]'


class Walk:
    def __init__(self, ctx, names, agg, touch=FALSE):
        self.ctx = ctx
        self.s = Sc(ctx, hooks=dict(NOHULL))
        self.s.i.hooks[NS + 'Ellipsoid::is_intersecting_ellipsoid'] = lambda i, this, vals, fn: touch
        self.names = names
        self.obs = {(n, k): mellipsoid(self.s, ID, '%d%d' % (j, k), rot=False, moving=False, curv=False, obsname=n) for j, n in enumerate(names) for k in range(2)}
        self.e = self.s.new('Environment', agg)
        self.count = 0
        self.bad = None

    def op(self, o, reg, hist):
        """apply one operation; returns the reference registry afterwards"""
        s, kind = self.s, o[0]
        self.count += 1

        def bad(what):
            if self.bad is None:
                self.bad = '%s: %s' % (' '.join('%s(%s)' % (h[0], ','.join(map(str, h[1:]))) for h in hist), what)
        if kind == 'add':
            t, r = rewind(s, lambda: s.call(self.e, ADD, s.sp(self.obs[o[1], o[2]])))
            if o[1] in reg:
                if t is None:
                    bad('no exception for a registered name')
                elif not t['type'].endswith(AE):
                    bad('raises %s' % t['type'])
                return reg
            if t is not None:
                bad('raises %s' % t['type'])
            return dict(reg, **{o[1]: o[2]})
        if kind == 'remove':
            t, r = rewind(s, lambda: s.call(self.e, REM, Str(o[1])))
            if o[1] not in reg:
                if t is None:
                    bad('no exception for an unknown name')
                elif not t['type'].endswith(NF):
                    bad('raises %s' % t['type'])
                return reg
            if t is not None:
                bad('raises %s' % t['type'])
            return {k: v for k, v in reg.items() if k != o[1]}
        if kind == 'update':
            t, r = rewind(s, lambda: s.call(self.e, 'Environment::update'))
            if t is not None:
                bad('raises %s' % t['type'])
            return reg
        if kind == 'option':
            s.call(self.e, 'Environment::set_aggregated', o[1])
            return reg
        if kind == 'lookup':
            t, r = rewind(s, lambda: s.val(self.e, AT, Str(o[1])))
            if o[1] in reg:
                if t is not None:
                    bad('raises %s' % t['type'])
                elif not isinstance(r, Ptr) or r.lv != self.obs[o[1], reg[o[1]]]:
                    bad('another object')
            elif t is None:
                bad('finds something under an unknown name')
            elif not t['type'].endswith(NF):
                bad('raises %s' % t['type'])
            return reg

    def visit(self, ops, depth, reg, hist):
        """every look-up now, then every continuation"""
        s = self.s
        for n in self.names + ('zz',):
            self.op(('lookup', n), reg, hist + [('lookup', n)])
            if self.bad:
                return
        if depth == 0:
            return
        st0 = s.i.s
        for o in ops:
            s.i.s = st0.copy()
            reg2 = self.op(o, reg, hist + [o])
            if self.bad:
                return
            self.visit(ops, depth - 1, reg2, hist + [o])
            if self.bad:
                return
        s.i.s = st0


def run(ctx):
    depth = 5 if ctx.thorough else 4
    for agg in (TRUE, FALSE):
        for names, touch in ((('a', 'b'), FALSE), (('a', 'b'), TRUE), (('', 'aggregate'), FALSE), (('ab', 'a'), TRUE), (('a', 'a '), FALSE), (('aggregate_a', 'a'), FALSE), (('n' * 300 + 'a', 'n' * 300 + 'b'), FALSE)):
            with ctx.sc('histories over names %s, aggregated %s, %s' % ([n if len(n) < 30 else '%d characters, last %s' % (len(n), n[-1]) for n in names], agg is TRUE, 'touching' if touch is TRUE else 'apart'), ADD, REM, AT):
                w = Walk(ctx, names, agg, touch)
                ops = [('add', n, k) for n in names for k in range(2)] + [('remove', n) for n in names] + [('remove', 'zz'), ('update',), ('option', FALSE if agg is TRUE else TRUE)]
                w.visit(ops, depth, {}, [])
                ctx.check('every outcome is that of the reference registry (%d operations)' % w.count, w.bad is None, w.bad)
                ctx.extra['operations'] = ctx.extra.get('operations', 0) + w.count
    with ctx.sc('many names', ADD, REM, AT):
        names = ('k', 'b', 'zed', 'aggregate_a_b', 'Obstacle', ' a', 'a ', 'A', 'a', 'envelope', 'a_b', 'long name ' * 9, 'long name ' * 9 + '1', '1' + 'long name ' * 9, '0', '00', 'a\tb', 'a\nb', 'ä')
        w = Walk(ctx, names, TRUE)
        reg, hist = {}, []
        for n in names:
            for o in (('add', n, 0), ('add', n, 1)) + ((('update',),) if len(reg) < 12 else ()):
                reg = w.op(o, reg, hist + [o])
                hist.append(o)
        w.visit([], 0, reg, hist)
        for n in names[::2] + names[1::2]:
            for o in (('remove', n), ('remove', n), ('lookup', n)):
                reg = w.op(o, reg, hist + [o])
                hist.append(o)
            w.visit([], 0, reg, hist)
        ctx.check('every outcome is that of the reference registry', w.bad is None, w.bad)
    with ctx.sc('exceptions', AT):
        for n in (NF, AE):
            r = [x for x in ctx.p.records if x.endswith('::' + n)]
            ctx.check('%s is a standard exception' % n, bool(r) and any('std::' in b or derives_std(ctx, b) for b in ctx.p.records[r[0]]['bases']), 'it is not')
            s = Sc(ctx)
    with ctx.sc('obstacles themselves', ADD, REM):
        s = Sc(ctx)
        o = [mellipsoid(s, ID, str(k)) for k in range(2)]
        st = s.snap(*o)
        e = s.env(o)
        s.call(e, REM, Str('o0'))
        s.call(e, 'Environment::update')
        for k, (x, y) in enumerate(zip(s.snap(*o), st)):
            ctx.attrs_eq('obstacle %d is left alone' % k, x, y)


def derives_std(ctx, b):
    return b.startswith('std') or any(derives_std(ctx, x) for x in ctx.p.records.get(b, {}).get('bases', ()))
