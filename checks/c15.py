"""C15 Updating the environment lists every registered obstacle exactly once."""
import itertools
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of the registry and its update under every intersection relation over the stated obstacles and over histories of '
               'additions, removals, option changes and updates: after every update the list is compared object by object with the registered '
               'obstacles (aggregates expanded), aggregates are checked against the connected components.')
ASSUMPTIONS = ['the pairwise test of two ellipsoids is replaced by a given symmetric relation', 'number of obstacles and length of histories as stated']
UP, ADD, REM = 'Environment::update', 'Environment::add_obstacle', 'Environment::remove_obstacle'
NAMES = ('d', 'a', 'c', 'b')


def lst(s, e):
    r = s.val(e, 'Environment::get_obstacle_list')
    return listed(s, r)


def plain_bad(s, lvs, objs):
    if len(lvs) != len(objs) or set(lvs) != set(objs.values()):
        return 'the list is not made of the %d registered objects' % len(objs)
    return None


def scene(s, names=NAMES):
    return {n: mellipsoid(s, ID, n, rot=False, moving=False, curv=False, margin=False, obsname=n) for n in names}


def after(s, e, objs, table, agg):
    l = lst(s, e)
    return partition_bad(s, l, objs, table) if agg else plain_bad(s, l, objs)


def reach_bad(s, e, objs):
    for n, o in objs.items():
        r = s.val(e, 'Environment::operator[]', Str(n))
        if not isinstance(r, Ptr) or r.lv != o:
            return '%s no longer answers to its name' % n
    return None


def run(ctx):
    for agg in (True, False):
        for n in range(0, 5):
            with ctx.sc('%d obstacles, %s' % (n, 'aggregated' if agg else 'separate'), UP):
                pairs = list(itertools.combinations(NAMES[:n], 2))
                bad, count = None, 0
                for bits in itertools.product((False, True), repeat=len(pairs)):
                    table = {frozenset(p): True for p, b in zip(pairs, bits) if b}
                    s = Sc(ctx, hooks=relation_hooks(table))
                    objs = scene(s, NAMES[:n])
                    e = s.env(list(objs.values()), TRUE if agg else FALSE)
                    bad = after(s, e, objs, table, agg) or reach_bad(s, e, objs)
                    s.call(e, UP)
                    bad = bad or after(s, e, objs, table, agg) and 'second update: ' + after(s, e, objs, table, agg)
                    count += 1
                    if bad:
                        bad = 'intersecting %s: %s' % (sorted(map(sorted, table)), bad)
                        break
                    del ctx.interps[:-1]
                ctx.check('lists every registered obstacle once (%d relations)' % count, bad is None, bad)
                ctx.extra['relations'] = ctx.extra.get('relations', 0) + count
    # histories: the relation also changes between updates
    ops = [('add', 'a'), ('add', 'b'), ('add', 'c'), ('remove', 'a'), ('remove', 'b'), ('touch', 'ab'), ('touch', 'bc'), ('option',)]
    depth = 5 if ctx.thorough else 4
    for agg0 in (True, False):
        for start in ((), ('a',), ('a', 'b')):
            with ctx.sc('histories from %s, %s' % (list(start), 'aggregated' if agg0 else 'separate'), UP, ADD, REM):
                table = {}
                s = Sc(ctx, hooks=relation_hooks(table))
                objs = scene(s, 'abc')
                e = s.new('Environment', TRUE if agg0 else FALSE)
                for n in start:
                    s.call(e, ADD, s.sp(objs[n]))
                res = {'bad': None, 'n': 0}

                def visit(d, reg, agg, hist, every):
                    st1 = s.i.s
                    if not every:
                        s.i.s = st1.copy()
                    if every or hist:
                        s.call(e, UP)
                        res['n'] += 1
                        b = after(s, e, {n: objs[n] for n in reg}, table, agg) or reach_bad(s, e, {n: objs[n] for n in reg})
                        if b:
                            res['bad'] = '%s, update %s: %s' % (' '.join(hist), 'after each' if every else 'at the end', b)
                    if not every:
                        s.i.s = st1
                    if d == 0 or res['bad']:
                        return
                    st0, t0 = s.i.s, dict(table)
                    for o in ops:
                        if o[0] == 'add' and o[1] in reg or o[0] == 'remove' and o[1] not in reg:
                            continue
                        s.i.s = st0.copy()
                        reg2, agg2 = reg, agg
                        if o[0] == 'add':
                            s.call(e, ADD, s.sp(objs[o[1]]))
                            reg2 = reg + (o[1],)
                        elif o[0] == 'remove':
                            s.call(e, REM, Str(o[1]))
                            reg2 = tuple(x for x in reg if x != o[1])
                        elif o[0] == 'touch':
                            k = frozenset(o[1])
                            if table.pop(k, None) is None:
                                table[k] = True
                        else:
                            agg2 = not agg
                            s.call(e, 'Environment::set_aggregated', TRUE if agg2 else FALSE)
                        visit(d - 1, reg2, agg2, hist + [''.join(o)], every)
                        table.clear()
                        table.update(t0)
                        if res['bad']:
                            return
                    s.i.s = st0

                visit(depth, start, agg0, [], True)
                # several changes between two updates
                if not res['bad']:
                    table.clear()
                    s.call(e, UP)
                    visit(depth - 1, start, agg0, [], False)
                ctx.check('every update lists every registered obstacle once (%d updates)' % res['n'], res['bad'] is None, res['bad'])
                ctx.extra['updates'] = ctx.extra.get('updates', 0) + res['n']
    with ctx.sc('another object under the same name', UP, ADD, REM):
        for agg in (True, False):
            for links in ((), ('ab',), ('ab', 'bc')):
                for order in (('a',), ('b',), ('a', 'b'), ('c', 'b', 'a')):
                    table = {frozenset(p): True for p in links}
                    s = Sc(ctx, hooks=relation_hooks(table))
                    objs = scene(s, 'abc')
                    new = {n: mellipsoid(s, ID, n + n, rot=False, moving=False, curv=False, margin=False, obsname=n) for n in 'abc'}
                    e = s.env(list(objs.values()), TRUE if agg else FALSE)
                    for n in order:
                        s.call(e, REM, Str(n))
                        s.call(e, ADD, s.sp(new[n]))
                        objs[n] = new[n]
                    s.call(e, UP)
                    b = after(s, e, objs, table, agg) or reach_bad(s, e, objs)
                    ctx.check('%s replaced, links %s, %s' % (''.join(order), list(links), 'aggregated' if agg else 'separate'), b is None, b)
                    del ctx.interps[:-1]
    with ctx.sc('obstacles that changed their name', UP):
        for agg in (True, False):
            for touch in (TRUE, FALSE):
                for names in (('x', 'x', 'x'), ('b', 'a', 'c'), ('a', 'a', 'b'), ('', 'b', 'c'), ('c', 'c', 'c')):
                    s = Sc(ctx, hooks=dict(NOHULL))
                    s.i.hooks[NS + 'Ellipsoid::is_intersecting_ellipsoid'] = lambda i, this, vals, fn: touch
                    objs = scene(s, 'abc')
                    e = s.env(list(objs.values()), TRUE if agg else FALSE)
                    for o, n in zip(objs.values(), names):
                        s.call(o, 'Obstacle::set_name', Str(n))
                    s.call(e, UP)
                    m = [x for o in lst(s, e) for x in leaves(s, o)]
                    ok = len(m) == 3 and set(m) == set(objs.values())
                    ctx.check('to %s, %s, %s' % (list(names), 'aggregated' if agg else 'separate', 'touching' if touch is TRUE else 'apart'), ok,
                              'the list is made of %d objects, not of the 3 registered ones' % len(m))
                    del ctx.interps[:-1]
    with ctx.sc('a registered aggregate', UP):
        for agg in (True, False):
            for links in ((), (('x', 'a'),), (('x', 'y'),), (('x', 'b'), ('y', 'a'))):
                table = {frozenset(p): True for p in links}
                s = Sc(ctx, hooks=relation_hooks(table))
                o = {n: mellipsoid(s, ID, n, rot=False, moving=False, curv=False, margin=False, obsname=n) for n in ('a', 'b', 'x', 'y')}
                ag = s.new('Aggregate', Seq([s.sp(o['a']), s.sp(o['b'])]), heap=True)
                e = s.env([ag, o['x'], o['y']], TRUE if agg else FALSE)
                objs = {'aggregate_a_b': ag, 'x': o['x'], 'y': o['y']}
                up = {frozenset('aggregate_a_b' if m in ('a', 'b') else m for m in p): True for p in links}
                b = after(s, e, objs, up, agg) or reach_bad(s, e, objs)
                ctx.check('links %s, %s' % (list(links), 'aggregated' if agg else 'separate'), b is None, b)
    with ctx.sc('obstacles of unknown kind', UP):
        s = Sc(ctx)
        os, a, e = abs_scene(s, 3)
        b = plain_bad(s, lst(s, e), {i: o for i, o in enumerate(os)})
        ctx.check('are listed themselves without aggregation', b is None, b)
    with ctx.sc('the obstacles themselves', UP):
        for agg in (True, False):
            s = Sc(ctx, hooks=relation_hooks({frozenset('ab'): True}))
            o = [mellipsoid(s, ID, n, obsname=n) for n in 'abc']
            st = s.snap(*o)
            e = s.env(o, TRUE if agg else FALSE)
            for n, x, y in zip('abc', s.snap(*o), st):
                ctx.attrs_eq('obstacle %s keeps, %s' % (n, 'aggregated' if agg else 'separate'), x, y, skip=('reference_position',) if agg and n in 'ab' else ())
            ctx.returns('returns', s.i)
            ctx.no_events('no invalid element or cast', s.i, ('oob', 'badcast', 'nullderef', 'invalidated', 'dangling'))
    with ctx.sc('default option', UP):
        s = Sc(ctx, hooks=relation_hooks({frozenset('ab'): True}))
        objs = scene(s, 'abc')
        e = s.new('Environment')
        for o in objs.values():
            s.call(e, ADD, s.sp(o))
        v = s.val(e, 'Environment::is_aggregated')
        s.call(e, UP)
        b = after(s, e, objs, {frozenset('ab'): True}, v is TRUE)
        ctx.check('agrees with what is reported', b is None, b)
