"""C16 Aggregation partitions obstacles into their connected components."""
import itertools
import random
from engine.ctx import *
from checks.scenes import *

EXPLANATION = ('Abstract interpretation of the aggregation over every intersection relation: the pairwise test is replaced by the given relation '
               '(all of them up to the stated number of obstacles, families of larger ones), positions stay symbolic, and the groups found are compared '
               'with the connected components; what every hull was last computed from is recorded and compared with the final members.')
ASSUMPTIONS = ['the pairwise test of two ellipsoids is symmetric (its answer is replaced by the relation)', 'number of obstacles as stated']
AGG = 'Aggregation::aggregate_obstacles'
NAMES = ('d', 'a', 'c', 'b', 'f', 'e', 'h', 'g')


def one(ctx, obs, names, table, how='list'):
    s = Sc(ctx, hooks=relation_hooks(table))
    objs = {n: mellipsoid(s, ID, n, rot=False, moving=False, curv=False, margin=False, obsname=n) for n in names}
    r = s.val(None, AGG, Seq([s.sp(objs[n]) for n in names]))
    return partition_bad(s, listed(s, r), objs, table)


def show(names, table):
    return 'order %s, intersecting %s' % (' '.join(names), ' '.join(sorted('-'.join(sorted(p)) for p in table)) or 'nothing')


def merges(thorough):
    """relations over n obstacles in list order: pairs i-m(i) found groups in the order of their first elements; one link joins two groups;
    a last obstacle then comes to any element"""
    out = []
    n = 7
    pos = range(n - 1)
    for firsts in itertools.permutations(range(3, 6)):
        # groups {0,x} {1,y} {2,z}
        pairs = [(0, firsts[0]), (1, firsts[1]), (2, firsts[2])]
        for g, h in ((0, 1), (0, 2), (1, 2)):
            for a in pairs[g]:
                for b in pairs[h]:
                    for late in pos:
                        out.append((n, tuple(pairs + [(min(a, b), max(a, b)), (late, 6)])))
    if thorough:
        # four groups, two links
        for firsts in itertools.permutations(range(4, 8)):
            pairs = [(k, firsts[k]) for k in range(4)]
            for (g, h), (k, l) in itertools.combinations(list(itertools.combinations(range(4), 2)), 2):
                out.append((9, tuple(pairs + [(pairs[g][1], pairs[h][1]), (pairs[k][0], pairs[l][1]), (pairs[(g + k) % 4][1], 8)])))
    for n, links in out:
        names = ('d', 'a', 'c', 'b', 'f', 'e', 'h', 'g', 'i')[:n]
        yield names, links


def run(ctx):
    top = 5 if ctx.thorough else 4
    for n in range(0, top + 1):
        with ctx.sc('all relations over %d obstacles' % n, AGG, 'Aggregate::add_primitive', 'Aggregate::update_hull'):
            names = NAMES[:n]
            pairs = list(itertools.combinations(names, 2))
            bad, count = None, 0
            for bits in itertools.product((False, True), repeat=len(pairs)):
                table = {frozenset(p): True for p, b in zip(pairs, bits) if b}
                count += 1
                bad = one(ctx, None, names, table)
                if bad:
                    bad = '%s: %s' % (show(names, table), bad)
                    break
                del ctx.interps[:-1]
            ctx.check('groups are the connected components (%d relations)' % count, bad is None, bad)
            ctx.extra['relations'] = ctx.extra.get('relations', 0) + count
    with ctx.sc('merges among several groups', AGG):
        # pairs that found separate groups, a link that joins two of them, and obstacles that come to the others later
        bad, count = None, 0
        for names, links in merges(ctx.thorough):
            table = {frozenset((names[x], names[y])): True for x, y in links}
            count += 1
            bad = one(ctx, None, names, table)
            if bad:
                bad = '%s: %s' % (show(names, table), bad)
                break
            del ctx.interps[:-1]
        ctx.check('groups are the connected components (%d relations)' % count, bad is None, bad)
        ctx.extra['relations'] = ctx.extra.get('relations', 0) + count
    rnd = random.Random(ctx.seed)
    for n in ((5, 6) if not ctx.thorough else (6, 7, 8)):
        with ctx.sc('relations over %d obstacles' % n, AGG):
            names = NAMES[:n]
            tables = []
            for _ in range(40 if not ctx.thorough else 150):
                perm = list(names)
                rnd.shuffle(perm)
                kind = rnd.choice(('chain', 'star', 'blocks', 'tree', 'pairs'))
                t = {}
                if kind == 'chain':
                    t = {frozenset(p): True for p in zip(perm, perm[1:])}
                elif kind == 'star':
                    t = {frozenset((perm[0], x)): True for x in perm[1:]}
                elif kind == 'blocks':
                    k = rnd.randrange(1, n)
                    t = {frozenset(p): True for b in (perm[:k], perm[k:]) for p in zip(b, b[1:])}
                elif kind == 'tree':
                    t = {frozenset((perm[j], perm[rnd.randrange(j)])): True for j in range(1, n) if rnd.random() < 0.85}
                else:
                    t = {frozenset(p): True for p in zip(perm[::2], perm[1::2])}
                tables.append(t)
            bad = None
            for t in tables:
                bad = one(ctx, None, names, t)
                if bad:
                    bad = '%s: %s' % (show(names, t), bad)
                    break
                del ctx.interps[:-1]
            ctx.check('groups are the connected components (%d relations)' % len(tables), bad is None, bad)
            ctx.extra['relations'] = ctx.extra.get('relations', 0) + len(tables)
    with ctx.sc('an aggregate among the obstacles', AGG):
        for links in ((), (('x', 'a'),), (('x', 'b'),), (('x', 'a'), ('x', 'b')), (('x', 'y'),), (('x', 'a'), ('x', 'y')), (('x', 'a'), ('y', 'b'))):
            for order in (0, 1, 2):
                table = {frozenset(p): True for p in links}
                s = Sc(ctx, hooks=relation_hooks(table))
                o = {n: mellipsoid(s, ID, n, rot=False, moving=False, curv=False, margin=False, obsname=n) for n in ('a', 'b', 'x', 'y')}
                ag = s.new('Aggregate', Seq([s.sp(o['a']), s.sp(o['b'])]), heap=True)
                # the aggregate touches what one of its members touches
                up = {}
                for p in links:
                    up[frozenset('aggregate_a_b' if m in ('a', 'b') else m for m in p)] = True
                objs = {'aggregate_a_b': ag, 'x': o['x'], 'y': o['y']}
                lst = [[ag, o['x'], o['y']], [o['x'], ag, o['y']], [o['y'], o['x'], ag]][order]
                r = s.val(None, AGG, Seq([s.sp(x) for x in lst]))
                b = partition_bad(s, listed(s, r), objs, up)
                ctx.check('links %s, order %d' % (list(links), order), b is None, b)
    with ctx.sc('members themselves', AGG):
        s = Sc(ctx, hooks=relation_hooks({frozenset('ab'): True}))
        o = [mellipsoid(s, ID, n, obsname=n) for n in 'abc']
        st = s.snap(*o)
        r = s.val(None, AGG, Seq([s.sp(x) for x in o]))
        for n, x, y in zip('abc', s.snap(*o), st):
            ctx.attrs_eq('obstacle %s keeps' % n, x, y, skip=('reference_position',) if n in 'ab' else ())
        ctx.returns('returns', s.i)
        ctx.no_events('no invalid element or cast', s.i, ('oob', 'badcast', 'nullderef', 'invalidated', 'dangling'))
