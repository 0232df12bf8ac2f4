"""C26 Ownership: destroyable through any handle, nothing leaked or freed twice."""
from engine.ctx import *
from engine.interp import Dead, feasible
from checks import c13
from checks.scenes import *

EXPLANATION = ('Ownership analysis. On the classes: every polymorphic class has a virtual destructor, and a class with a raw pointer that its destructor deletes declares '
               'or deletes both copies. By abstract interpretation of every constructor, copy, assignment, mutator, query and of the life of an environment: every object of '
               'the free store gets exactly one owner on every path, nothing is deleted that is owned, was deleted or was never allocated, no function returns or stores a '
               'pointer, reference or iterator to one of its locals, temporaries or by-value parameters, and no two objects own each other. Exceptions are thrown by value.')
ASSUMPTIONS = ['members of the standard library own what they hold', 'loops over samples are analysed with few samples']
CLASSES = ('Pose', 'State', 'Agent', 'Obstacle', 'Ellipsoid', 'StarShapeHull', 'Aggregate', 'Environment')
PLAIN = ('Matrix<', 'Array<', 'Quaternion<', 'AngleAxis<', 'Transform<', 'DiagonalMatrix<', 'Translation<', 'Hyperplane<', 'ParametrizedLine<', 'PermutationMatrix<')


def nodes(x):
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def targets(v, path='', seen=None):
    """pointers held in a value: (path, kind, lvalue)"""
    if isinstance(v, Rec):
        for k, x in v.f.items():
            yield from targets(x, path + '.' + k.lstrip('#'))
    elif isinstance(v, (Seq, Tup)):
        for x in v.items:
            yield from targets(x, path + '[]')
    elif isinstance(v, Map):
        for k, x in v.items:
            yield from targets(k, path + '[]')
            yield from targets(x, path + '[]')
    elif isinstance(v, G):
        yield from targets(v.a, path)
        yield from targets(v.b, path)
    elif isinstance(v, Ptr):
        yield from lvs(v.lv, path, v.kind)
    elif isinstance(v, It):
        yield from lvs(v.lv, path, 'iterator')
    elif isinstance(v, (LV, LVG)):
        yield from lvs(v, path, 'reference')


def lvs(lv, path, kind):
    if isinstance(lv, LVG):
        yield from lvs(lv.a, path, kind)
        yield from lvs(lv.b, path, kind)
    elif isinstance(lv, LV):
        yield path, kind, lv


def escapes(s, n0, result, roots):
    """pointers held by the scene or the result to something that is gone: locals, temporaries made after number n0"""
    i = s.i
    todo, seen, bad = list(roots), set(), []

    def look(v, what):
        for path, kind, lv in targets(v):
            if lv.root[0] == 'L' or (lv.root[0] == 'T' and lv.root[1] > n0):
                bad.append('%s%s holds a %s to a dead object' % (what, path, kind))
            elif kind == 'foreign' and (lv.root[0] != 'H' or lv.path):
                bad.append('%s%s is a smart pointer without ownership to an object it may outlive' % (what, path))
            elif lv.root[0] == 'H':
                todo.append(lv.root)
    if result is not None and not isinstance(result, (LV, LVG)):
        look(result, 'the result')
    while todo:
        r = todo.pop()
        if r in seen or r not in i.s.st:
            continue
        seen.add(r)
        v = i.s.st[r]
        look(v, v.cls.split('::')[-1] if isinstance(v, Rec) else 'an object')
    return bad


def cycles(s, root):
    """does an object own itself, through the objects it owns?"""
    st = s.i.s.st

    def succ(r):
        return {lv.root for _, kind, lv in targets(st.get(r)) if kind == 'shared' and lv.root[0] == 'H'}
    todo, seen = list(succ(root)), set()
    while todo:
        r = todo.pop()
        if r == root:
            return True
        if r not in seen:
            seen.add(r)
            todo += succ(r)
    return False


def leaks(s, result, roots):
    """objects made by new that are neither owned nor deleted nor reachable at the end"""
    out = []
    reach, todo = set(), list(roots)
    for v in [result]:
        todo += [lv.root for _, _, lv in targets(v)]
    while todo:
        r = todo.pop()
        if r in reach or r not in s.i.s.st:
            continue
        reach.add(r)
        todo += [lv.root for _, _, lv in targets(s.i.s.st[r])]
    for r, pc, loc, what in s.i.raws:
        if r in reach:
            continue
        own = s.i.owned.get(r, FALSE)
        if feasible(T.b_and(pc, T.b_not(own))):
            out.append('%s allocated at %s is never released' % (what, loc))
    return out


def judge(ctx, s, name, n0, e0, result=None, roots=None):
    roots = [k for k in s.i.s.st if k[0] == 'G' or k[0] in 'HT' and k[1] <= n0] if roots is None else roots
    bad = [data if isinstance(data, str) else short(data) for k, pc, data, loc, st in s.i.events[e0:] if k in ('dangling', 'ownership') and pc is not FALSE and feasible(pc)]
    bad += escapes(s, n0, result, roots)
    bad += leaks(s, result, roots)
    ctx.check(name + ': one owner, nothing dead referenced', not bad, '; '.join(sorted(set(bad))[:3]))


def mark(s):
    return s.i.nroot, len(s.i.events)


def classes(ctx):
    p = ctx.p
    for q, r in sorted(p.records.items()):
        if not q.startswith(NS):
            continue
        cls = q[len(NS):]
        with ctx.sc('class ' + cls, cls + '::' + cls.split('::')[-1]):
            if r.get('poly') or any(q in x['bases'] for x in p.records.values()):
                ctx.check('destroyed through a handle to a base, the whole object is destroyed', bool(r.get('vdtor')),
                          '%s has virtual functions or derived classes, but no virtual destructor' % q, loc=r.get('l'))
            dt = next((p.funcs.get(m['usr']) for m in r['methods'] if m.get('dtor') and not m.get('impl') and p.funcs.get(m['usr'])), None)
            gone = set()
            if dt is not None:
                gone = {x['f'] for n in nodes(dt['body']) if n['k'] == 'delete' for x in nodes(n['e']) if x['k'] == 'member' and x.get('fc') == q}
            for f in r['fields']:
                t = f['t']
                if t.endswith('*') and f['n'] in gone:
                    for what, key in (('copy constructor', 'implcopyctor'), ('copy assignment', 'implcopyassign')):
                        own = not r.get(key)
                        ctx.check('%s: an own %s, the destructor deletes it' % (f['n'], what), own, 'two objects would delete the same %s' % f['n'], loc=f.get('l'))
                    if not r.get('implcopyctor'):
                        ctx.ok('%s: released by the destructor' % f['n'])


def allocations(ctx):
    """every new is owned at once, or is the business of the interpretation below"""
    with ctx.sc('allocations', 'Environment::update', 'Aggregation::aggregate_obstacles'):
        n = 0
        for u, f in sorted(ctx.p.funcs.items()):
            if not f.get('q', '').startswith(NS):
                continue
            n += 1
            for x in nodes(f.get('body')):
                if x['k'] == 'throw' and any(y['k'] == 'new' for y in nodes(x.get('e'))) and (x.get('tt') or '').rstrip().endswith('*'):
                    ctx.fail('%s throws a pointer' % f['q'][len(NS):], 'the exception is allocated with new and nobody releases it', loc=x['l'])
            rt = f.get('rt', '')
            t = rt.replace('const ', '')
            if t.startswith('Eigen::') and not t[7:].startswith(PLAIN) and not rt.endswith('&'):
                loc_ids = {}
                for y in nodes(f.get('body')):
                    if y['k'] == 'decl':
                        for v in y['d']:
                            if not v.get('ref') and not v.get('static') and 'Eigen::' in v.get('t', '') and 'id' in v:
                                loc_ids[v['id']] = v['n']
                for y in f['ps']:
                    if not y.get('ref') and 'Eigen::' in y.get('t', ''):
                        loc_ids[y['id']] = y['n']
                for y in nodes(f.get('body')):
                    if y['k'] == 'ret':
                        for z in nodes(y.get('e')):
                            if z['k'] == 'ref' and z.get('id') in loc_ids:
                                ctx.fail('%s returns an expression over its local %s' % (f['q'][len(NS):], loc_ids[z['id']]),
                                         'the result is of type %s, which refers to its operands' % t[:60], loc=y['l'])
        ctx.ok('%d functions: exceptions are thrown by value, no expression over locals is returned' % n)


def run(ctx):
    classes(ctx)
    allocations(ctx)
    hooks = dict(NOHULL)
    hooks[NS + 'Ellipsoid::sample_from_parameterization'] = c13.few_samples
    for cls in CLASSES:
        with ctx.sc('constructors and copies of ' + cls, '%s::%s' % (cls, cls)):
            for m, d in ctors(ctx, cls):
                s = Sc(ctx, hooks=hooks)
                n0, e0 = mark(s)
                try:
                    o, args, _ = construct(s, cls, m, d)
                    judge(ctx, s, sig(m, d), n0, e0, None, [o.root])
                    n0, e0 = mark(s)
                    c = copy_of(s, o, cls)
                    if c is None:
                        continue
                    judge(ctx, s, sig(m, d) + ', copied', n0, e0, None, [o.root, c.root])
                    c2, _, _ = construct(s, cls, ctors(ctx, cls)[0][0], 0)
                    n0, e0 = mark(s)
                    if ctx.p.records[NS + cls].get('implcopyassign') is not None or any(x['n'] == 'operator=' for x in ctx.p.records[NS + cls]['methods']):
                        s.assign(c2, o)
                        judge(ctx, s, sig(m, d) + ', assigned', n0, e0, None, [o.root, c2.root])
                        s.assign(c2, c2)
                        judge(ctx, s, sig(m, d) + ', assigned to itself', n0, e0, None, [o.root, c2.root])
                except Undecided as e:
                    ctx.und(sig(m, d), str(e))
        with ctx.sc('mutators of ' + cls, '%s::%s' % (cls, cls)):
            for m in mutators(ctx, cls):
                s = Sc(ctx, hooks=hooks)
                try:
                    c0, d0 = ctors(ctx, cls)[-1]
                    o, _, _ = construct(s, cls, c0, d0)
                    n0, e0 = mark(s)
                    for k in range(2):
                        r, _ = apply(s, o, m, 'm%d' % k)
                    judge(ctx, s, sig(m), n0, e0, r, [o.root])
                except Dead:
                    continue
                except Undecided as e:
                    ctx.und(sig(m), str(e))
    getters(ctx, hooks)
    for name, fn, f in c13.queries() + c13.heavy():
        with ctx.sc('query: ' + name, fn):
            s, o = c13.build(ctx)
            s.i.hooks[NS + 'Ellipsoid::sample_from_parameterization'] = c13.few_samples
            n0, e0 = mark(s)
            r = f(s, o, 0)
            judge(ctx, s, 'called', n0, e0, r)
    for name, fn, f in c13.drawings():
        with ctx.sc('drawing: ' + name, fn):
            s, o = c13.build(ctx)
            s.i.sample = True
            n0, e0 = mark(s)
            f(s, o, 0)
            judge(ctx, s, 'called', n0, e0)
    with ctx.sc('products of poses', 'Pose::operator*='):
        s = Sc(ctx)
        p, q = [s.new('Pose', T.vatom('p%d' % k), s.quat('q%d' % k)) for k in range(2)]
        for op in ('Pose::operator*=', 'Pose::operator='):
            n0, e0 = mark(s)
            s.call(p, op, q)
            judge(ctx, s, op, n0, e0)
    environment(ctx)


def getters(ctx, hooks):
    with ctx.sc('what is returned by reference or pointer', 'Obstacle::get_pose', 'Agent::get_envelope', 'Environment::get_obstacle_list'):
        for cls in CLASSES:
            for m in ctx.p.records[NS + cls]['methods']:
                f = ctx.p.funcs.get(m.get('usr'))
                if f is None or m.get('acc') != 'public' or m.get('ctor') or not f['rt'].endswith(('&', '*')) or m['n'].startswith('operator'):
                    continue
                if any('ostream' in t for t in m['pt']):
                    continue
                s = Sc(ctx, hooks=hooks)
                try:
                    c0, d0 = ctors(ctx, cls)[-1]
                    o, _, _ = construct(s, cls, c0, d0)
                    n0, e0 = mark(s)
                    r, _ = apply(s, o, m)
                    judge(ctx, s, '%s::%s' % (cls, m['n']), n0, e0, None, [o.root])
                    for _, kind, lv in lvs(r.lv if isinstance(r, Ptr) else r, '', 'reference'):
                        gone = lv.root[0] == 'L' or lv.root[0] == 'T' and lv.root[1] > n0
                        ctx.check('%s::%s: refers to something that outlives the call' % (cls, m['n']), not gone, 'reference to a local or a temporary', loc=m['l'])
                except Undecided as e:
                    ctx.und('%s::%s' % (cls, m['n']), str(e))


def environment(ctx):
    """the life of an environment: added, merged, removed, merged again"""
    names = ['a', 'b', 'c', 'd']
    for agg in (TRUE, FALSE):
        with ctx.sc('life of an environment, %s' % ('merging' if agg is TRUE else 'not merging'), 'Environment::update', 'Environment::add_obstacle', 'Environment::remove_obstacle',
                    'Aggregation::aggregate_obstacles'):
            table = {frozenset(x): TRUE for x in (('a', 'b'), ('b', 'c'), ('c', 'd'))}
            s = Sc(ctx, hooks=relation_hooks(table))
            obs = {n: mellipsoid(s, ID, n, obsname=n, curv=False, rot=False) for n in names}
            env = s.new('Environment', agg)
            n0, e0 = mark(s)
            for step, what in (('add', 'a'), ('add', 'c'), ('update', None), ('add', 'b'), ('update', None), ('remove', 'b'), ('update', None), ('add', 'd'), ('update', None)):
                if step == 'add':
                    s.call(env, 'Environment::add_obstacle', s.sp(obs[what]))
                elif step == 'remove':
                    s.call(env, 'Environment::remove_obstacle', Str(what), pt=['basic_string'])
                else:
                    s.call(env, 'Environment::update')
                judge(ctx, s, step + (' ' + what if what else ''), n0, e0)
            for what in obs:
                if what == 'b':
                    continue
                n0, e0 = mark(s)
                r = s.call(env, 'Environment::operator[]', Str(what))
                judge(ctx, s, 'look-up of ' + what, n0, e0)
                gone = any(lv.root[0] == 'L' or lv.root[0] == 'T' and lv.root[1] > n0 for _, _, lv in lvs(r, '', 'reference'))
                ctx.check('look-up of %s: refers to something that outlives the call' % what, not gone, 'reference to a local or a temporary')
            own = [r for r in s.i.s.st if r[0] == 'H' and cycles(s, r)]
            ctx.check('no object owns itself through the objects it owns', not own, '%d objects are never destroyed' % len(own))
