"""Obligations, verdicts, evidence and scene building shared by all checks."""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback
from . import libmodel, linear, load, polarity, witness
from . import terms as T
from .terms import P, V, M, Q, BN, TRUE, FALSE, F, ZERO, ONE
from .values import *
from .interp import Interp, Dead, feasible

NS = 'DynamicObstacleAvoidance::'
KNOWN = os.path.join(load.VERIF, 'known_findings.txt')


def contains_unknown(x):
    try:
        for b in T.all_bases(x):
            if b.facts.get('unknown') or b.kind in ('opq', 'vopq'):
                return True
            for a in b.args:
                if isinstance(a, T.Base) and a.facts.get('unknown'):
                    return True
                if isinstance(a, tuple) and any(isinstance(y, T.Base) and y.facts.get('unknown') for y in a):
                    return True
    except RecursionError:
        return True
    return False


def undefs(x):
    return [b for b in T.all_bases(x) if b.facts.get('undef')]


def flat(x):
    """list of native terms of a composite value (for comparisons)"""
    if isinstance(x, (P, V, M, Q, BN)):
        return [x]
    if isinstance(x, (Rec,)):
        return [y for k in sorted(x.f) for y in flat(x.f[k])]
    if isinstance(x, (Seq, Tup)):
        return [y for z in x.items for y in flat(z)]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    if isinstance(x, Arr):
        return list(x.items)
    if isinstance(x, C3):
        return list(x.cols)
    if isinstance(x, RowV):
        return [x.v]
    if isinstance(x, AA):
        return [x.ang, x.axis]
    if isinstance(x, Map):
        return [y for k, v in x.items for y in flat(k) + flat(v)]
    if isinstance(x, (Str, Ptr, It, LV)) or x is None:
        return []
    if isinstance(x, G):
        return [x.c] + flat(x.a) + flat(x.b)
    raise Undecided('value of an unexpected shape (%s)' % type(x).__name__)


def same_value(a, b):
    if a is b or isinstance(a, (Str, list)) and a == b:
        return True
    if isinstance(a, G) and isinstance(b, G):
        return a.c is b.c and same_value(a.a, b.a) and same_value(a.b, b.b)
    if isinstance(a, G):
        return same_value(a.a, b) and same_value(a.b, b)
    if isinstance(b, G):
        return same_value(a, b.a) and same_value(a, b.b)
    return T._same(a, b)


def short(x, n=220):
    try:
        if isinstance(x, (list, tuple)):
            return '[%s]' % '; '.join(short(y, n // max(1, len(x))) for y in x)
        if T.all_bases(x) and len(T.all_bases(x)) > 120:
            return '<%s of %d nodes>' % (type(x).__name__, len(T.all_bases(x)))
        s = repr(x)
    except Exception:
        s = '<%s>' % type(x).__name__
    return s if len(s) <= n else s[:n] + '...'


class TimeUp(BaseException):
    """raised in the analysing thread when the time set for an obligation, a scenario or the run is used up"""


class Interps(list):
    """the interpreters of a run; what was analysed is remembered when one is dropped"""
    gone = (frozenset(), 0, 0)

    def __delitem__(self, k):
        self.gone = self._add(self.gone, self[k] if isinstance(k, slice) else [self[k]])
        list.__delitem__(self, k)

    @staticmethod
    def _add(t, l):
        f, n, m = set(t[0]), t[1], t[2]
        for i in l:
            f |= i.visited
            n += i.steps
            m += 1
        return f, n, m

    def totals(self):
        return self._add(self.gone, self)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.limits = []
        self.worker = None
        self.stop = False
        big = tier == 'thorough'
        self.t_obl, self.t_sc, self.t_all = (300, 1200, 6000) if big else (40, 200, 660)
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []
        self.interps = Interps()
        self.p = None
        self.extra = {}
        self.notes = []
        self.anchor = ()
        self.scname = ''
        self.missing = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def load(self):
        if os.environ.get('VERIF_DEVCACHE'):
            self.p = load.cached()
        else:
            self.p = load.program()

    # ------------------------------------------------------------ time
    @contextlib.contextmanager
    def limit(self, sec):
        dl = time.time() + sec
        self.limits.append(dl)
        try:
            yield dl
        finally:
            if dl in self.limits:
                self.limits.remove(dl)

    def watch(self):
        """main thread: interrupts the analysing thread when a limit is over"""
        import ctypes
        fired = set()
        while self.worker is not None and self.worker.is_alive():
            self.worker.join(0.3)
            now = time.time()
            for dl in list(self.limits):
                if now > dl and dl not in fired:
                    fired.add(dl)
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.worker.ident), ctypes.py_object(TimeUp))
                    break

    def over(self):
        """is the time of the whole run used up?  (a violation found long ago is enough)"""
        t = time.time()
        return t > self.t0 + self.t_all or self.stop

    # ------------------------------------------------------------ verdicts
    def where(self, anchors=None):
        out = []
        for q in anchors or self.anchor:
            fs = self.p.find(q) if self.p else []
            out.append('%s (%s)' % (q, fs[0].get('l')) if fs else q)
        return out

    def _add(self, name, status, detail='', anchors=None, loc=None):
        full = (self.scname + ': ' if self.scname else '') + name
        self.obl.append({'name': full, 'status': status, 'detail': detail, 'where': ([loc] if loc else []) + self.where(anchors)})
        if status == 'refuted' and full not in self.known():
            self.t_all = min(self.t_all, time.time() - self.t0 + 60)
        return status == 'proved'

    def ok(self, name, anchors=None, detail=''):
        return self._add(name, 'proved', detail, anchors)

    def fail(self, name, detail, anchors=None, loc=None):
        return self._add(name, 'refuted', detail, anchors, loc)

    def und(self, name, detail, anchors=None):
        return self._add(name, 'undecided', detail, anchors)

    def check(self, name, cond, detail='', anchors=None, loc=None):
        return self._add(name, 'proved' if cond else 'refuted', '' if cond else detail, anchors, loc)

    def eq(self, name, got, want, anchors=None, con=None, limit=14):
        """got and want have the same value in every case"""
        try:
            a, b = flat(got), flat(want)
        except Undecided as e:
            return self.und(name, str(e), anchors)
        if (len(a) != len(b) or any(type(x) is not type(y) for x, y in zip(a, b))) and any(isinstance(x, V) for x in a + b):
            # the same numbers held as vectors or one by one
            a = [y for x in a for y in ([T.vcomp(x, k) for k in range(3)] if isinstance(x, V) else [x])]
            b = [y for x in b for y in ([T.vcomp(x, k) for k in range(3)] if isinstance(x, V) else [x])]
        if len(a) != len(b) or any(type(x) is not type(y) for x, y in zip(a, b)):
            if contains_unknown(a):
                return self.und(name, 'value not modelled', anchors)
            if len(a) == len(b):
                return self.und(name, 'values held differently: %s and %s' % (short(got), short(want)), anchors)
            return self.fail(name, 'shapes differ: %s instead of %s' % (short(got), short(want)), anchors)
        n = len(self.obl)
        try:
            with self.limit(self.t_obl):
                return self._eq(name, a, b, anchors, con, limit)
        except TimeUp:
            del self.obl[n:]
        try:
            with self.limit(self.t_obl):
                w = witness.separate(a, b, con, 12, self.seed) if not contains_unknown([a, b]) else None
            if w is not None:
                return self.fail(name, 'got %s, expected %s, e.g. for %s' % (short(got), short(want), witness.describe(w, [a, b])), anchors)
        except TimeUp:
            pass
        return self.und(name, 'not decided in the time given', anchors)

    def sep(self, name, got, want, anchors=None, n=30):
        """values too large for normal forms: only refuted by a separating valuation, else undecided"""
        if T._same(got, want):
            return self.ok(name, anchors)
        if contains_unknown([got, want]):
            return self.und(name, 'value not modelled', anchors)
        try:
            with self.limit(self.t_obl):
                w = witness.separate(got, want, None, n, self.seed)
        except TimeUp:
            return self.und(name, 'not decided in the time given', anchors)
        if w is not None:
            return self.fail(name, 'got %s, expected %s, e.g. for %s' % (short(got), short(want), witness.describe(w, [got, want])), anchors)
        return self.und(name, 'too large for a proof by normal forms; no separating valuation', anchors)

    def attrs_eq(self, name, got, want, anchors=None, skip=(), only=None):
        """two sets of reported attributes agree"""
        for k in want:
            if k in skip or only is not None and k not in only:
                continue
            if k not in got:
                self.und('%s: %s' % (name, k), 'not reported', anchors)
                continue
            a, b = got[k], want[k]
            if isinstance(a, G) or isinstance(b, G) or isinstance(a, (Str, list)) or isinstance(b, (Str, list)):
                self.check('%s: %s' % (name, k), same_value(a, b), '%s instead of %s' % (short(a), short(b)), anchors)
            else:
                self.eq('%s: %s' % (name, k), a, b, anchors)

    def _eq(self, name, a, b, anchors, con, limit):
        if con is None and all(T._same(x, y) for x, y in zip(a, b)):
            return self.ok(name, anchors)
        pend = []
        for x, y in zip(a, b):
            if T._same(x, y):
                continue
            n, bad, trunc = 0, [], False
            try:
                for (u, v), c in T.cases((x, y), con, limit):
                    n += 1
                    if not T._same(u, v) and not linear.infeasible(c) and not fractions_same(u, v):
                        bad.append((c, u, v))
                        if len(bad) >= 12:
                            break
            except (T.TooManyCases, RecursionError):
                trunc = True
            if bad or trunc:
                pend.append((x, y, bad, trunc))
        if not pend:
            return self.ok(name, anchors)
        unk = False
        for x, y, bad, trunc in pend:
            if contains_unknown([x, y]):
                unk = True
                continue
            for c, u, v in bad:
                if contains_unknown([u, v]):
                    unk = True
                    continue
                w = witness.separate(u, v, c, 12, self.seed)
                if w is not None:
                    return self.fail(name, 'got %s, expected %s, when %s, e.g. for %s' % (
                        short(u), short(v), self.show_con(c), witness.describe(w, [u, v])), anchors)
            w = witness.separate(x, y, con, 40, self.seed)
            if w is not None:
                return self.fail(name, 'got %s, expected %s, e.g. for %s' % (short(x), short(y), witness.describe(w, [x, y])), anchors)
        return self.und(name, 'value not modelled' if unk else 'normal forms differ, no separating valuation', anchors)

    def show_con(self, c):
        if c is None or not c.asg:
            return 'always'
        return ' and '.join(('' if v else 'not ') + '(%s)' % short(a, 160) for a, v in list(c.asg.items())[:6])

    def true(self, name, bn, anchors=None, con=None, limit=14):
        """bn holds in every consistent case"""
        n = len(self.obl)
        try:
            with self.limit(self.t_obl):
                return self._true(name, bn, anchors, con, limit)
        except TimeUp:
            del self.obl[n:]
        return self.und(name, 'not decided in the time given', anchors)

    def _true(self, name, bn, anchors, con, limit):
        if bn is TRUE and con is None:
            return self.ok(name, anchors)
        bad = []
        trunc = False
        try:
            for y, c in T.cases(bn, con, limit):
                if y is TRUE or c is not None and linear.infeasible(c):
                    continue
                bad.append((y, c))
                if len(bad) >= 12:
                    break
        except (T.TooManyCases, RecursionError):
            trunc = True
        if not bad and not trunc:
            return self.ok(name, anchors)
        if contains_unknown(bn):
            return self.und(name, 'condition not modelled', anchors)
        for y, c in bad:
            for v in witness.valuations([bn], c, 6, self.seed):
                try:
                    if not v.bn(bn):
                        return self.fail(name, 'fails when %s, e.g. for %s' % (self.show_con(c), witness.describe(v, [bn])), anchors)
                except (witness.Bad, ZeroDivisionError, OverflowError):
                    pass
        w = witness.refute(bn, con, 40, self.seed)
        if w is not None:
            return self.fail(name, 'fails e.g. for %s' % witness.describe(w, [bn]), anchors)
        return self.und(name, 'not derivable from the bounds, no separating valuation', anchors)

    def ge0(self, name, p, anchors=None, con=None, strict=False):
        return self.true(name, T.cmp0(p, '>' if strict else '>='), anchors, con)

    def mono(self, name, p, sym, want, anchors=None, con=None):
        """p never decreases ('+') / never increases ('-') / ignores ('0') the symbol sym"""
        b = T.single_base(sym) if isinstance(sym, P) else sym
        d = polarity.mono(p, b, con)
        if d == '0' or d == want:
            return self.ok(name, anchors)
        # piecewise
        if d is None and con is None:
            pass
        if contains_unknown(p):
            return self.und(name, 'value not modelled', anchors)
        n = 0
        for v in witness.scales([p], b, con, 60, self.seed):
            try:
                x0, y0 = v.b(b), v.p(p)
                for dx in (1e-2, 0.3, 2.0):
                    w = witness.Val(v.seed, v.ints)
                    w.mode = v.mode
                    w.set = dict(v.set)
                    w.set[b] = x0 + dx
                    if con is not None and any(bool(w.b(a)) != t for a, t in con.asg.items()):
                        continue
                    y1 = w.p(p)
                    n += 1
                    tol = 1e-9 * (1 + abs(y0) + abs(y1))
                    if want == '+' and y1 < y0 - tol or want == '-' and y1 > y0 + tol or want == '0' and abs(y1 - y0) > tol:
                        return self.fail(name, 'goes from %.6g to %.6g when %s goes from %.4g to %.4g, for %s' % (
                            y0, y1, T.show_base(b), x0, x0 + dx, witness.describe(v, [p])), anchors)
            except (witness.Bad, ZeroDivisionError, OverflowError):
                continue
        return self.und(name, 'polarity %s not derivable, no counter-valuation' % want, anchors)

    def bmono(self, name, c, sym, want, anchors=None, con=None):
        """a condition that is true stays true when the symbol sym grows ('+') or shrinks ('-')"""
        b = T.single_base(sym) if isinstance(sym, P) else sym
        d = polarity.bmono(c, b, con)
        if d == '0' or d == want:
            return self.ok(name, anchors)
        if contains_unknown(c):
            return self.und(name, 'condition not modelled', anchors)
        for v in witness.scales([c], b, con, 120, self.seed):
            try:
                x0, y0 = v.b(b), v.bn(c)
                for dx in (1e-2, 0.1, 0.3, 1.0, 3.0):
                    w = witness.Val(v.seed, v.ints)
                    w.mode = v.mode
                    w.set = dict(v.set)
                    w.set[b] = x0 + dx
                    if con is not None and any(bool(w.b(a)) != t for a, t in con.asg.items()):
                        continue
                    y1 = w.bn(c)
                    if y0 != y1 and y0 == (want == '+') or want == '0' and y0 != y1:
                        return self.fail(name, 'goes from %s to %s when %s goes from %.4g to %.4g, for %s' % (
                            y0, y1, T.show_base(b), x0, x0 + dx, witness.describe(v, [c])), anchors)
            except (witness.Bad, ZeroDivisionError, OverflowError):
                continue
        return self.und(name, 'direction %s not derivable, no counter-valuation' % want, anchors)

    def defined(self, name, x, anchors=None, loc=None):
        """the value does not depend on uninitialised memory"""
        try:
            xs = flat(x)
        except Undecided as e:
            return self.und(name, str(e), anchors)
        us = undefs(xs)
        if not us:
            return self.und(name, 'value not modelled', anchors) if contains_unknown(xs) and any(b.facts.get('unknown') for b in T.all_bases(xs)) else self.ok(name, anchors)
        ys = []
        for y in xs:
            def fb(b):
                return T.atom(('other', b.id)) if b.facts.get('undef') else None
            ys.append(T.subst(y, fb))
        for y, z in zip(xs, ys):
            if T._same(y, z):
                continue
            w = witness.separate(y, z, None, 30, self.seed)
            if w is not None:
                return self.fail(name, 'depends on uninitialised memory (%s): %s' % (', '.join(sorted({str(b.args[0][1]) for b in us})[:3]), short(y)), anchors, loc)
        return self.und(name, 'uninitialised memory occurs in the value, dependence not shown', anchors)

    # ------------------------------------------------------------ scenarios
    @contextlib.contextmanager
    def sc(self, name, *anchors):
        """one scenario; what the engine cannot model is undecided, never an alarm"""
        old = self.scname, self.anchor
        self.scname, self.anchor = name, anchors
        t0 = time.time()
        try:
            with self.limit(min(self.t_sc, max(1, self.t0 + self.t_all - t0))):
                yield
        except TimeUp:
            self.und('scenario', 'not finished in the time given')
        except Undecided as e:
            if not self.definite():
                self.und('scenario', str(e))
        except Dead:
            self.dead()
        except KeyError as e:
            self.missing.append(str(e))
            self.und('scenario', 'entry point missing: %s' % e)
        except (RecursionError, T.TooManyCases) as e:
            self.und('scenario', type(e).__name__)
        except (AttributeError, TypeError, IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.und('scenario', 'engine: %s: %s' % (type(e).__name__, e))
        finally:
            if os.environ.get('VERIF_DEBUG'):
                print('  [%.1f s] %s' % (time.time() - t0, name), flush=True)
            self.scname, self.anchor = old
        if self.over():
            raise TimeUp()

    def definite(self):
        """an analysis that stopped behind an access that is certainly invalid"""
        for k, pc, data, loc, stack in (self.interps[-1].events if self.interps else ()):
            if k in ('oob', 'nullderef', 'invalidated') and pc is TRUE:
                self.fail('accesses', '%s: %s' % (k, short(data)), loc='%s in %s' % (loc, stack[-1] if stack else '?'))
                return True
        return False

    def dead(self):
        i = self.interps[-1] if self.interps else None
        if i is not None and i.throws:
            t = i.throws[-1]
            self.fail('returns', 'every execution ends in an exception (%s)' % t['type'], loc=t['loc'])
        else:
            self.und('scenario', 'no execution reaches the end')

    def interp(self, **kw):
        i = Interp(self.p, **kw)
        self.interps.append(i)
        return i

    def returns(self, name, i, anchors=None, n0=0):
        """no exception on a feasible path"""
        for t in i.throws[n0:]:
            if feasible(t['pc']) and not contains_unknown(t['pc']):
                return self.fail(name, 'throws %s when %s' % (t['type'], short(t['pc'])), anchors, t['loc'])
        return self.ok(name, anchors)

    def no_events(self, name, i, kinds, anchors=None, n0=0):
        for k, pc, data, loc, stack in i.events[n0:]:
            if k in kinds and pc is not FALSE and feasible(pc) and not contains_unknown(pc):
                return self.fail(name, '%s: %s when %s' % (k, short(data), short(pc)), anchors, '%s in %s' % (loc, stack[-1] if stack else '?'))
        return self.ok(name, anchors)

    # ------------------------------------------------------------ end
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith('finding: property=%s ' % self.pid):
                    out.append(l.split('key=', 1)[1].split(' :: ')[0].strip())
        return out

    def finish(self, level, level_explanation, assumptions=()):
        pr = [o for o in self.obl if o['status'] == 'proved']
        rf = [o for o in self.obl if o['status'] == 'refuted']
        un = [o for o in self.obl if o['status'] == 'undecided']
        known = self.known()
        kn = [o for o in rf if o['name'] in known]
        viol = [o for o in rf if o['name'] not in known]
        fns, steps, scenes = self.interps.totals()
        fl = sorted('%s (%s)' % (self.p.funcs[u]['q'], self.p.funcs[u]['l']) for u in fns) if self.p else []
        cov = {
            'explanation': level_explanation,
            'obligations': len(self.obl),
            'discharged': len(pr),
            'undecided': [o['name'] + ' -- ' + o['detail'] for o in un],
            'refuted': [{'rule': o['name'], 'what': o['detail'], 'where': o['where']} for o in rf],
            'discharged_obligations': [o['name'] for o in pr],
            'functions_analysed': fl,
            'functions_analysed_count': len(fl),
            'abstract_steps': steps,
            'scenes': scenes,
            'repository': load.REPO,
            'checker_cmd': 'python3-vt /verif/check.py %s' % self.pid,
            'trusted_base': ['clang 18 front end (AST of the current sources)', 'extractor/extract.cpp',
                             'engine/*.py: abstract interpreter, library model, normal forms'],
        }
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        d = os.path.join(load.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; %d functions analysed' % (
            self.pid, len(self.obl), len(pr), len(un), len(rf), len(fl)))
        for o in un:
            print('  undecided: %s -- %s' % (o['name'], o['detail']))
        for o in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o['name'], o['detail']))
        if viol:
            rp = os.path.join(d, '%s.violation.json' % self.pid)
            with open(rp, 'w') as f:
                json.dump(viol, f, indent=1)
            for o in viol:
                print('  refuted: %s\n    %s\n    at %s' % (o['name'], o['detail'], '; '.join(o['where'])))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not pr:
            print('analysis broken: no obligation of %s could be decided' % self.pid)
            return 2
        return 0


def fractions_same(u, v):
    """equal as fractions: their difference vanishes when its denominators are multiplied out"""
    if not isinstance(u, P) or not isinstance(v, P):
        return False
    try:
        return T.cleared(T.sub(u, v)) is ZERO
    except (RecursionError, Undecided):
        return False


def assume(*bns):
    """constraints from literals (single comparisons or their negations)"""
    c = T.Constr()
    for b in bns:
        if b is TRUE:
            continue
        if b.h is TRUE and b.l is FALSE:
            ok = c.add(b.a, True)
        elif b.h is FALSE and b.l is TRUE:
            ok = c.add(b.a, False)
        else:
            raise Undecided('assumption is not a literal')
        if not ok:
            raise Undecided('contradictory assumptions')
    return c


def finite(x):
    """the value when the final finiteness test does not reject it"""
    def fb(b):
        if b.kind == 'pred' and b.args[0] in ('allFinite', 'isfinite'):
            return TRUE
        if b.kind == 'pred' and b.args[0] in ('hasNaN', 'isnan', 'isinf'):
            return FALSE
        return None
    return T.subst(x, fb)


def lt(a, b):
    return T.cmp0(T.sub(a, b), '<')


def le(a, b):
    return T.cmp0(T.sub(a, b), '<=')


# ---------------------------------------------------------------- scenes
class Sc:
    """objects built through the public interface of the project"""

    def __init__(self, ctx, **kw):
        self.ctx = ctx
        self.i = ctx.interp(**kw)

    def call(self, this, q, *args, n=None, pt=None):
        return self.i.call(q, this, list(args), n=n, pt=pt)

    def val(self, this, q, *args, **kw):
        r = self.call(this, q, *args, **kw)
        return self.i.read(r) if isinstance(r, (LV, LVG)) else r

    def new(self, cls, *args, pt=None, heap=False):
        return self.i.alloc(self.i.new(cls, list(args), pt=pt), 'H' if heap else 'T')

    def read(self, lv):
        return self.i.read(lv)

    def quat(self, name, wpos=True):
        q = T.qunit(name)
        op = q.w[0][0]
        if wpos:
            op.facts['wpos'] = True
            T.base('qcomp', ((op, 1),), 'w').facts['nonneg'] = True
        return q

    def qz(self, name):
        """rotation about the vertical axis"""
        return T.qaa(T.atom(name), T.ev(2))

    def pose(self, name, rot=True):
        q = self.quat('q' + name) if rot is True else (rot if rot is not None and rot is not False else T.QID)
        return T.vatom('p' + name), q

    def state(self, name, rot=True, moving=True):
        p, q = self.pose(name, rot)
        v = T.vatom('v' + name) if moving else T.VZERO
        w = T.vatom('w' + name) if moving else T.VZERO
        return self.i.new('State', [p, q, v, w])

    def assign(self, this, src):
        cls = self.i.read(this).cls
        for m in self.i.p.records[cls]['methods']:
            if m.get('copyassign') and not m.get('impl') and not m.get('dflt'):
                return self.i.call_fn(self.i.p.funcs.get(m['usr']), m, this, [src])
        self.i.implicit_assign({'cls': cls}, this, [src])
        return this

    def copy(self, src):
        return self.i.alloc(self.i.copyval(self.i.read(src)))

    def qattr(self, q):
        """a reported quaternion as the rotation it stands for"""
        if not isinstance(q, Q):
            return q
        return libmodel.q_matrix(q)

    def attrs(self, lv, kind=None):
        """everything an object reports, by name"""
        o = self.i.read(lv)
        kind = kind or o.cls.split('::')[-1]
        out = {}

        def g(cls, name, *a, **kw):
            return self.val(lv, '%s::get_%s' % (cls, name), *a, n=len(a))
        if kind in ('Pose', 'State', 'Agent'):
            cls, base = kind, ['position', 'orientation'] + (['linear_velocity', 'angular_velocity'] if kind != 'Pose' else [])
        else:
            cls, base = 'Obstacle', ['position', 'orientation', 'linear_velocity', 'angular_velocity', 'reference_position', 'safety_margin',
                                     'name', 'type']
        for n in base:
            v = g(cls, n)
            out[n] = self.qattr(v) if n == 'orientation' else v
        if kind == 'Agent':
            out['safety_margin'] = g(cls, 'safety_margin')
            e = self.call(lv, 'Agent::get_envelope')
            for k, v in self.attrs(e).items():
                out['envelope ' + k] = v
        if kind == 'Ellipsoid':
            for n in ('axis_lengths', 'curvature_factor'):
                out[n] = g('Ellipsoid', n)
        if kind == 'Aggregate':
            ps = self.val(lv, 'Aggregate::get_primitives')
            if isinstance(ps, Seq):
                out['members'] = [p.lv for p in ps.items]
        return out

    def snap(self, *lvs):
        return [self.attrs(l) for l in lvs]

    def hidden(self, lv):
        """the whole reachable representation of an object"""
        return self.i.read(lv)

    def posvec(self, name):
        v = T.vatom(name, pos=True)
        for k in range(3):
            T.vcomp(v, k)
            T.base('comp', ((), T.base('vec', name)), k).facts['pos'] = True
        return v

    def nnvec(self, name):
        v = T.vatom(name, nonneg=True)
        for k in range(3):
            T.base('comp', ((), T.base('vec', name)), k).facts['nonneg'] = True
        return v

    def ellipsoid(self, name, rot=True, moving=True, curv=True, margin=True, obsname=None, ref=True, thin=False):
        st = self.state(name, rot, moving)
        args = [Str(obsname or ('o' + name)), st]
        args.append(T.vatom('r' + name) if ref else self.i.read_position(st) if False else T.vatom('p' + name))
        args.append(self.nnvec('m' + name) if margin else T.VZERO)
        o = self.new('Ellipsoid', *args, pt=['basic_string', 'State', 'Vector3d' if False else 'Matrix<double, 3, 1>', 'Array<double, 3, 1>'], heap=True)
        a = self.posvec('a' + name)
        if not thin:
            for k in range(3):
                b = T.base('comp', ((), T.base('vec', 'a' + name)), k)
                b.facts['lo'] = F(1, 1000)
        self.call(o, 'Ellipsoid::set_axis_lengths', a, n=1)
        if curv:
            c = self.posvec('c' + name)
            for k in range(3):
                T.base('comp', ((), T.base('vec', 'c' + name)), k).facts['lo'] = F(1)
            self.call(o, 'Ellipsoid::set_curvature_factor', c, n=1)
        return o

    def agent(self, name='', rot=True, moving=True, margin=True):
        st = self.state('A' + name, rot, moving)
        m = T.atom('mA' + name, nonneg=True) if margin else ZERO
        return self.new('Agent', st, m)

    def sp(self, lv):
        if lv.root[0] == 'H':
            self.i.owned[lv.root] = TRUE
        return Ptr(lv, 'shared')

    def env(self, obstacles, aggregated=FALSE, update=True):
        e = self.new('Environment', aggregated)
        for o in obstacles:
            self.call(e, 'Environment::add_obstacle', self.sp(o))
        if update:
            self.call(e, 'Environment::update')
        return e


def rewind(s, fn):
    """runs fn(); when every execution ends in an exception, returns its record and continues from the state it left"""
    i = s.i
    depth, nf = i.depth, len(i.frames)
    pc = i.s.pc
    n0 = len(i.throws)
    try:
        return None, fn()
    except Dead:
        if len(i.throws) == n0:
            raise
        t = i.throws[-1]
        i.s = t['state'].copy(pc)
        i.depth = depth
        del i.frames[nf:]
        return t, None
