"""Infeasibility of a conjunction of linear comparisons (monomials as unknowns): Fourier-Motzkin over the rationals."""
from . import terms as T
from .terms import F


def infeasible(con, maxvars=14, maxrows=600):
    """True only when the comparisons assumed in con contradict each other"""
    rows = []          # ({monomial: coeff}, const, strict):  sum + const < / <= 0
    monos = set()

    def lin(q, r):
        d, k = {}, -r
        for m, c in q.t:
            if m == ():
                k += c
            else:
                d[m] = d.get(m, 0) + c
        return d, k
    for a, v in con.asg.items():
        if a.kind not in ('lt', 'le', 'eq'):
            continue
        d, k = lin(*a.args)
        neg = {m: -c for m, c in d.items()}
        if a.kind == 'eq':
            if v:
                rows += [(d, k, False), (neg, -k, False)]
            else:
                continue
        elif v:
            rows.append((d, k, a.kind == 'lt'))
        else:
            rows.append((neg, -k, a.kind == 'le'))
        monos |= set(d)
    if len(monos) > maxvars or not rows:
        return False
    for m in monos:
        try:
            lo, hi, ls, hs = T.bounds(T._mkP({m: F(1)}))
        except Exception:
            continue
        if lo is not None:
            rows.append(({m: F(-1)}, lo, ls))
        if hi is not None:
            rows.append(({m: F(1)}, -hi, hs))
    while True:
        left = set()
        for d, k, st in rows:
            if not d and (k > 0 or k == 0 and st):
                return True
            left |= set(d)
        rows = [r for r in rows if r[0]]
        if not left:
            return False
        best = min(left, key=lambda m: sum(1 for r in rows if r[0].get(m, 0) > 0) * sum(1 for r in rows if r[0].get(m, 0) < 0))
        up = [r for r in rows if r[0].get(best, 0) > 0]
        dn = [r for r in rows if r[0].get(best, 0) < 0]
        rows = [r for r in rows if best not in r[0]]
        if len(up) * len(dn) + len(rows) > maxrows:
            return False
        seen = set()
        for d1, k1, s1 in up:
            for d2, k2, s2 in dn:
                a, b = d1[best], -d2[best]
                d = {}
                for m, c in d1.items():
                    d[m] = d.get(m, 0) + c * b
                for m, c in d2.items():
                    d[m] = d.get(m, 0) + c * a
                d = {m: c for m, c in d.items() if c}
                k, st = k1 * b + k2 * a, s1 or s2
                key = (tuple(sorted((hash(m), c) for m, c in d.items())), k, st)
                if key not in seen:
                    seen.add(key)
                    rows.append((d, k, st))
