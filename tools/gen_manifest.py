#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
    'C14': 'abstract interpretation over a finite universe of names',
    'C15': 'abstract interpretation over a finite universe of names',
    'C16': 'abstract interpretation with predicate abstraction of the intersection relation',
    'C18': 'abstract interpretation of constructors; dominating-test analysis of downcasts over the AST',
    'C19': 'override-completeness analysis of the class hierarchy and dispatch through abstract interpretation',
    'C20': 'definite-initialisation analysis on value graphs',
    'C23': 'polarity (monotonicity) analysis on value graphs',
    'C26': 'ownership and lifetime analysis (virtual destructors, owning fields, escaping references)',
    'C30': 'compile and link witnesses for every header',
    'C33': 'non-interference and symmetry laws on value graphs (abstract interpretation, normal forms)',
    'C13': 'effect analysis: heap comparison in abstract interpretation plus static-storage and randomness queries',
}
NA = {
    'C40': 'global convergence of a nonlinear dynamical system quantifies over infinite trajectories; no static argument in reach bounds it',
    'C41': 'impenetrability along time-discretised trajectories depends on step sizes and run-time positions no sound static argument here bounds',
    'C42': 'the intersection test samples 100 boundary points; completeness is a real-geometry statement over sampled data (and not true between samples)',
    'C43': 'continuity of the weighted combination in all state variables needs analysis of limits at singular configurations beyond normal forms and intervals',
    'C44': 'execution time is a run-time quantity of the hardware and the allocator; the source gives no bound',
}


def main():
    checks = []
    na = []
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l)
        i = d['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        if not os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        m = importlib.import_module('checks.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3-vt check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'static analysis: ' + TECH.get(i, 'abstract interpretation to value graphs, normal-form and interval decision of laws'),
            'level': getattr(m, 'LEVEL', 'other'),
            'level_note': m.EXPLANATION,
        })
    out = {'version': 1, 'setup_cmd': 'python3-vt -c "from engine import load; load.extractor()"', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
