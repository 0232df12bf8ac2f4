"""C30 Public headers stand alone."""
import concurrent.futures as cf
import glob
import os
import re
import subprocess
import tempfile
from engine import load
from engine.ctx import *

EXPLANATION = ('Compile witnesses: for every public header, generated translation units that include it alone, twice, and together with every other header in both orders, and that require the '
               'classes of both to be complete, are type-checked by the compiler.  Two clients that include everything and name every public function are linked with the library: '
               'a definition that is missing, or given twice, is a link error.  The declarations of the classes are compared with the definitions of the program.  Nothing is run.')
ASSUMPTIONS = ['the compiler and the flags of the build of the project', 'third party headers are not analysed']
CXX = ['g++'] + load.FLAGS
THIRD = ('matplotlibcpp.hpp',)


def compiles(d, name, text, obj=False):
    """(worked, first error)"""
    f = os.path.join(d, name + '.cpp')
    open(f, 'w').write(text)
    cmd = CXX + ['-I%s/include' % load.REPO] + (['-O0', '-fPIC', '-c', f, '-o', os.path.join(d, name + '.o')] if obj else ['-fsyntax-only', f])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    return r.returncode == 0, first_error(r.stdout, d)


def first_error(out, d):
    ls = [x for x in out.splitlines() if re.search(r'error|undefined reference|multiple definition|required from here', x)]
    ls = [x for x in ls if 'ld returned' not in x] or out.splitlines()[:1]
    return ls[0].replace(load.REPO + '/', '').replace(d + '/', '')[:300] if ls else 'no output'


def run(ctx):
    inc = os.path.join(load.REPO, 'include')
    headers = sorted(os.path.relpath(h, inc) for h in glob.glob(inc + '/**/*.h*', recursive=True) if os.path.basename(h) not in THIRD)
    ctx.extra['headers'] = headers
    # what a header defines
    classes = {h: [] for h in headers}
    for q, r in ctx.p.records.items():
        h = r['l'].split(':')[0]
        if h.startswith('include/') and h[8:] in classes and '<' not in q:
            classes[h[8:]].append(q)
    users = {}
    with tempfile.TemporaryDirectory(prefix='verif-hdr-') as d, cf.ThreadPoolExecutor(8) as ex:
        ok, err = compiles(d, 'control', '#include <eigen3/Eigen/Core>\n#include <vector>\nint x;\n')
        if not ok:
            raise Undecided('the compiler does not work: ' + err)
        need = lambda h: ''.join('static_assert(sizeof(::%s) > 0, "");\n' % c for c in classes[h])
        name = lambda h: re.sub(r'\W', '_', h)
        jobs = {}
        for h in headers:
            jobs['alone', h] = ex.submit(compiles, d, 'a_' + name(h), '#include "%s"\n%s' % (h, need(h)))
            jobs['twice', h] = ex.submit(compiles, d, 't_' + name(h), '#include "%s"\n#include "%s"\n%s' % (h, h, need(h)))
        for a in headers:
            for b in headers:
                if a != b:
                    jobs[a, b] = ex.submit(compiles, d, 'p_%s_%s' % (name(a), name(b)), '#include "%s"\n#include "%s"\n%s%s' % (a, b, need(a), need(b)))
        for order, hs in (('all headers', headers), ('all headers, in the opposite order', headers[::-1])):
            jobs['all', order] = ex.submit(compiles, d, 'all_%d' % len(jobs), ''.join('#include "%s"\n' % h for h in hs) + ''.join(map(need, headers)))
        # definitions
        for q, r in sorted(ctx.p.records.items()):
            if not r['l'].startswith('include/'):
                continue
            with ctx.sc('class ' + q.split('::')[-1], q):
                for m in r['methods']:
                    if m.get('acc') == 'private' or m.get('deleted') or m.get('pure') or m.get('impl') or m.get('defaulted') or m.get('tmpl'):
                        continue
                    has = m.get('usr') in ctx.p.funcs
                    ctx.check('every function that is declared is defined', has, '%s(%s), declared at %s, has no definition' % (m['q'], ', '.join(m['pt']), m['l']), loc=m['l'])
        # objects of the library and of two clients
        lib = {}
        for k, s in enumerate(load.sources()):
            lib[s] = ex.submit(obj_of, d, 'lib%d' % k, s)
        use = client(ctx, headers)
        cl = [ex.submit(compiles, d, 'client%d' % k, use(k), True) for k in range(2)]
        for h in headers:
            with ctx.sc(h):
                for what in ('alone', 'twice'):
                    ok, err = jobs[what, h].result()
                    ctx.check('compiles when included ' + what, ok, err, loc=where(err, h))
                for b in headers:
                    if b == h:
                        continue
                    # a header that does not even compile alone is reported once
                    if not (jobs['alone', h].result()[0] and jobs['alone', b].result()[0]):
                        continue
                    ok, err = jobs[h, b].result()
                    ctx.check('compiles when included before another header', ok, '%s: %s' % (b, err), loc=where(err, h))
        with ctx.sc('all headers'):
            for (w, order), j in jobs.items():
                if w == 'all' and all(jobs['alone', h].result()[0] for h in headers):
                    ok, err = j.result()
                    ctx.check(order, ok, err, loc=where(err, ''))
        with ctx.sc('link'):
            bad = [(s, j.result()[1]) for s, j in lib.items() if not j.result()[0]]
            for s, err in bad:
                ctx.und('the library compiles', '%s: %s' % (os.path.relpath(s, load.REPO), err))
            cok = [j.result() for j in cl]
            if not all(x[0] for x in cok):
                ctx.und('clients compile', [e for o, e in cok if not o][0])
            if not bad and all(x[0] for x in cok):
                objs = [os.path.join(d, 'lib%d.o' % k) for k in range(len(lib))]
                clo = [os.path.join(d, 'client%d.o' % k) for k in range(2)]
                link(ctx, d, 'the library', objs, True)
                link(ctx, d, 'a program of two units that name every public function', objs + clo, False)


def obj_of(d, name, src):
    r = subprocess.run(CXX + ['-I%s/include' % load.REPO, '-O0', '-fPIC', '-c', src, '-o', os.path.join(d, name + '.o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, first_error(r.stdout, d)


def link(ctx, d, what, objs, shared):
    """symbols of the project: defined exactly once, and every one that is used is defined (the rest of the symbols belong to other libraries)"""
    defs, strong, undef = {}, {}, {}
    for o in objs:
        r = subprocess.run(['nm', '-C', o], stdout=subprocess.PIPE, text=True)
        if r.returncode:
            raise Undecided('nm does not work')
        for l in r.stdout.splitlines():
            m = re.match(r'^[0-9a-f ]{16} (\w) (.*)$', l)
            if not m or 'DynamicObstacleAvoidance' not in m.group(2) or not owned(m.group(2)):
                continue
            t, n = m.groups()
            if t == 'U':
                undef.setdefault(n, o)
            elif t.isupper() or t in 'uvw':
                defs[n] = o
                if t in 'TDBRG':
                    strong.setdefault(n, set()).add(o)
    names = {}
    for n in strong:
        names[n] = strong[n]
    dup = sorted(n for n, os_ in names.items() if len(os_) > 1)
    for n in dup:
        ctx.check('%s: every definition is unique' % what, False, '%s is defined in %d units' % (n, len(names[n])))
    ctx.check('%s: every definition is unique' % what, not dup, '%d functions defined more than once' % len(dup))
    miss = sorted(n for n in undef if n not in defs)
    for n in miss:
        ctx.check('%s: everything that is used is defined' % what, False, '%s is used but defined nowhere' % n)
    ctx.check('%s: everything that is used is defined' % what, not miss, '%d missing' % len(miss))
    ctx.extra['symbols'] = max(ctx.extra.get('symbols', 0), len(defs))


def owned(n):
    """a symbol of the project itself, not an instantiation of another library"""
    n = re.sub(r'^(vtable|typeinfo|typeinfo name|VTT|guard variable) for ', '', n)
    return n.startswith('DynamicObstacleAvoidance::') or n.startswith('operator')


def client(ctx, headers):
    """a unit that includes everything and takes the address of every public function that is not overloaded"""
    lines = []
    k = 0
    for q, r in sorted(ctx.p.records.items()):
        if not r['l'].startswith('include/') or '<' in q:
            continue
        ms = [m for m in r['methods'] if not m.get('ctor') and not m['n'].startswith(('operator', '~'))]
        for m in ms:
            if m.get('acc') != 'public' or m.get('deleted') or m.get('tmpl') or sum(1 for x in ms if x['n'] == m['n']) != 1:
                continue
            lines.append('auto verif_f%d_UNIT = &::%s;' % (k, m['q']))
            k += 1
        if any(m.get('ctor') and m.get('acc') == 'public' and not m.get('deleted') for m in r['methods']):
            lines.append('void verif_d%d_UNIT(::%s* x) { delete x; }' % (k, q))
            k += 1
    over = {}
    for u, f in ctx.p.funcs.items():
        if not f.get('cls') and f.get('proj') and '<' not in f['q'] and not f['n'].startswith('operator') and f['q'].startswith(NS):
            over.setdefault(f['q'], set()).add(u)
    declared = ''
    for h in headers:
        declared += open(os.path.join(load.REPO, 'include', h), errors='replace').read()
    for q, us in sorted(over.items()):
        if len(us) == 1 and re.search(r'\b%s\s*\(' % re.escape(q.split('::')[-1]), declared) and not ctx.p.funcs[list(us)[0]].get('tmpl'):
            lines.append('auto verif_f%d_UNIT = &::%s;' % (k, q))
            k += 1
    ctx.extra['functions_named'] = k
    text = ''.join('#include "%s"\n' % h for h in headers)
    return lambda n: text + '\n'.join(lines).replace('UNIT', 'u%d' % n) + ('\nint main() { return 0; }\n' if n == 0 else '\n')


def where(err, h):
    m = re.search(r'(include/[\w/.]+:\d+)', err or '')
    return m.group(1) if m else 'include/' + h
