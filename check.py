#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by symbolic execution of the real code
   check.py --replay <file>              run one recorded counterexample on the native build (ASan)
   check.py --setup                      build the symbolic executor and its run-time support"""
import sys, os, re, json, subprocess, time, glob, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
B = os.path.join(V, 'build', 'symx')
SYMX = os.path.join(B, 'symx')
CLANG = 'clang++-18'
IRF = ['-O1', '-fsized-deallocation', '-DNDEBUG', '-g1', '-fno-exceptions', '-fno-threadsafe-statics', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-include', V + '/symx/noext.h', '-Wno-everything']
NATF = ['-O1', '-fsized-deallocation', '-g1', '-DNDEBUG', '-rdynamic', '-Wno-everything']
JOBS = int(os.environ.get('SX_JOBS', '8'))
TOTAL = {'quick': int(os.environ.get('SX_BUDGET', '780')), 'thorough': 5400}

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def setup():
    src = sorted(glob.glob(V + '/symx/*'))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    st = os.path.join(B, 'stamp')
    if os.path.exists(st) and open(st).read() == h and os.path.exists(SYMX): return
    r = sh(['sh', V + '/symx/build.sh', B])
    if r.returncode or not os.path.exists(B + '/sxrt.bc'): print(r.stdout); sys.exit(2)
    open(st, 'w').write(h)

class TU: pass
def load(prop):
    tus = []
    for f in sorted(glob.glob(f'{V}/harness/{prop}.cpp') + glob.glob(f'{V}/harness/{prop}_*.cpp')):
        t0 = dict(std=['20'], reach={}, bounds=[], assume=[], flags=[], opts=[], tier='quick')
        for l in open(f):
            m = re.match(r'//@(\w+)\s+(.*)', l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'std': t0['std'] = v.split()
            elif k == 'reach':
                e, ls = v.split(':', 1)
                for x in e.split(): t0['reach'].setdefault(x, []).extend(ls.split())
            elif k in ('bounds', 'assume'): t0[k].append(v)
            elif k == 'flags': t0['flags'] += v.split()
            elif k == 'opts': t0['opts'] += v.split()
        for s in t0['std']:
            t = TU(); t.file, t.std, t.name = f, s, os.path.basename(f)[:-4] + ('' if s == '20' else '-cxx' + s)
            t.__dict__.update({k: v for k, v in t0.items() if k != 'std'}); tus.append(t)
    return tus

def incs(): return ['-I' + V + '/symx', '-I' + V + '/harness', '-I' + REPO + '/src']
def compile_ir(t, wd):
    t.bc = f'{wd}/{t.name}.bc'; raw = f'{wd}/{t.name}.raw.bc'
    r = sh([CLANG, '-std=c++' + t.std] + IRF + t.flags + incs() + ['-emit-llvm', '-c', t.file, '-o', raw])
    if r.returncode: return r.stdout
    r = sh(['llvm-link-18', raw, B + '/sxrt.bc', '-o', t.bc])
    return r.stdout if r.returncode else None
def compile_native(t, wd, kind='asan'):
    exe = f'{wd}/{t.name}.{kind}'
    if os.path.exists(exe): return exe, ''
    f = {'asan': ['-fsanitize=address'], 'plain': []}[kind]
    r = sh([CLANG, '-std=c++' + t.std] + NATF + f + t.flags + incs() + [t.file, V + '/symx/sxnative.cpp', '-o', exe, '-ldl'])
    return (exe, '') if r.returncode == 0 else (None, r.stdout)

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=99:symbolize=0', LC_ALL='C')
def run_native(exe, text, wd, valgrind=False):
    fd, p = tempfile.mkstemp(dir=wd); os.write(fd, text.encode()); os.close(fd)
    cmd = (['valgrind', '-q', '--error-exitcode=98', '--undef-value-errors=yes'] if valgrind else []) + [exe, p]
    try: r = sh(cmd, env=ENV, timeout=60 if valgrind else 20); rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, out = 'timeout', ''
    os.unlink(p); return rc, out
def reproduces(kind, msg, rc, out):
    if kind.startswith('known:'): return ('SX-KNOWN ' + kind[6:] + ' ' + msg) in out
    if kind == 'assert': return ('SX-FAIL assert ' + msg) in out
    if kind == 'throw': return 'SX-FAIL throw' in out or rc == -6
    if kind == 'alloc-huge': return 'SX-FAIL alloc-huge' in out
    if kind == 'leak': return 'SX-FAIL leak' in out
    if kind == 'step-limit': return rc == 'timeout'
    if kind == 'stack-overflow': return rc == 99 and 'stack-overflow' in out or rc == -11
    if kind == 'uninit': return rc == 98
    if kind in ('div-zero',): return rc in (-8, 99)
    if kind in ('abort', 'unreachable', 'trap', 'bad-call'): return rc in (-6, -4, -5, -11, 99)
    return rc == 99 or (isinstance(rc, int) and rc < 0)

def known_findings():
    k = {}
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m: k[(m.group(1), m.group(2))] = m.group(3).strip()
    return k

def check(prop, tier):
    t_start = time.time(); seed = int(os.environ.get('VERIF_SEED', '1')); setup()
    tus = load(prop)
    if not tus: print('no harness for', prop); return 2
    wd = tempfile.mkdtemp(prefix=f'sx_{prop}_')
    try: return check2(prop, tier, seed, tus, wd, t_start)
    finally: shutil.rmtree(wd, ignore_errors=True)

def check2(prop, tier, seed, tus, wd, t_start):
    rdir = f'{V}/replays/{prop}'; shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    ex = ThreadPoolExecutor(JOBS)
    irs = [ex.submit(compile_ir, t, wd) for t in tus]
    for t, f in zip(tus, irs):
        e = f.result()
        if e: print(f'ERROR: {t.name} does not compile:\n{e[:3000]}'); return 2
    nats = {t.name: ex.submit(compile_native, t, wd) for t in tus}
    viol, notes, known, problems = {}, [], {}, []
    kf = known_findings(); E = {'tus': {}}; agg = dict(paths=0, instrs=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_s=0.0, error_paths=0, unexplored=0)
    funcs = {}; samples = []; validated = 0; incomplete = []
    for ti, t in enumerate(tus):
        left = TOTAL[tier] - (time.time() - t_start) - 30
        budget = max(10, left / max(1, len(tus) - ti) if tier == 'thorough' else left * 0.8)
        out = f'{wd}/{t.name}.json'
        if os.environ.get('SX_ENTRY'): t.opts += ['-e', os.environ['SX_ENTRY']]; t.reach = {}
        r = sh([SYMX, t.bc, '-j', str(JOBS), '-t', str(budget), '-o', out, '-tier', '1' if tier == 'thorough' else '0', '-src', REPO + '/src'] + t.opts)
        if r.returncode or not os.path.exists(out): problems.append(f'{t.name}: executor failed ({r.returncode}): {r.stdout[-500:]}'); continue
        J = json.load(open(out))
        for k in agg: agg[k] += J[k]
        for f, ns in J['functions'].items(): funcs.setdefault(f, set()).update(ns)
        E['tus'][t.name] = dict(std='c++' + t.std, wall_s=round(J['wall_s'], 2), entries={k: v for k, v in J['entries'].items()}, ir_instructions_covered=J['ir_instructions_covered'])
        if J['unexplored']: incomplete.append(f'{t.name}: {J["unexplored"]} path prefixes not explored within the budget')
        for w, n in J['inconclusive'].items(): incomplete.append(f'{t.name}: {n} x {w}')
        # errors: replay on the real code
        cand = {}
        for e in J['errors']: cand.setdefault((e['entry'], e['kind'], e['msg'], e['loc'].split(' | ')[0]), []).append(e)
        for key, es in cand.items():
            ok = None
            for e in es:
                kind = e['kind']
                exe, err = compile_native(t, wd, 'plain') if kind == 'uninit' else nats[t.name].result()
                if not exe: problems.append(f'{t.name}: native build failed: {err[:2000]}'); break
                rc, o = run_native(exe, e['replay'], wd, kind == 'uninit')
                if reproduces(kind, e['msg'], rc, o): ok = (e, rc, o); break
                if rc == 99 or rc == 77 or (isinstance(rc, int) and rc < 0 and kind != 'uninit'): ok = (e, rc, o); break   # another failure of the same input on the real code
            if not ok:
                (notes if es[0]['kind'] == 'uninit' else problems).append(f'{t.name}: {key[0]}: {key[1]} "{key[2]}" at {key[3]} did not reproduce natively; input:\n{es[0]["replay"]}')
                continue
            e, rc, o = ok
            if e['kind'].startswith('known:'):
                kid = e['kind'][6:]
                if (prop, kid) in kf: known[kid] = kf[(prop, kid)]; continue
            h = hashlib.sha256(repr(key).encode()).hexdigest()[:10]; p = f'{rdir}/{t.name}-{h}.txt'
            with open(p, 'w') as w:
                w.write(e['replay']); w.write(f'# property {prop}\n# tu {t.name}\n# std {t.std}\n# kind {e["kind"]}: {e["msg"]}\n# at {e["loc"]}\n# native: rc={rc}\n' + ''.join('#   ' + l + '\n' for l in o.splitlines()[:15]))
            viol[key] = p
        # vacuity witnesses
        for en, d in J['entries'].items():
            want = t.reach.get('*', []) if en not in t.reach else t.reach[en]
            for lab in want:
                if lab != '-' and not d['reach'].get(lab): problems.append(f'{t.name}: entry {en} never reached "{lab}"' + (' (incomplete run)' if incomplete else ''))
        # translator validation: the same inputs on the native build
        exe, err = nats[t.name].result()
        if not exe: problems.append(f'{t.name}: native build failed: {err[:2000]}')
        else:
            def val(s):
                rc, o = run_native(exe, s, wd); return s, rc, o
            for s, rc, o in ex.map(val, J['samples']):
                exp = [l for l in s.splitlines() if l.startswith('out ')]; got = [l for l in o.splitlines() if l.startswith('out ')]
                labs = {l.split()[1] for l in exp}; gotf = [l for l in got if l.split()[1] in labs]
                if rc == 0 and (gotf == exp): validated += 1
                elif rc == 0 or rc in (78, 90): problems.append(f'{t.name}: native run disagrees with the encoding rc={rc}\n{s}\n-- native:\n{o[:600]}')
                else:
                    h = hashlib.sha256(s.encode()).hexdigest()[:10]; p = f'{rdir}/{t.name}-native-{h}.txt'; open(p, 'w').write(s + f'# property {prop}\n# tu {t.name}\n# std {t.std}\n# native: rc={rc}\n' + ''.join('#   ' + l + '\n' for l in o.splitlines()[:15])); viol[('native', t.name)] = p
            samples += [s.replace('\n', '; ') for s in J['samples'][:3]]
    wall = time.time() - t_start
    cov = dict(states=agg['paths'] + agg['error_paths'], transitions=agg['instrs'], traces_validated_against_impl=validated, samples=samples[:24] or ['none'],
        solver_queries=agg['queries'], solver_query_cache_hits=agg['cache_hits'], solver_sat=agg['sat'], solver_unsat=agg['unsat'], solver_unknown=agg['unknown'], solver_s=round(agg['solver_s'], 2),
        what='states = completed symbolic paths (each stands for every input that satisfies its path condition); transitions = LLVM IR instructions executed symbolically',
        bounds=[b for t in tus for b in t.bounds] , functions_encoded={k: sorted(v) for k, v in sorted(funcs.items())}, harnesses=E['tus'], incomplete=incomplete, exhaustive=not incomplete and not problems, known_findings=sorted(known))
    assume = sorted({a for t in tus for a in t.assume}) + ['the LLVM IR produced by clang 18 -O1 (exceptions off) is the code under test; the native build of the same harness is replayed on sampled paths', 'libstdc++ functions that live only in the shared library are modelled in symx/sxrt.cpp']
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=assume, wall_s=round(wall, 2), violations=len(viol)), open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for n in notes: print('NOTE', n)
    for i in incomplete: print('INCOMPLETE', i)
    for k, txt in sorted(known.items()): print(f'KNOWN-FINDING: property={prop} {k}: {txt}')
    print(f'{prop} {tier}: {agg["paths"]} paths, {agg["instrs"]} instructions, {agg["queries"]} queries ({agg["sat"]} sat, {agg["unsat"]} unsat, {agg["unknown"]} unknown, {agg["cache_hits"]} cached), solver {agg["solver_s"]:.1f}s, {validated} native runs agree, {wall:.1f}s')
    if viol:
        for key, p in sorted(viol.items(), key=str): print('FAILED', *[str(x) for x in key]); print(f'VIOLATION property={prop} replay={p}')
        for p in problems:
            if 'never reached' not in p: print('PROBLEM', p)
        return 1
    if problems:
        for p in problems: print('PROBLEM', p)
        return 2
    return 0

def replay(path):
    setup(); txt = open(path).read(); prop = re.search(r'^# property (\S+)', txt, re.M).group(1); name = re.search(r'^# tu (\S+)', txt, re.M).group(1); kind = re.search(r'^# kind (\S+):', txt, re.M)
    t = [t for t in load(prop) if t.name == name][0]; wd = tempfile.mkdtemp()
    ui = bool(kind and kind.group(1) == 'uninit')
    exe, err = compile_native(t, wd, 'plain' if ui else 'asan')
    if not exe: print(err); return 2
    ENV['ASAN_OPTIONS'] = ENV['ASAN_OPTIONS'].replace('symbolize=0', 'symbolize=1')
    rc, o = run_native(exe, txt, wd, ui); print(o); print('native exit', rc); shutil.rmtree(wd); return 0 if rc == 0 else 1

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--setup']: setup(); sys.exit(0)
    if a[:1] == ['--replay']: sys.exit(replay(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    rc = check(a[0], tier); sys.stdout.flush(); sys.exit(rc)
