#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

Regenerates the IR of the property's harnesses from /repo's current tree, decides every
obligation, replays counterexamples against a native build, writes the evidence file."""
import argparse
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

CLANG = ['clang++', '-std=gnu++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fwrapv', '-fno-builtin',
         '-fno-math-errno', '-fno-strict-float-cast-overflow', '-ffp-contract=off', '-gline-tables-only', '-fno-discard-value-names', '-w',
         '-mllvm', '-inline-threshold=1000000', '-mllvm', '-inlinehint-threshold=1000000', '-fconstexpr-steps=100000000',
         '-S', '-emit-llvm']
UBSAN = ['-fno-wrapv', '-fstrict-float-cast-overflow', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,'
         'bool,null,unreachable,return,float-divide-by-zero', '-fno-sanitize=float-divide-by-zero',
         '-fsanitize-trap=all']
GXX = ['g++', '-std=gnu++20', '-O0', '-g0', '-w', '-rdynamic']


class TU:
    def __init__(self, name, src, flags, ub):
        self.name, self.src, self.flags, self.ub = name, src, flags, ub
        self.ll = None


def load_tus(prop, tier, bdir):
    tus = []
    for fn in sorted(glob.glob(f'{VERIF}/harness/{prop}*.cpp')):
        tus.append((os.path.basename(fn)[:-4], open(fn).read()))
    gen = f'{VERIF}/harness/{prop}.py'
    if os.path.exists(gen):
        spec = importlib.util.spec_from_file_location('gen_' + prop, gen)
        m = importlib.util.module_from_spec(spec)
        sys.path.insert(0, f'{VERIF}/harness')
        spec.loader.exec_module(m)
        tus += list(m.generate(tier).items())
    out = []
    for name, text in tus:
        if tier != 'thorough' and re.search(r'^// *VF-TIER: *thorough', text, re.M):
            continue
        modes = ['']
        flags = []
        for m in re.finditer(r'^// *VF-FLAGS:(.*)$', text, re.M):
            flags += m.group(1).split()
        ub = bool(re.search(r'^// *VF-UB', text, re.M))
        src = os.path.join(bdir, name + '.cpp')
        open(src, 'w').write(text)
        t = TU(name, src, flags, ub)
        m = re.search(r'^// *VF-PRECISE-LOOPS: *(\d+)', text, re.M)
        t.precise_loops = int(m.group(1)) if m else 0
        out.append(t)
    return out


def pch_for(tus, bdir):
    """one precompiled header per set of flags used by several units"""
    groups = {}
    for t in tus:
        t.pch = None
        if '#include "vf.h"' in open(t.src).read():
            groups.setdefault((t.ub, tuple(t.flags)), []).append(t)
    ps = []
    for i, ((ub, flags), g) in enumerate(groups.items()):
        if len(g) < 9:
            continue
        out = f'{bdir}/pre{i}.pch'
        cmd = CLANG[:-2] + (UBSAN if ub else []) + list(flags) + [f'-I{REPO}/include', f'-I{REPO}', f'-I{VERIF}/harness', '-x', 'c++-header',
                                                                 f'{VERIF}/harness/vf.h', '-o', out]
        ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), g, out))
    for p, g, out in ps:
        if p.wait() == 0:
            for t in g:
                t.pch = out


def compile_tu(t):
    t.ll = t.src[:-4] + '.ll'
    cmd = CLANG + (UBSAN if t.ub else []) + t.flags + (['-include-pch', t.pch] if t.pch else []) + [f'-I{REPO}/include', f'-I{REPO}', f'-I{VERIF}/harness', t.src, '-o', t.ll]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t.err = p.stdout if p.returncode else None
    return t


def native_builder(t, locks):
    def get(san):
        exe = t.src[:-4] + ('.san' if san else '.native')
        import fcntl
        with open(exe + '.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                fl = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'] if san else []
                cmd = GXX + fl + t.flags + [f'-I{REPO}/include', f'-I{REPO}', f'-I{VERIF}/harness', t.src,
                                            f'{VERIF}/harness/native.cpp', '-o', exe + '.tmp', '-ldl']
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise RuntimeError('native build failed: ' + p.stdout[-2000:])
                os.rename(exe + '.tmp', exe)
        return exe
    return get


def worker(t, hname, opts, outfn):
    from llparse import Module
    import decide
    import terms

    def go():
        try:
            mod = Module(open(t.ll).read())
            h = decide.Harness(mod, hname, native_builder(t, None), dict(opts, precise_loops=t.precise_loops))
            r = h.run()
        except Exception as e:
            import traceback
            r = dict(harness=hname, status='error', error=f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}',
                     violations=[], undecided=[], stats={})
        json.dump(r, open(outfn + '.tmp', 'w'))
        os.rename(outfn + '.tmp', outfn)
    threading.stack_size(1 << 29)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    os._exit(0)


def functions_encoded(ll):
    """names and lines of the library functions whose code is in this module (inlined or not)"""
    txt = open(ll).read()
    files = {}
    for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', txt, re.M):
        files[m.group(1)] = m.group(2)
    out = set()
    for m in re.finditer(r'DISubprogram\(name: "([^"]*)"[^\n]*?file: (!\d+), line: (\d+)', txt):
        f = files.get(m.group(2), '')
        if 'dsga.hxx' in f or '/examples/' in f:
            out.add((re.sub(r'<.*', '', m.group(1)) if not m.group(1).startswith('operator<') else m.group(1), int(m.group(3))))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only')
    ap.add_argument('--tu')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    prop = a.prop
    manifest = json.load(open(f'{VERIF}/MANIFEST.json')) if os.path.exists(f'{VERIF}/MANIFEST.json') else {'checks': []}
    mc = next((c for c in manifest['checks'] if c['property'] == prop), {})
    bdir = f'{VERIF}/.build/{prop}-{os.getpid()}'
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    try:
        rc = run(a, prop, tier, seed, bdir, mc, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, tier, seed, bdir, mc, t0):
    wall = {'quick': 780, 'thorough': 3000}[tier]
    opts = dict(seed=seed, budget={'quick': 420, 'thorough': 1200}[tier], precise_s={'quick': 300, 'thorough': 900}[tier],
                real_ms={'quick': 60000, 'thorough': 200000}[tier], validate={'quick': 4, 'thorough': 40}[tier])
    tus = load_tus(prop, tier, bdir)
    if a.tu:
        tus = [t for t in tus if re.search(a.tu, t.name)]
    if not tus:
        print(f'{prop}: no harness', file=sys.stderr)
        return 2
    from concurrent.futures import ThreadPoolExecutor
    pch_for(tus, bdir)
    with ThreadPoolExecutor(8) as tp:
        list(tp.map(compile_tu, tus))
    tcomp = time.time() - t0
    fatal = []
    jobs = []
    funcs = set()
    for t in tus:
        if t.err:
            fatal.append(f'{t.name}: does not compile: {t.err[-1500:]}')
            continue
        hs = re.findall(r'^define [^@\n]*@(h_\w+)\(', open(t.ll).read(), re.M)
        for h in hs:
            if a.only and not re.search(a.only, h):
                continue
            jobs.append((hs.index(h), len(jobs), t, h))
        funcs |= functions_encoded(t.ll)
    jobs = [(t, h) for _, _, t, h in sorted(jobs, key=lambda j: j[:2])]   # spreads the native builds
    # the encoding is validated against a native build of some translation units (all of them in the thorough tier)
    import random
    good = [t for t in tus if not t.err]
    val = set(t.name for t in (good if tier == 'thorough' else random.Random(seed).sample(good, min(6, len(good)))))
    results = []
    running = []
    todo = list(jobs)
    ncpu = max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < ncpu:
            t, h = todo.pop(0)
            fn = f'{bdir}/{t.name}.{h}.json'
            p = ctx.Process(target=worker, args=(t, h, opts if t.name in val else dict(opts, validate=0), fn))
            p.start()
            running.append((p, t, h, fn, time.time()))
        time.sleep(0.02)
        for it in list(running):
            p, t, h, fn, ts = it
            if not p.is_alive():
                p.join()
                running.remove(it)
                if os.path.exists(fn):
                    r = json.load(open(fn))
                else:
                    r = dict(harness=h, status='error', error='worker died', violations=[], undecided=[], stats={})
                r['tu'] = t.name
                results.append(r)
                if a.v:
                    print(h, r['status'], r.get('obligations'), r.get('wall_s'), r.get('stats'), flush=True)
            elif time.time() - ts > opts['budget'] + 120 or time.time() - t0 > wall:
                p.kill()
                p.join()
                running.remove(it)
                results.append(dict(harness=h, tu=t.name, status='undecided', violations=[], stats={},
                                    undecided=[dict(msg=h, why='time budget exceeded')]))
    tumap = {t.name: t for t in tus}
    known = json.load(open(f'{VERIF}/known_findings.json'))['findings'] if os.path.exists(f'{VERIF}/known_findings.json') else []
    nviol = 0
    lines = []
    kf = []
    for r in results:
        if r.get('violations'):
            for v in r['violations']:
                k = next((k for k in known if k['property'] == prop and re.fullmatch(k['harness'], r['harness']) and
                          re.search(k['match'], v['msg'])), None)
                if k is not None:
                    kf.append(k)
                    continue
                nviol += 1
                rp = write_replay(prop, tumap[r['tu']], r, v, nviol)
                print(f'{r["harness"]}: {v["msg"]} [{v["kind"]}] native: {v["native"]} inputs: {str(v["inputs"])[:400]}')
                lines.append(f'VIOLATION property={prop} replay={rp}')
        if r['status'] == 'error':
            fatal.append(f'{r["harness"]}: {r.get("error")}')
        for u in r.get('undecided', []):
            fatal.append(f'{r["harness"]}: undecided: {u}')
    tot = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    nob = sum(r.get('obligations', 0) for r in results)
    ok = [r for r in results if r['status'] == 'ok']
    dis = sum(r.get('obligations', 0) for r in ok)
    ev = dict(property=prop, tier=tier, seed=seed, level=mc.get('level', 'other'), wall_s=round(time.time() - t0, 2),
              violations=nviol,
              coverage=dict(
                  explanation='Harnesses over the public API are compiled from the current tree to LLVM IR and executed '
                              'symbolically; every assertion, assertion-failure site, out-of-bounds access and (where '
                              'enabled) undefined-behaviour trap is an obligation (path condition => condition) decided by z3, '
                              'with cvc5 in a portfolio for precise floating point.',
                  translation_units=len(tus), harnesses=len(results), harnesses_ok=len(ok),
                  symbolic_inputs=sum(r.get('inputs', 0) for r in results),
                  obligations=nob, discharged=dis,
                  discharged_by_term_normalisation=tot('syntactic'),
                  solver_queries=tot('queries'), solver_unsat=tot('unsat'), solver_sat=tot('sat'),
                  solver_unknown=tot('unknown'), solver_seconds=round(tot('solver_s'), 2),
                  real_arithmetic_identities=tot('real'),
                  ir_instructions_executed=sum(r.get('instrs', 0) for r in results),
                  state_merges=sum(r.get('merges', 0) for r in results),
                  max_loop_unrolling=max([r.get('max_unwind', 0) for r in results] or [0]),
                  reachability_witnesses=sum(r.get('covers', 0) for r in results),
                  encoding_validation_runs=sum(r.get('validated', 0) for r in results),
                  encoding_validation_values=sum(r.get('validated_values', 0) for r in results),
                  functions_encoded=len(funcs),
                  functions=[f'{n}:{l}' for n, l in sorted(funcs)][:400],
                  bounds=bounds_of(tus), compile_s=round(tcomp, 2),
                  harness_list=[dict(name=r['harness'], status=r['status'], obligations=r.get('obligations', 0),
                                     wall_s=r.get('wall_s')) for r in results][:400],
                  known_findings=[k['id'] for k in kf],
                  checker_cmd=f'python3-vt engine/check.py {prop} --tier {tier}'),
              assumptions=assumptions_of(tus))
    if fatal:
        ev['coverage']['problems'] = fatal[:20]
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    if not (a.only or a.tu):
        json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    for k in {k['id']: k for k in kf}.values():
        print(f'KNOWN-FINDING: property={prop} {k["id"]}: {k["what"]}')
    for l in lines:
        print(l)
    print(f'{prop}: {len(results)} harnesses, {nob} obligations, {dis} discharged, {tot("queries")} queries, '
          f'{tot("solver_s"):.1f}s solver, {time.time() - t0:.1f}s wall, {nviol} violations, {len(fatal)} problems')
    if nviol:
        return 1
    if fatal:
        for f in fatal[:20]:
            print('PROBLEM', f[:1500], file=sys.stderr)
        return 2
    return 0


def bounds_of(tus):
    out = []
    for t in tus:
        for m in re.finditer(r'^// *VF-BOUND: *(.*)$', open(t.src).read(), re.M):
            out.append(m.group(1).strip())
    return sorted(set(out))


def assumptions_of(tus):
    out = ['clang 18 lowers the C++ to IR that behaves like the g++ build (every counterexample is replayed under g++)',
           'rounding arithmetic and libm calls are functions of their operands; NaN payloads are not distinguished']
    for t in tus:
        for m in re.finditer(r'^// *VF-ASSUME: *(.*)$', open(t.src).read(), re.M):
            out.append(m.group(1).strip())
    return sorted(set(out))


def write_replay(prop, t, r, v, n):
    d = f'{VERIF}/replay/{prop}'
    os.makedirs(d, exist_ok=True)
    base = f'{d}/{r["harness"]}-{n}'
    shutil.copy(t.src, base + '.cpp')
    open(base + '.in', 'w').write(' '.join(f'{k}={x}' for k, x in v['inputs'].items()) + '\n')
    san = '-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all ' if v['kind'] in ('ub', 'oob') else ''
    open(base + '.sh', 'w').write(f'''#!/bin/sh
# {v["msg"]}
# native: {v["native"]}
set -e
T=$(mktemp -d)
g++ -std=gnu++20 -O0 -w -rdynamic {san}{" ".join(t.flags)} -I/repo/include -I/repo -I{VERIF}/harness {base}.cpp {VERIF}/harness/native.cpp -o $T/n -ldl
set +e
ASAN_OPTIONS=detect_leaks=0:abort_on_error=1 UBSAN_OPTIONS=abort_on_error=1 $T/n {r["harness"][2:]} {base}.in
rc=$?
rm -rf "$T"
exit $rc
''')
    os.chmod(base + '.sh', 0o755)
    return base + '.sh'


if __name__ == '__main__':
    main()
