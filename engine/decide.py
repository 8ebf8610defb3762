"""Symbolically executes one harness function and decides its obligations."""
import ctypes
import json
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import z3
from terms import *
import terms as TT
from llparse import Module, ParseError
from symex import Exec, Unsupported
from lower import Lower, RealUnsupported, model_inputs
import evalc
from zrw import zrw

INTERESTING = {
    'f32': [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000, 0x7f800000, 0xff800000,
            0x7fc00000, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3effffff, 0xbeffffff,
            0x3f7fffff, 0x4b000000, 0x4b7fffff, 0x4affffff, 0xcb000001, 0x40200000, 0x3fc00000, 0x40000000, 0x4f000000,
            0x5f000000, 0x40490fdb, 0x42c80000, 0x3dcccccd, 0xc0200000, 0xbfc00000],
    'f64': [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x3fe0000000000000, 0xbfe0000000000000,
            0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, (1 << 63) + 1, 0x000fffffffffffff,
            0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x3fdfffffffffffff, 0xbfdfffffffffffff,
            0x3fefffffffffffff, 0x4330000000000000, 0x432fffffffffffff, 0x4340000000000000, 0xc330000000000001,
            0x4004000000000000, 0x3ff8000000000000, 0x4000000000000000, 0x41e0000000000000, 0x43e0000000000000,
            0x400921fb54442d18, 0x4059000000000000, 0x3fb999999999999a, 0xc004000000000000, 0xbff8000000000000],
}


def rand_input(rng, sort, style):
    """one concrete value (bit pattern) of the given sort"""
    if sort == 1:
        return rng.getrandbits(1)
    if isinstance(sort, int):
        k = rng.random()
        if style == 'small' or k < 0.4:
            return rng.choice([0, 1, 2, 3, 5, 7, -1, -2, -3, -7]) & mask(sort)
        if k < 0.55:
            return rng.choice([1 << (sort - 1), (1 << (sort - 1)) - 1, mask(sort), sort, sort - 1])
        return rng.getrandbits(sort)
    if sort == 'f80':
        import numpy as np
        return evalc.tobits(np.longdouble(rng.choice([0.0, 1.0, -2.5, 3.0, 1e10, -0.0, 7.25])), 'f80')
    if style == 'small':
        return evalc.tobits(evalc.NP[sort](rng.randint(-6, 6)), sort)
    k = rng.random()
    if k < 0.4:
        return rng.choice(INTERESTING[sort])
    if k < 0.6:
        return evalc.tobits(evalc.NP[sort](rng.randint(-12, 12) / rng.choice([1, 2, 4, 8])), sort)
    if k < 0.85:
        return evalc.tobits(evalc.NP[sort](rng.uniform(-1, 1) * 10 ** rng.randint(-3, 4)), sort)
    return rng.getrandbits(FPBITS[sort])


LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, 9)


class Harness:
    def __init__(self, mod, name, native, opts):
        self.mod, self.name, self.native, self.o = mod, name, native, opts
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, syntactic=0)
        self.uf = Lower('uf')
        self.abs = Lower('abs')
        self.collapsed, self.clow = {}, Lower('real')
        self.seed = opts.get('seed', 1)
        self.t0 = time.time()
        self.deadline = self.t0 + opts.get('budget', 240)

    # ------------------------------------------------------------ solving
    def solve(self, low, terms, ms, extra=()):
        if low.mode != 'real':
            terms = [zrw(t) for t in terms]
        race = low.mode in ('uf', 'abs') and ms > 1500 and not extra
        s = z3.Solver()
        s.set('timeout', 1500 if race else int(ms))
        for t in terms:
            s.add(low(t))
        for c in low.side_for(terms):
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        if race and r == z3.unknown:
            self.stats['solver_s'] += dt
            return self.external(low, terms, ms / 1000)
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        self.stats[str(r)] += 1
        return str(r), (s.model() if r == z3.sat else None)

    def feasible(self, pc):
        if isc(pc):
            return bool(pc.val)
        if any(not isinstance(x.sort, int) for x in subterms([pc])):
            r, _ = self.solve(self.abs, [pc], 3000)
            if r != 'unsat' and self.o.get('precise_loops'):
                r, _ = self.external(Lower('precise'), [pc], self.o['precise_loops'])
        else:
            r, _ = self.solve(self.uf, [pc], 5000)
        return r != 'unsat'

    def external(self, low, terms, secs):
        """race cvc5 and z3 (forked) on a precise query; returns (verdict, inputs or None)"""
        s = z3.Solver()
        terms = [zrw(t) for t in terms]
        for t in terms:
            s.add(low(t))
        for c in low.side_for(terms):
            s.add(c)
        txt = s.to_smt2()
        vs = [v.val for _, _, v in self.ex.inputs if v.val in low.vars]
        gv = ''.join(f'(get-value (|{v}|))\n' for v in vs)
        d = tempfile.mkdtemp(prefix='vfq')
        fn = os.path.join(d, 'q.smt2')
        open(fn, 'w').write('(set-option :produce-models true)\n(set-logic ALL)\n' + txt + gv)
        cmds = [['cvc5', '--fp-exp', '--produce-models', f'--tlimit={int(secs * 1000) + 1000}', fn],
                ['z3-new', f'-T:{int(secs) + 1}', fn]]
        procs = []
        t = time.time()
        for i, c in enumerate(cmds):
            out = open(os.path.join(d, f'o{i}'), 'w')
            procs.append(subprocess.Popen(c, stdout=out, stderr=subprocess.STDOUT, preexec_fn=die_with_parent))
        verdict, inp, who = 'unknown', None, None
        live = set(range(len(cmds)))
        while live and time.time() - t < secs:
            for i in list(live):
                if procs[i].poll() is None:
                    continue
                live.discard(i)
                o = open(os.path.join(d, f'o{i}')).read()
                first = o.split('\n', 1)[0].strip()
                if first == 'unsat' or first == 'sat':
                    verdict = first
                    who = i
                    if first == 'sat':
                        inp = self.parse_values(o)
                    live = set()
                    break
            time.sleep(0.02)
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        dt = time.time() - t
        if os.environ.get('VF_QLOG'):
            print('Q', self.name, low.mode, verdict, who, round(dt, 2), round(secs, 1), flush=True)
        subprocess.run(['rm', '-rf', d])
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        self.stats[verdict] += 1
        return verdict, inp

    def parse_values(self, o):
        r = {}
        for m in re.finditer(r'\(\(\|?in\.([^|() ]+)\|? ([^()]+)\)\)', o):
            v = m.group(2).strip()
            if v.startswith('#x'):
                r[m.group(1)] = int(v[2:], 16)
            elif v.startswith('#b'):
                r[m.group(1)] = int(v[2:], 2)
            elif v in ('true', 'false'):
                r[m.group(1)] = int(v == 'true')
        for n, s, t in self.ex.inputs:
            r.setdefault(n, 0)
        return r

    # ------------------------------------------------------------ native replay
    def replay(self, vecs, san=False, trace=False):
        """run input vectors natively; list of result lines (per vector: list of lines)"""
        exe = self.native(san)
        fd, fn = tempfile.mkstemp(prefix='vfin')
        with os.fdopen(fd, 'w') as f:
            for v in vecs:
                f.write(' '.join(f'{n}={x:x}' for n, x in v.items()) + '\n')
        try:
            p = subprocess.run([exe, self.name[2:], fn] + (['t'] if trace else []), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=120, text=True,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1',
                                        UBSAN_OPTIONS='abort_on_error=1:halt_on_error=1'))
            out = p.stdout
        except subprocess.TimeoutExpired:
            out = ''
        finally:
            os.unlink(fn)
        res, cur = [], []
        for ln in out.split('\n'):
            if not ln:
                continue
            cur.append(ln)
            if not ln.startswith('OBS'):
                res.append(cur)
                cur = []
        return res

    def try_inputs(self, vecs, san=False):
        """first input vector that violates natively"""
        if not vecs:
            return None
        res = self.replay(vecs, san)
        for v, r in zip(vecs, res):
            if r[-1].startswith('VIOLATION'):
                return v, r[-1][10:]
        return None

    # ------------------------------------------------------------ main
    def run(self):
        res = dict(harness=self.name, status='ok', violations=[], undecided=[], known=[])
        try:
            ex = self.ex = Exec(self.mod, self.feasible)
            ex.eager = bool(self.o.get('precise_loops'))
            ex.run_harness(self.name)
        except (Unsupported, ParseError, NotImplementedError, RecursionError) as e:
            res['status'] = 'error'
            res['error'] = f'{type(e).__name__}: {e}'[:600]
            return self.fin(res)
        obl = ex.obl
        for i, o in enumerate(obl):
            o.idx = i
        res['obligations'] = len(obl)
        res['inputs'] = len(ex.inputs)
        pend = []
        for o in obl:
            if (isc(o.cond) and o.cond.val) or (isc(o.pc) and not o.pc.val):
                self.stats['syntactic'] += 1
            else:
                pend.append(o)
        # reachability witness (vacuity)
        res['covers'] = 0
        for pc, msg in [(lor(ex.reach_end, *ex.expected_aborts), 'end of harness')] + ex.covers:
            if isc(pc):
                ok = bool(pc.val)
            else:
                r, m = self.solve(self.uf, [pc], 20000)
                ok = r == 'sat'
            if not ok:
                # dead end: either every input violates, or the harness is vacuous
                res.setdefault('vacuous', []).append(msg)
            else:
                res['covers'] += 1
        # everything at once first
        queue = pend
        if pend:
            q = lor(*[bvand(o.pc, bnot(o.cond)) for o in pend])
            if isc(q) and q.val == 0:
                v = 'unsat'
                self.stats['syntactic'] += len(pend)
            else:
                fp = any(not isinstance(x.sort, int) or heavy(x) for x in subterms([q]))
                v = self.solve(self.abs, [q], 5000)[0] if fp else 'sat'
                if v != 'unsat' and not all(o.kind == 'near' for o in pend):
                    v, m = self.solve(self.uf, [q], 30000)
            if v == 'unsat':
                queue = []
        for o in queue:
            if any(v['msg'] == o.msg and v['kind'] == o.kind for v in res['violations']):
                continue
            if len(res['violations']) >= 8 or time.time() > self.deadline:
                if time.time() > self.deadline and not res['violations']:
                    res['undecided'].append(dict(msg=o.msg, why='time budget'))
                continue
            self.decide(o, res)
        # vacuity counts only when nothing else explains it
        if res.get('vacuous') and not res['violations']:
            w = self.try_inputs([self.rand_vec(random.Random(k), 'any') for k in range(40)])
            if w:
                self.violation(res, obl[0] if obl else None, w[0], w[1])
            else:
                res['undecided'].append(dict(msg='vacuous: ' + '; '.join(res['vacuous']), why='not reachable'))
        if res['violations']:
            res['status'] = 'violation'
        elif res['undecided']:
            res['status'] = 'undecided'
        if self.o.get('validate') and res['status'] == 'ok':
            self.validate(res)
        return self.fin(res)

    def rand_vec(self, rng, style):
        return {n: rand_input(rng, s, style) for n, s, _ in self.ex.inputs}

    def violation(self, res, o, inp, what):
        res['violations'].append(dict(msg=o.msg if o else '', kind=o.kind if o else '', native=what,
                                      inputs={k: f'{v:x}' for k, v in inp.items()}))

    def decide(self, o, res):
        san = o.kind in ('ub', 'oob')
        neg_ = bvand(o.pc, bnot(o.cond))
        if isc(neg_) and neg_.val == 0:
            self.stats['syntactic'] += 1
            return
        if any(not isinstance(x.sort, int) or heavy(x) for x in subterms([neg_])) and self.solve(self.abs, [neg_], 3000)[0] == 'unsat':
            return
        if o.kind == 'near':
            return self.decide_near(o, res)
        v, m = self.solve(self.uf, [neg_], 20000)
        if v == 'unsat':
            return
        cands = []
        if v == 'sat':
            inp = m if isinstance(m, dict) else model_inputs(m, self.uf, self.ex.inputs)
            cands.append(inp)
            w = self.try_inputs(cands, san)
            if w:
                return self.violation(res, o, *w)
        # precise floating point
        left = max(10, min(self.o.get('precise_s', 60), self.deadline - time.time()))
        low = Lower('precise')
        v2, inp = 'unknown', None
        try:
            v2, m2 = self.solve(low, [neg_], 1000)
            if v2 == 'sat':
                inp = model_inputs(m2, low, self.ex.inputs)
            elif v2 == 'unknown':
                v2, inp = self.external(low, [neg_], left)
        except NotImplementedError as e:
            pass
        if v2 == 'unsat':
            return
        if inp is not None:
            w = self.try_inputs([inp], san)
            if w:
                return self.violation(res, o, *w)
        # solver found (abstract) counterexamples only: look for concrete ones nearby
        rng = random.Random(self.seed * 7919 + o.idx)
        vecs = []
        for k in range(self.o.get('tries', 400)):
            base = self.rand_vec(rng, 'small' if k % 3 == 0 else 'any')
            if cands and k % 2:
                for n in base:
                    if rng.random() < 0.5:
                        base[n] = cands[0][n]
            vecs.append(base)
        w = self.try_inputs(vecs, san)
        if w:
            return self.violation(res, o, *w)
        res['undecided'].append(dict(msg=o.msg, kind=o.kind, why=f'uf={v} precise={v2}; no concrete counterexample'))

    def collapse(self, roots):
        """replace conditional real terms all of whose branches have the same value by that value.
        Terms already replaced are abstracted to free variables in the queries (unsat stays valid)."""
        R = self.collapsed
        low = self.clow
        every = subterms(roots)
        outer = {r.id for r in roots}       # everything except inner branches of conditionals
        for t in every:
            outer.update(x.id for k, x in enumerate(t.args) if not (t.op == 'ite' and k and x.op == 'ite'))
        for t in every:
            if t.id in R:
                continue
            args = tuple(R[x.id] for x in t.args)
            n = t if all(p is q for p, q in zip(args, t.args)) else mk(t.op, args, t.sort, t.val)
            if t.id in outer and n.op == 'ite' and not isinstance(n.sort, int):
                leaves, st = {}, [n]
                while st:
                    x = st.pop()
                    if x.op == 'ite':
                        st += x.args[1:]
                    else:
                        leaves[x.id] = x
                if len(leaves) <= 6:
                    for p in sorted(leaves.values(), key=lambda x: (x.op in ('const', 'var'), x.id)):
                        try:
                            if self.solve(low, [], 1500, [low(n) != low(p), *low.side_for([n, p])])[0] == 'unsat':
                                n = p
                                if p.args:
                                    low.cache[p.id] = z3.FreshReal('c')
                                break
                        except (RealUnsupported, NotImplementedError):
                            break
            R[t.id] = n
        return [R[r.id] for r in roots]

    def decide_near(self, o, res):
        """equal up to rounding: identity over the reals"""
        a, b = o.extra
        a, b = self.collapse([a, b])
        low = Lower('real')
        v = 'unknown'
        cands = []
        try:
            # expand the difference: a polynomial identity then is a comparison of normal forms
            za, zb = low(a), low(b)
            d = z3.simplify(za - zb, som=True, max_steps=2000000)
            v, m = self.solve(low, [o.pc], self.o.get('real_ms', 60000), [d != 0, *low.side_for([a, b])])
            if v == 'unsat':
                self.stats['real'] = self.stats.get('real', 0) + 1
                return
            if v == 'sat':
                # rounded constants: equal up to a relative error far below the precision of the type
                eps = {'f32': z3.Q(1, 1 << 20), 'f64': z3.Q(1, 1 << 48)}[a.sort]
                za, zb = low(a), low(b)
                ab = lambda x: z3.If(x < 0, -x, x)
                v2, _ = self.solve(low, [o.pc], self.o.get('real_ms', 60000), [ab(za - zb) > eps * ab(zb), *low.side_for([a, b])])
                if v2 == 'unsat':
                    self.stats['real'] = self.stats.get('real', 0) + 1
                    return
                inp = {}
                for n, s, t in self.ex.inputs:
                    x = low.vars.get(t.val)
                    if x is None:
                        inp[n] = 0
                        continue
                    val = m.eval(x, model_completion=True)
                    if isinstance(s, int):
                        inp[n] = int(z3.is_true(val)) if s == 1 else val.as_long()
                    else:
                        if z3.is_algebraic_value(val):
                            val = val.approx(20)
                        f = float(val.as_fraction()) if z3.is_rational_value(val) else 0.0
                        inp[n] = evalc.tobits(evalc.NP[s](f), s)
                cands.append(inp)
        except RealUnsupported as e:
            v = f'not expressible over the reals ({e})'
        if self.solve(self.uf, [o.pc, bnot(o.cond)], 20000)[0] == 'unsat':
            return
        rng = random.Random(self.seed * 104729 + o.idx)
        for k in range(300):
            cands.append(self.rand_vec(rng, 'small'))
        w = self.try_inputs(cands)
        if w:
            return self.violation(res, o, *w)
        res['undecided'].append(dict(msg=o.msg, kind='near', why=f'real arithmetic: {v}'))

    # ------------------------------------------------------------ encoding validation
    def validate(self, res):
        """push concrete inputs through the encoding and through the native build"""
        rng = random.Random(self.seed)
        n = self.o.get('validate')
        # equality up to rounding is only meaningful natively on tame values
        tame = any(o.kind == 'near' for o in self.ex.obl)
        vecs = [self.rand_vec(rng, 'small' if tame or k % 2 else 'any') for k in range(n)]
        out = self.replay(vecs, trace=True)
        if len(out) != len(vecs):
            res['status'] = 'undecided'
            res['undecided'].append(dict(msg='validation: native run incomplete', why=f'{len(out)} of {len(vecs)}'))
            return
        agree = skipped = values = 0
        for vec, lines in zip(vecs, out):
            if lines[-1].startswith('VIOLATION'):
                res['status'] = 'violation'
                res['violations'].append(dict(msg='native run disagrees with the solver verdict', kind='validation',
                                              native=lines[-1][10:], inputs={k: f'{v:x}' for k, v in vec.items()}))
                return
            if lines[-1] != 'OK':
                skipped += 1
                continue
            ev = evalc.Eval({'in.' + k: v for k, v in vec.items()})
            exp = []
            try:
                for pc, t, kind in self.ex.obs:
                    if ev(pc):
                        exp.append((kind, ev(t), t.sort))
            except evalc.CannotEval:
                skipped += 1
                continue
            got = [ln.split(' ') for ln in lines[:-1]]
            bad = None
            if len(got) != len(exp):
                bad = f'{len(exp)} observations expected, {len(got)} made'
            else:
                for (kind, v, s), g in zip(exp, got):
                    x = int(g[2], 16)
                    if isinstance(s, int):
                        ok = (x & mask(s)) == v
                    else:
                        y = evalc.frombits(x & mask(FPBITS[s]), s)
                        ok = (y != y and v != v) or evalc.tobits(v, s) == x & mask(FPBITS[s])
                    values += 1
                    if not ok:
                        bad = f'{kind}: encoding {v!r}, native {g[2]}'
                        break
            if bad:
                res['status'] = 'undecided'
                res['undecided'].append(dict(msg='encoding disagrees with native execution', why=bad,
                                             inputs={k: f'{v:x}' for k, v in vec.items()}))
                return
            agree += 1
        res['validated'] = agree
        res['validated_values'] = values
        res['validation_skipped'] = skipped

    def fin(self, res):
        ex = getattr(self, 'ex', None)
        res['stats'] = self.stats
        if ex is not None:
            res['instrs'] = ex.instrs
            res['max_unwind'] = ex.max_unwind
            res['merges'] = ex.merges
            res['assumes'] = ex.assumes
        res['wall_s'] = round(time.time() - self.t0, 3)
        return res
