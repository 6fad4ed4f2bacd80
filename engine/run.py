"""Run one proof function of an extracted module: generate and discharge its obligations."""
import sys
import os
import time
import subprocess
import tempfile
import traceback
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as t
from terms import TRUE, FALSE, const
import engine as eng


def base_facts(exprs, E):
    """facts about the addresses of the objects mentioned by the formulas: aligned, non-null, no wrap-around"""
    seen = set()
    out = []
    st = list(exprs)
    bases = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var' and x.id in t.PTRBASE:
            bases.append(x)
        st.extend(t.subterms(x))
    for b in bases:
        o = E.objs[t.PTRBASE[b.id]]
        out.append(t.ne(b, const(0, 64)))
        if o.align > 1:
            out.append(t.eq(t._mk('and', (const(o.align - 1, 64), b), 64), const(0, 64)))
        out.append(t.ult(b, const(1 << 62, 64)))
        if o.size.op != 'const':
            out.append(t.ule(o.size, const(1 << 46, 64)))
    return out


def mk_solver(E, ms, formulas=None):
    if E.has_fp:
        s = z3.Solver()
    elif formulas is not None:
        s = z3.Solver() if t.has_uf(formulas) else z3.SolverFor('QF_BV')
    else:
        s = z3.SolverFor('QF_UFBV')
    s.set('timeout', int(ms))
    return s


def z3_quick(E, fs, ms, stats):
    s = mk_solver(E, ms, fs)
    for x in fs:
        s.add(t.to_z3(x))
    t1 = time.time()
    r = s.check()
    if stats is not None:
        stats['z3_s'] += time.time() - t1
        stats['z3_q'] += 1
    return r


def portfolio(E, fs, ms, stats, one=False):
    """-> (answer, z3 model or None, back end).  z3 (bit-blasting) with a short limit, cvc5 over integers (exact
    translation of the modular arithmetic), then both with the full limit."""
    if stats is None:
        stats = {'z3_s': 0.0, 'z3_q': 0, 'cvc5_s': 0.0, 'cvc5_q': 0}
    s0 = []

    def z(lim):
        s = mk_solver(E, lim, fs)
        for x in fs:
            s.add(t.to_z3(x))
        s0[:] = [s]
        t1 = time.time()
        r = s.check()
        stats['z3_s'] += time.time() - t1
        stats['z3_q'] += 1
        return r, s
    first = min(ms, ((250 if E.int_wins > 1 else 1500) if not one else 400) * E.effort)
    r, s = z(first)
    if r == z3.unsat:
        return 'unsat', None, 'z3'
    if r == z3.sat:
        return 'sat', s.model(), 'z3'
    if one:
        if not E.has_fp and E.int_wins > 1:
            if cvc5_check(s, 1500 * E.effort, stats, ('--solve-bv-as-int=sum',)) == 'unsat':
                return 'unsat', None, 'cvc5-int'
        return 'unknown', None, 'z3'
    if not E.has_fp:
        r2 = cvc5_check(s, min(ms, 4000 * E.effort), stats, ('--solve-bv-as-int=sum',))
        if r2 == 'unsat':
            E.int_wins += 1
            return 'unsat', None, 'cvc5-int'
        if r2 == 'unknown':
            E.int_wins = 0
        if r2 == 'sat' and ms <= 8000:
            return 'sat', None, 'cvc5-int'
        fa = t.abstract_nonlinear(fs)
        if fa is not None:
            s2 = mk_solver(E, 1500 * E.effort, fa)
            for x in fa:
                s2.add(t.to_z3(x))
            if s2.check() == z3.unsat or cvc5_check(s2, min(ms, 4000 * E.effort), stats, ('--solve-bv-as-int=sum',)) == 'unsat':
                return 'unsat', None, 'z3+nl'
    if ms > first:
        r, s = z(ms)
        if r == z3.unsat:
            return 'unsat', None, 'z3'
        if r == z3.sat:
            return 'sat', s.model(), 'z3'
    if not E.has_fp:
        r2 = cvc5_check(s, ms, stats)
        if r2 == 'unsat':
            return 'unsat', None, 'cvc5'
    return 'unknown', None, 'z3'


def query(E, formulas, ms, stats, goals=None):
    """satisfiability of the conjunction; `goals`: the formulas that may not be dropped.
    Full query with a short limit, then with the premises local to the goals only (sound for unsat), then long."""
    full = list(formulas) + base_facts(formulas, E)
    plan = [(full, min(ms, 6000))]
    if goals is not None and len(formulas) > len(goals):
        sl = t.slice_local([f for f in formulas if f not in goals], goals[-1], goals[0]) + goals[-1:]
        if len(sl) < len(formulas) + 1:
            sf = sl + base_facts(sl, E)
            if z3_quick(E, sf, 300 * E.effort, stats) == z3.unsat:
                return 'unsat', None, 'z3'
            plan.append((sf, min(ms, 15000)))
        rest = [f for f in formulas if f not in goals]

        def light(ax, lim):
            lf = t.slice_light(rest, goals[0], ax) + goals[-1:]
            lf += base_facts(lf, E)
            return z3_quick(E, lf, lim * E.effort, stats) == z3.unsat
        if light(False, 300):
            return 'unsat', None, 'z3'
        s = mk_solver(E, 800 * E.effort, full)
        s.add(*[t.to_z3(x) for x in full])
        t1 = time.time()
        r = s.check()
        stats['z3_s'] += time.time() - t1
        stats['z3_q'] += 1
        if r != z3.unknown:
            return ('unsat', None, 'z3') if r == z3.unsat else ('sat', s.model(), 'z3')
        if light(True, 500):
            return 'unsat', None, 'z3'
        if not E.has_fp:
            lf = t.slice_light(rest, goals[0], True, 1000) + goals[-1:]
            lf += base_facts(lf, E)
            s = z3.Solver()
            s.add(*[t.to_z3(x) for x in lf])
            if cvc5_check(s, 2500 * E.effort, stats, ('--solve-bv-as-int=sum',)) == 'unsat':
                return 'unsat', None, 'cvc5-int'
        plan.insert(1, (lf, min(ms, 4000)))
    if ms > 6000:
        plan.append((full, ms))
    for fs, lim in plan:
        r, m, by = portfolio(E, fs, lim, stats)
        if r == 'unsat':
            return 'unsat', None, by
        if r == 'sat' and fs is full and m is not None:
            return 'sat', m, by
    return 'unknown', None, 'z3'


def cvc5_check(s, ms, stats, flags=()):
    t0 = time.time()
    try:
        txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % int(ms), '--lang=smt2', *flags, '-'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
            out = o.stdout.strip().split('\n')[0] if o.stdout.strip() else 'unknown'
        except subprocess.TimeoutExpired:
            out = 'unknown'
    except Exception:
        out = 'unknown'
    stats['cvc5_s'] += time.time() - t0
    stats['cvc5_q'] += 1
    return out


def extract_inputs(E, m):
    """concrete inputs (native replay format) from a model"""
    lines = []
    for kind, name, d in E.inputs:
        if kind == 'int':
            v = m.eval(t.to_z3(d), model_completion=True)
            x = (1 if z3.is_true(v) else 0) if d.w == 0 else v.as_long()
            lines.append('%s %d' % (name, x))
        elif kind in ('f32', 'f64'):
            bv = m.eval(z3.fpToIEEEBV(t.to_z3(d)), model_completion=True)
            lines.append('%s %d' % (name, bv.as_long()))
        elif kind == 'mem':
            cnt, esz, uf = d
            n = m.eval(t.to_z3(cnt), model_completion=True).as_long()
            vals = []
            for i in range(min(n, 4096)):
                e = t.uf(uf, (const(i * esz, 64),), 8 * esz)
                vals.append(m.eval(t.to_z3(e), model_completion=True).as_long())
            lines.append(name + ''.join(' %d' % v for v in vals))
    return '\n'.join(lines) + '\n'


def small_model(E, formulas, m, ms, stats):
    """prefer a counterexample with small sizes"""
    sizes = [d[0] for k, n, d in E.inputs if k == 'mem' and d[0].op != 'const']
    sizes += [d for k, n, d in E.inputs if k == 'int' and d.w == 64]
    if not sizes:
        return m
    for lim in (4, 40, 200, 5000):
        r, m2, _ = query(E, list(formulas) + [t.ule(s, const(lim, 64)) for s in sizes], min(ms, 8000), stats)
        if r == 'sat':
            return m2
    return m


def run_proof(json_path, entry, opts):
    """-> result dict"""
    t0 = time.time()
    res = {'proof': entry, 'status': 'ok', 'obligations': 0, 'discharged': 0, 'failed': [], 'functions': [], 'stubs': {}, 'invariants': [], 'by': {}, 'covers': 0}
    stats = {'z3_s': 0.0, 'z3_q': 0, 'cvc5_s': 0.0, 'cvc5_q': 0}
    try:
        mod = json_path if isinstance(json_path, eng.Module) else eng.Module(json_path)
        E = eng.Engine(mod, opts)
        E.deadline = t0 + opts.get('time', 600)
        f = mod.fns[entry]
        st = eng.State({}, {})
        v, st2, g2 = E.call_fn(entry, [], st, TRUE)
        res['gen_s'] = round(time.time() - t0, 2)
        res['functions'] = sorted(p for n, p in E.funcs_seen.items() if 'Nz::' in p)
        res['stubs'] = {mod.fns[a].pretty if a in mod.fns else a: b for a, b in E.stubs.items()}
        res['invariants'] = E.inv_report
        res['steps'] = E.steps
        res['ext'] = sorted(E.assumed_ext)
        ms = opts.get('solver_ms', 60000)
        obls = E.obls
        res['obligations'] = len(obls)
        pend = [o for o in obls if o.status != 'proved']
        # batch the safety obligations first, then settle each remaining one on its own
        safety = [o for o in pend if o.kind not in ('contract',)]
        contract = [o for o in pend if o.kind == 'contract']
        stop_after = opts.get('max_fail', 3)

        def prem(o):
            return E.assumptions[:o.nass] + [o.guard]

        def settle(group):
            if not group:
                return
            if time.time() > E.deadline:
                for o in group:
                    o.status = 'undecided'
                return
            if len(group) == 1:
                o = group[0]
                fs = prem(o) + [t.bnot(o.cond)]
                tq = time.time()
                r, m, by = query(E, fs, ms, stats, [o.guard, t.bnot(o.cond)])
                o.time = time.time() - tq
                if r == 'unsat':
                    o.status, o.solver = 'proved', by
                elif r == 'sat':
                    o.status = 'refuted'
                    if len(res['failed']) < stop_after:
                        m = small_model(E, fs, m, ms, stats)
                        res['failed'].append({'label': o.label, 'kind': o.kind, 'loc': '%s:%s' % o.loc if o.loc else '?', 'why': 'refuted', 'inputs': extract_inputs(E, m), 'abstract': bool(E.loopcuts or E.stubs)})
                else:
                    o.status = 'undecided'
                    res['failed'].append({'label': o.label, 'kind': o.kind, 'loc': '%s:%s' % o.loc if o.loc else '?', 'why': 'undecided (solver gave no answer)', 'inputs': None, 'abstract': True})
                return
            # one query: exists an obligation violated, with a shared chain of assumption prefixes
            group.sort(key=lambda o: o.nass)
            lo = group[0].nass
            allf = list(E.assumptions[:group[-1].nass])
            for o in group:
                allf += [o.guard, o.cond]
            fs = E.assumptions[:lo] + base_facts(allf, E)
            pre = TRUE
            cur = lo
            dis = []
            for o in group:
                if o.nass > cur:
                    pre = t.andb(pre, *E.assumptions[cur:o.nass])
                    cur = o.nass
                dis.append(t.andb(pre, o.guard, t.bnot(o.cond)))
            fs.append(t.orb(*dis))
            r, m, by = portfolio(E, fs, 3000 * E.effort if len(group) > 1 else ms, stats, one=True)
            if r == 'unsat':
                for o in group:
                    o.status, o.solver = 'proved', by
                return
            if len(group) <= 6:
                for o in group:
                    settle([o])
                return
            h = len(group) // 2
            settle(group[:h])
            settle(group[h:])
        for i in range(0, len(safety), 40):
            settle(safety[i:i + 40])
        for o in contract:
            settle([o])
        # vacuity: the end of the proof function must be reachable under all assumptions
        # (or the point after which the code may refuse its input or throw)
        vac = []
        alt = [('end of proof', g2, len(E.assumptions))] + [c for c in E.covers if c[0] in ('vc::may_reject', 'vc::may_throw')]
        for group in [alt] + [[c] for c in E.covers if c not in alt]:
            answers = []
            for label, g, n in group:
                r = 'unsat' if g is FALSE else query(E, E.assumptions[:n] + [g], min(ms, 20000), stats)[0]
                answers.append(r)
                if r == 'sat':
                    res['covers'] += 1
                    break
            if all(r == 'unsat' for r in answers):
                vac.append(group[0][0])
        res['vacuous'] = vac
        for o in obls:
            if o.status == 'proved':
                res['discharged'] += 1
                res['by'][o.solver] = res['by'].get(o.solver, 0) + 1
        kinds = {}
        for o in obls:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        res['kinds'] = kinds
        if res['discharged'] != res['obligations']:
            res['status'] = 'failed'
        elif vac:
            res['status'] = 'vacuous'
        if E.bounded:
            res['bounded'] = E.bounded
        if opts.get('bmc'):
            res['bounded'] = 'unrolling %d' % E.unroll_limit
    except eng.Budget as e:
        res['status'] = 'undecided'
        res['error'] = 'time budget exhausted'
    except eng.Unsupported as e:
        res['status'] = 'undecided'
        res['error'] = 'outside the verifier: %s' % e
        if opts.get('verbose'):
            traceback.print_exc()
    except Exception as e:
        res['status'] = 'error'
        res['error'] = ''.join(traceback.format_exception_only(type(e), e)).strip()
        if opts.get('verbose'):
            traceback.print_exc()
        res['trace'] = traceback.format_exc()[-2000:]
    res['wall_s'] = round(time.time() - t0, 2)
    res['solver'] = {k: round(x, 2) if isinstance(x, float) else x for k, x in stats.items()}
    return res


if __name__ == '__main__':
    import json
    opts = {'verbose': True}
    for a in sys.argv[3:]:
        k, v = a.split('=')
        opts[k] = float(v) if '.' in v else int(v)
    mod = json.load(open(sys.argv[1]))
    for e in mod['entries']:
        if sys.argv[2] in ('all', e, e.replace('vcproof_', '')):
            r = run_proof(sys.argv[1], e, opts)
            fl = r.pop('functions')
            print(json.dumps(r, indent=1)[:6000] if r['status'] != 'ok' or opts.get('v') else '%s ok %d/%d gen %.1fs wall %.1fs %s' % (e, r['discharged'], r['obligations'], r.get('gen_s', 0), r['wall_s'], r.get('kinds')))
