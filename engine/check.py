"""Check one property: extract the contracts and the real code, discharge every obligation, replay failures.

usage: check.py <property id> [--tier quick|thorough] [--only substr] [--config name] [-v]
Exit 0: every obligation discharged (known findings are printed).  Exit 1: VIOLATION line.  Exit 2: no answer.
"""
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.environ.get('VC_BUILD', os.path.join(ROOT, 'build'))
REPLAY = os.environ.get('VC_REPLAY', os.path.join(ROOT, 'replay'))
EVID = os.environ.get('VC_EVIDENCE', os.path.join(ROOT, 'evidence'))
CLANG = 'clang++-18'
NPROC = int(os.environ.get('VC_JOBS', os.cpu_count() or 8))

CONFIGS = {
    'cxx17': ['-std=c++17'],
    'cxx20': ['-std=c++20'],
    # evaluates the library's constant-evaluation branches (the code a constexpr evaluation runs)
    'consteval17': ['-std=c++17', '-D__builtin_is_constant_evaluated()=true', '-DVC_CONSTEVAL'],
    'consteval20': ['-std=c++20', '-D__builtin_is_constant_evaluated()=true', '-DVC_CONSTEVAL'],
    # release mode: library assertions compiled out
    'ndebug17': ['-std=c++17', '-DNDEBUG'],
}
SYM = ['-DVC_SYMBOLIC', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-gline-tables-only', '-emit-llvm', '-c', '-w']
NAT = ['-O1', '-g1', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function,vptr,shift-base', '-w']


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def build_irdump():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'irdump.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        flags = [x for x in run(['llvm-config-18', '--cxxflags']).stdout.split() if not x.startswith('-std=')]
        tmp = out + '.tmp%d' % os.getpid()
        r = run([CLANG, '-O1', '-std=c++17'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        if r.returncode:
            print(r.stderr[-3000:])
            raise SystemExit(2)
        os.rename(tmp, out)
    return out


def directives(path):
    d = {'configs': ['cxx17'], 'opts': {}, 'flags': [], 'thorough': []}
    for line in open(path):
        m = re.match(r'//\s*@(\w+)\s+(.*)', line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'configs':
            d['configs'] = v.split()
        elif k == 'thorough_configs':
            d['thorough'] = v.split()
        elif k == 'opt':
            for x in v.split():
                a, b = x.split('=')
                d['opts'][a] = float(b)
        elif k == 'flags':
            d['flags'] += v.split()
    return d


def inc():
    return ['-I' + HERE, '-I' + os.path.join(ROOT, 'contracts'), '-I' + os.path.join(REPO, 'include')]


def extract(args):
    path, cfg, flags, out, irdump = args
    bc = out + '.bc'
    r = run([CLANG] + CONFIGS[cfg] + SYM + flags + inc() + [path, '-o', bc])
    if r.returncode:
        return (path, cfg, None, r.stderr[-4000:])
    r = run([irdump, bc, out + '.json', 'vcproof_'])
    if r.returncode:
        return (path, cfg, None, r.stderr[-2000:])
    os.unlink(bc)
    return (path, cfg, out + '.json', None)


class Jobs:
    """forked workers, each with a hard time limit"""

    def __init__(self, n):
        self.n = n
        self.ctx = mp.get_context('fork')

    def map(self, fn, items, limit, progress=None):
        results = [None] * len(items)
        todo = list(range(len(items)))[::-1]
        live = []
        while todo or live:
            while todo and len(live) < self.n:
                i = todo.pop()
                r, w = self.ctx.Pipe(False)
                p = self.ctx.Process(target=self._child, args=(fn, items[i], w))
                p.start()
                w.close()
                live.append((i, p, r, time.time()))
            nxt = []
            mp.connection.wait([x[2] for x in live], timeout=0.5)
            for i, p, r, t0 in live:
                done = False
                if r.poll():
                    try:
                        results[i] = r.recv()
                    except EOFError:
                        results[i] = ('crash', 'worker died (exit code %s)' % p.exitcode)
                    done = True
                elif not p.is_alive():
                    results[i] = ('crash', 'worker died (exit code %s)' % p.exitcode)
                    done = True
                elif time.time() - t0 > limit:
                    results[i] = ('timeout', 'hard time limit of %d s' % limit)
                    done = True
                if done:
                    if p.is_alive():
                        p.join(0.2)
                    if p.is_alive():
                        p.kill()
                    p.join()
                    r.close()
                    if progress:
                        progress(i, results[i], time.time() - t0)
                else:
                    nxt.append((i, p, r, t0))
            live = nxt
        return results

    @staticmethod
    def _child(fn, item, w):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            out = fn(item)
        except BaseException as e:  # noqa
            out = ('crash', repr(e))
        w.send(out)
        w.close()
        os._exit(0)


MODS = {}


def prove(item):
    import run as R
    js, entry, opts = item
    return R.run_proof(MODS.get(js) or js, entry, opts)


def native(path, cfg, flags, out):
    if os.path.exists(out):
        return out, None
    r = run([CLANG] + CONFIGS[cfg] + NAT + flags + inc() + [path, '-o', out, '-include', os.path.join(HERE, 'vc.hpp')])
    if r.returncode:
        return None, r.stderr[-3000:]
    return out, None


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=98')


def replay(prog, proof, f):
    """True if the contract is violated natively on the inputs in file f"""
    try:
        r = subprocess.run([prog, 'replay', proof, f], capture_output=True, text=True, timeout=30, env=ENV, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'does not terminate within 30 s'
    if r.returncode in (0, 3):
        return False, r.stderr[-500:]
    if 'allocation-size-too-big' in r.stderr or 'out-of-memory' in r.stderr or 'requested allocation size' in r.stderr:
        return False, r.stderr[-500:]
    return True, ('exit status %d\n' % r.returncode) + r.stderr[:3000]


def search(args):
    prog, proof, seed, secs, out = args
    try:
        r = subprocess.run([prog, 'search', proof, str(seed), str(secs), out], capture_output=True, text=True, timeout=secs + 60, env=ENV, errors='replace')
    except subprocess.TimeoutExpired:
        return False, 'search timed out'
    return r.returncode == 1 and os.path.exists(out), r.stdout.strip()


def main():
    ap = sys.argv[1:]
    prop = ap[0]
    if prop == '--setup':
        print(build_irdump())
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only, onlycfg, verbose, nosearch = None, None, False, False
    i = 1
    while i < len(ap):
        if ap[i] == '--tier':
            tier = ap[i + 1]
            i += 1
        elif ap[i] == '--only':
            only = ap[i + 1]
            i += 1
        elif ap[i] == '--config':
            onlycfg = ap[i + 1]
            i += 1
        elif ap[i] == '--no-search':
            nosearch = True
        elif ap[i] == '-v':
            verbose = True
        i += 1
    t0 = time.time()
    irdump = build_irdump()
    work = os.path.join(BUILD, prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(REPLAY, prop)
    os.makedirs(rdir, exist_ok=True)
    files = sorted(os.path.join(ROOT, 'contracts', f) for f in os.listdir(os.path.join(ROOT, 'contracts')) if re.match(prop + r'[a-z_A-Z0-9]*\.cpp$', f))
    if not files:
        print('no contracts for', prop)
        return 2
    ex = []
    meta = {}
    for p in files:
        d = directives(p)
        cfgs = d['configs'] + (d['thorough'] if tier == 'thorough' else [])
        for c in cfgs:
            if onlycfg and c != onlycfg:
                continue
            out = os.path.join(work, os.path.basename(p)[:-4] + '-' + c)
            for suf in ('.native', '.json'):
                if os.path.exists(out + suf):
                    os.unlink(out + suf)
            ex.append((p, c, d['flags'], out, irdump))
            meta[(p, c)] = (d, out)
    jobs = Jobs(NPROC)
    res = jobs.map(extract, ex, 600)
    bad = [r for r in res if r[0] in ('crash', 'timeout') or r[2] is None]
    if bad:
        for b in bad:
            print('EXTRACTION FAILED', b[0], b[1])
            print(b[3] if len(b) > 3 else '')
        return 2
    textr = time.time() - t0
    import engine as eng
    items, info = [], []
    for p, c, js, _ in res:
        MODS[js] = eng.Module(js)
        d, out = meta[(p, c)]
        opts = {'time': 240 if tier == 'quick' else 1200, 'solver_ms': 60000 if tier == 'quick' else 240000}
        opts.update(d['opts'])
        if tier == 'thorough':
            opts['cross'] = 1
        for e in sorted(MODS[js].entries):
            n = e[len('vcproof_'):]
            if only and not re.search(only, n):
                continue
            items.append((js, e, opts))
            info.append((p, c, n))
    if not items:
        print('no proofs')
        return 2

    def progress(k, r, dt):
        if verbose:
            p, c, n = info[k]
            if isinstance(r, dict):
                print('  %-10s %-52s %s %d/%d gen %.1fs wall %.1fs%s' % (c, n, r['status'], r['discharged'], r['obligations'], r.get('gen_s', 0), r['wall_s'], ' ' + r.get('error', '') if r.get('error') else ''))
            else:
                print('  %-10s %-52s %s' % (c, n, r))
            sys.stdout.flush()
    hard = max(o['time'] for _, _, o in items) * 1.3 + 30
    out = jobs.map(prove, items, hard, progress)
    known = json.load(open(os.path.join(ROOT, 'known_findings.json'))) if os.path.exists(os.path.join(ROOT, 'known_findings.json')) else {'findings': []}
    kf = [k for k in known['findings'] if k['property'] == prop and k.get('status') != 'fixed']
    failed, undecided, ok, kfhit = [], [], [], []
    for (p, c, n), r in zip(info, out):
        if not isinstance(r, dict):
            undecided.append((p, c, n, {'error': '%s: %s' % r, 'failed': []}))
            continue
        r['config'] = c
        r['name'] = n
        if r['status'] == 'ok':
            ok.append(r)
            continue
        ks = [k for k in kf if k['proof'] == n]
        if ks and r['status'] == 'failed' and r['failed'] and all(any(f['label'] == k['obligation'] for k in ks) for f in r['failed']):
            for k in ks:
                if any(f['label'] == k['obligation'] for f in r['failed']):
                    kfhit.append((k, c))
            ok.append(r)
            continue
        if r['status'] in ('failed', 'vacuous'):
            failed.append((p, c, n, r))
        else:
            undecided.append((p, c, n, r))
    rc = 0
    nviol = 0
    lines = []
    if failed or undecided:
        settled = []
        rc, lines, nviol = triage(prop, tier, seed, failed, undecided, meta, work, rdir, jobs, nosearch, verbose, t0, settled)
        for q, b in settled:
            (failed if q in failed else undecided).remove(q)
            ok.append(b)
            out[next(i for i, k in enumerate(info) if k == q[:3])] = b
    crosscheck = None
    if tier == 'thorough' and rc == 0 and not only:
        crosscheck, rc2, l2 = native_cross(prop, seed, info, meta, work, rdir, jobs, kf)
        lines += l2
        if rc2:
            rc = rc2
            nviol += 1
    if not only and not onlycfg:
        evidence(prop, tier, seed, ok, failed, undecided, kfhit, nviol, t0, textr, crosscheck)
    seen = set()
    for k, c in kfhit:
        s = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
        if s not in seen:
            print(s)
            seen.add(s)
    tot = [r for r in out if isinstance(r, dict)]
    print('%s: %d contracts, %d/%d obligations discharged, %d failed, %d undecided, %.1f s (extraction %.1f s)' % (
        prop, len(items), sum(r['discharged'] for r in tot), sum(r['obligations'] for r in tot), len(failed), len(undecided), time.time() - t0, textr))
    for l in lines:
        print(l)
    return rc


def triage(prop, tier, seed, failed, undecided, meta, work, rdir, jobs, nosearch, verbose, t0, settled):
    """look for a concrete failing input of every failed contract on the real code"""
    lines = []
    # native programs of the files concerned
    need = sorted({(p, c) for p, c, n, r in failed + undecided})
    built = {}

    def bld(k):
        d, out = meta[k]
        return native(k[0], k[1], d['flags'], out + '.native')
    for k, r in zip(need, jobs.map(bld, need, 600)):
        if isinstance(r, tuple) and r[0] and r[0] not in ('crash', 'timeout'):
            built[k] = r[0]
        else:
            print('native build failed for %s %s: %s' % (k[0], k[1], r[1]))
    confirmed = []
    open_ = []
    for p, c, n, r in failed + undecided:
        prog = built.get((p, c))
        hit = None
        for j, f in enumerate(r.get('failed', [])):
            if not f.get('inputs') or not prog:
                continue
            path = os.path.join(rdir, '%s.%s.%d.txt' % (n, c, j))
            with open(path, 'w') as fh:
                fh.write('# property=%s contract=%s config=%s\n# obligation: %s (%s) at %s\n# replay: %s replay %s %s\n' % (prop, n, c, f['label'], f['kind'], f['loc'], prog, n, path))
                fh.write(f['inputs'])
            bad, log = replay(prog, n, path)
            if bad:
                with open(path, 'a') as fh:
                    fh.write(''.join('# ' + l + '\n' for l in log.splitlines()[:60]))
                hit = (path, f['label'])
                break
            os.unlink(path)
        if hit:
            confirmed.append((n, c, hit))
        else:
            open_.append((p, c, n, r))
    # random search natively
    secs = 0 if nosearch else (25 if tier == 'quick' else 90)
    if open_ and secs and not confirmed:
        its = []
        for p, c, n, r in open_:
            if built.get((p, c)):
                reps = max(1, min(4, jobs.n // max(1, len(open_))))
                for k in range(reps):
                    its.append(((p, c, n), (built[(p, c)], n, seed + 7919 * k, secs, os.path.join(rdir, '%s.%s.search%d.txt' % (n, c, k)))))
        its = its[:jobs.n * 3]
        rs = jobs.map(search, [x[1] for x in its], secs + 90)
        for (key, a), r in zip(its, rs):
            if isinstance(r, tuple) and r[0] is True:
                path = a[4]
                bad, log = replay(a[0], a[1], path)
                if bad:
                    body = open(path).read()
                    with open(path, 'w') as fh:
                        fh.write('# property=%s contract=%s config=%s\n# found by executing the contract on the real code (seeded search) after an obligation failed\n# replay: %s replay %s %s\n' % (prop, key[2], key[1], a[0], a[1], path))
                        fh.write(body)
                        fh.write(''.join('# ' + l + '\n' for l in log.splitlines()[:60]))
                    lab = [f['label'] for q in open_ if (q[0], q[1], q[2]) == key for f in q[3].get('failed', [])]
                    confirmed.append((key[2], key[1], (path, lab[0] if lab else 'search')))
        open_ = [q for q in open_ if not any(x[0] == q[2] and x[1] == q[1] for x in confirmed)]
    # solvers are given time limits: before anything is concluded from their failure, more time and less load
    if open_ and not confirmed and time.time() - t0 < 400:
        its = []
        few = Jobs(max(1, jobs.n // 2))
        lim = 1200 if tier != 'quick' else min(250, max(40, (640 - (time.time() - t0)) / -(-len(open_) // few.n)))
        for p, c, n, r in open_:
            d, out = meta[(p, c)]
            its.append((out + '.json', 'vcproof_' + n, dict(d['opts'], time=lim, solver_ms=60000, effort=6)))
        for q, b in zip(list(open_), few.map(prove, its, lim * 1.2 + 10)):
            if isinstance(b, dict) and b['status'] == 'ok':
                b['config'], b['name'] = q[1], q[2]
                settled.append((q, b))
                open_.remove(q)
            elif isinstance(b, dict) and b['status'] == 'failed' and q in failed and not any(f['why'] == 'refuted' for f in b['failed']):
                q[3]['failed'] = b['failed']
    if not open_ and not confirmed:
        return 0, lines, 0
    # bounded symbolic exploration without loop cuts and stubs
    if open_ and not confirmed and not nosearch and (tier != 'quick' or time.time() - t0 < 700):
        its = []
        for p, c, n, r in open_[:2 * jobs.n]:
            d, out = meta[(p, c)]
            o = {'time': 120 if len(open_) <= jobs.n else 60, 'solver_ms': 20000, 'bmc': 1, 'unroll': 9, 'max_fail': 3}
            its.append((out + '.json', 'vcproof_' + n, o))
        rs = jobs.map(prove, its, its[0][2]['time'] + 40)
        for (p, c, n, r), b in zip(open_, rs):
            if not isinstance(b, dict) or not built.get((p, c)):
                continue
            for j, f in enumerate(b.get('failed', [])):
                if not f.get('inputs'):
                    continue
                path = os.path.join(rdir, '%s.%s.bmc%d.txt' % (n, c, j))
                with open(path, 'w') as fh:
                    fh.write('# property=%s contract=%s config=%s\n# obligation: %s (%s) at %s\n# replay: %s replay %s %s\n' % (prop, n, c, f['label'], f['kind'], f['loc'], built[(p, c)], n, path))
                    fh.write(f['inputs'])
                bad, log = replay(built[(p, c)], n, path)
                if bad:
                    with open(path, 'a') as fh:
                        fh.write(''.join('# ' + l + '\n' for l in log.splitlines()[:60]))
                    confirmed.append((n, c, (path, f['label'])))
                    break
                os.unlink(path)
    if confirmed:
        for n, c, (path, lab) in confirmed[:6]:
            print('obligation "%s" of contract %s (%s) fails: confirmed on the real code' % (lab, n, c))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        return 1, lines, len(confirmed)
    hard = [q for q in open_ if q in failed and any(f['why'] == 'refuted' for f in q[3]['failed'])]
    if hard:
        for p, c, n, r in hard[:6]:
            path = os.path.join(rdir, '%s.%s.obligation.txt' % (n, c))
            with open(path, 'w') as fh:
                fh.write('# property=%s contract=%s config=%s\n# the verifier no longer discharges the obligations below; no failing input was found by replaying the\n# verifier\'s models, by seeded search on the real code, nor by bounded exploration\n' % (prop, n, c))
                for f in r['failed']:
                    fh.write('# FAILED obligation: %s (%s) at %s: %s\n' % (f['label'], f['kind'], f['loc'], f['why']))
                    if f.get('inputs'):
                        fh.write('# model (of the abstraction; does not reproduce natively):\n' + ''.join('#   ' + l[:400] + '\n' for l in f['inputs'].splitlines()))
            print('obligation "%s" of contract %s (%s) is not discharged (%s)' % (r['failed'][0]['label'], n, c, r['failed'][0]['loc']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1, lines, len(hard)
    for p, c, n, r in open_:
        print('UNDECIDED contract %s (%s): %s' % (n, c, r.get('error') or (r.get('vacuous') and 'vacuous: %s' % r['vacuous']) or [(f['label'], f['why'], f['loc']) for f in r.get('failed', [])][:3]))
    return 2, lines, 0


def native_cross(prop, seed, info, meta, work, rdir, jobs, kf):
    """thorough tier: execute every contract on the real code with random inputs (validates contracts and engine)"""
    need = sorted({(p, c) for p, c, n in info})
    built = {}

    def bld(k):
        d, out = meta[k]
        return native(k[0], k[1], d['flags'], out + '.native')
    for k, r in zip(need, jobs.map(bld, need, 900)):
        if isinstance(r, tuple) and r[0] and r[0] not in ('crash', 'timeout'):
            built[k] = r[0]
        else:
            print('native build failed', k, r)
    skip = {k['proof'] for k in kf}
    its = [((p, c, n), (built[(p, c)], n, seed, 12, os.path.join(rdir, '%s.%s.cross.txt' % (n, c)))) for p, c, n in info if (p, c) in built and n not in skip]
    rs = jobs.map(search, [x[1] for x in its], 120)
    total = 0
    lines = []
    rc = 0
    for (key, a), r in zip(its, rs):
        if isinstance(r, tuple):
            m = re.search(r'in (\d+) executions', str(r[1])) or re.search(r'after (\d+) executions', str(r[1]))
            if m:
                total += int(m.group(1))
            if r[0] is True:
                bad, log = replay(a[0], a[1], a[4])
                if bad:
                    print('contract %s (%s) fails natively although its obligations were discharged' % (key[2], key[1]))
                    lines.append('VIOLATION property=%s replay=%s' % (prop, a[4]))
                    rc = 1
    return {'native_executions': total, 'contracts_executed': len(its)}, rc, lines


TRUST = [
    'clang 18 front end: the LLVM IR it emits for the contract file and the headers of /repo means what the C++ means (x86-64, little endian)',
    'LLVM passes sroa, lowerswitch, lowerinvoke, loweratomic (contracts are single-threaded), loop-simplify, lcssa (run before extraction)',
    'engine/*.py: the verification-condition generator, its term simplifier and memory model',
    'z3 5.3 (python) and cvc5 1.1.2 as SMT back ends',
    'assumed contracts in engine/intrin.py: operator new never fails or throws, memcpy/memmove/memset/memcmp/strlen, LLVM intrinsics',
]


def evidence(prop, tier, seed, ok, failed, undecided, kfhit, nviol, t0, textr, cross):
    allr = ok + [r for _, _, _, r in failed] + [r for _, _, _, r in undecided if 'obligations' in r]
    unb = [r for r in allr if not r.get('bounded')]
    bnd = [r for r in allr if r.get('bounded')]
    by = {}
    kinds = {}
    funcs = set()
    assumed = set()
    stubs = {}
    loops = {}
    z3s = z3q = cvs = cvq = 0
    for r in allr:
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
        for k, v in r.get('kinds', {}).items():
            kinds[k] = kinds.get(k, 0) + v
        funcs |= set(r.get('functions', []))
        assumed |= set(r.get('ext', []))
        stubs.update(r.get('stubs', {}))
        for l in r.get('invariants', []):
            loops[(l['function'], l['loop'])] = l
        s = r.get('solver', {})
        z3s += s.get('z3_s', 0)
        z3q += s.get('z3_q', 0)
        cvs += s.get('cvc5_s', 0)
        cvq += s.get('cvc5_q', 0)
    ass = []
    for p in sorted(os.listdir(os.path.join(ROOT, 'contracts'))):
        if re.match(prop + r'[a-z_A-Z0-9]*\.cpp$', p):
            for line in open(os.path.join(ROOT, 'contracts', p)):
                m = re.match(r'//\s*@assume\s+(.*)', line)
                if m:
                    ass.append(m.group(1).strip())
    for n in sorted(assumed):
        ass.append('external function %s treated as an uninterpreted function of its arguments' % n)
    for a, b in sorted(stubs.items()):
        ass.append('call to %s replaced by its contract %s (the callee is verified against the same contract under its own property)' % (a, b))
    for r in bnd:
        ass.append('BOUNDED, not proved: contract %s holds within %s only' % (r['name'], r['bounded']))
    cov = {
        'obligations': sum(r['obligations'] for r in unb),
        'discharged': sum(r['discharged'] for r in unb),
        'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUST,
        'contracts': [{'name': r['name'], 'config': r['config'], 'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'wall_s': r['wall_s'], 'covers': r.get('covers', 0)} for r in allr],
        'functions_under_contract': sorted(funcs)[:600],
        'functions_count': len(funcs),
        'obligation_kinds': kinds,
        'discharged_by': by,
        'solver': {'z3_seconds': round(z3s, 1), 'z3_queries': z3q, 'cvc5_seconds': round(cvs, 1), 'cvc5_queries': cvq},
        'loops_cut_with_inferred_invariants': [{'function': k[0], 'loop': k[1], 'invariants': v['invariants'], 'terminates': v['trip_bound']} for k, v in sorted(loops.items())][:200],
        'bounded_contracts': [{'name': r['name'], 'bound': r['bounded'], 'obligations': r['obligations'], 'discharged': r['discharged']} for r in bnd],
        'known_findings': sorted({k['what'] for k, c in kfhit}),
        'failed_obligations': [{'contract': n, 'config': c, 'label': f['label'], 'loc': f['loc'], 'why': f['why']} for _, c, n, r in failed for f in r.get('failed', [])],
        'extraction_s': round(textr, 1),
    }
    if cross:
        cov['native_cross_check'] = cross
    level = 'proof'
    if not unb:
        level = 'other'
        cov['explanation'] = 'Bounded stand-in for a proof: %d contracts on the real functions, %d/%d obligations discharged by the same verifier with symbolic inputs, within the stated bounds only (see bounded_contracts); nothing here is counted as proved.' % (
            len(bnd), sum(r['discharged'] for r in bnd), sum(r['obligations'] for r in bnd))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    tmp = os.path.join(EVID, prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(EVID, prop + '.json'))


if __name__ == '__main__':
    import multiprocessing.connection
    sys.exit(main())
