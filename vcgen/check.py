#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only CONTRACT] [-v]

Regenerates, from the current tree of /repo, every proof obligation of one property and
discharges it.  Exit 0: all obligations discharged.  Exit 1: VIOLATION line printed."""
import sys, os, re, json, time, glob, subprocess, tempfile, shutil, traceback, hashlib, signal
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
MODS = ['utils', 'features2d', 'imgproc', 'datasets', 'video', 'vptz', 'world', 'test']
NCPU = os.cpu_count() or 4


def sh(cmd, timeout=600, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **k)


def instantiate(work):
    """generated headers of the build, made from the current tree's templates"""
    cfg = json.load(open(os.path.join(HERE, 'config.json')))
    src = os.path.join(REPO, 'modules/utils/include/litiv/utils/defines.hpp.in')
    d = os.path.join(work, 'inc/litiv/utils'); os.makedirs(d, exist_ok=True)
    t = open(src).read()
    t = re.sub(r'@(\w+)@', lambda m: cfg.get(m.group(1), ''), t)
    open(os.path.join(d, 'defines.hpp'), 'w').write(t)


def flags(work):
    compat = '/opt/vp/support/compat/opencv4_compat.hpp'
    if not os.path.exists(compat): compat = os.path.join(HERE, 'opencv4_compat.hpp')
    f = ['-std=gnu++14', '-DNDEBUG', '-DLITIV_BUILD', '-DLITIV_DEBUG=0', '-DLV_EXPORT_API=', '-I' + work + '/inc']
    for m in MODS: f.append('-I%s/modules/%s/include' % (REPO, m))
    for m in MODS: f.append('-I%s/modules/%s/src' % (REPO, m))
    f += ['-I%s' % REPO, '-I%s/3rdparty/ofdis/include' % REPO, '-I/usr/include/eigen3', '-I%s/3rdparty/bsds500/include' % REPO,
          '-isystem', '/usr/include/opencv4', '-include', compat, '-march=x86-64-v3', '-w', '-fopenmp', '-DDATASETS_LITIV2018_DATA_VERSION=2',
          '-I' + os.path.join(VERIF, 'contracts')]
    return f


def directives(src):
    d = {}
    for l in open(src):
        m = re.match(r'\s*//\s*vc:(\S+)\s*(.*)', l)
        if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def build_bc(work, src):
    base = os.path.splitext(os.path.basename(src))[0]
    raw, out = os.path.join(work, base + '.raw.bc'), os.path.join(work, base + '.bc')
    dirs = directives(src)
    extra = ' '.join(dirs.get('flags', [])).split()
    p = sh(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-slp-vectorize', '-Wno-invalid-constexpr', '-ffp-contract=off', '-DVC_VERIFY', '-emit-llvm', '-c', src, '-o', raw] + [f for f in flags(work) if f != '-fopenmp'] + extra)
    if p.returncode: return None, 'clang: ' + p.stdout[-4000:]
    p = sh(['opt-18' if shutil.which('opt-18') else 'opt', '-passes=function(sroa,early-cse,loop-simplify,lcssa)', raw, '-o', out])
    if p.returncode: return None, 'opt: ' + p.stdout[-4000:]
    os.unlink(raw)
    return out, ''


def build_replay(work, src, opt='-O1', san=True):
    base = os.path.splitext(os.path.basename(src))[0]
    out = os.path.join(work, base + '.replay')
    dirs = directives(src)
    extra = ' '.join(dirs.get('flags', [])).split()
    s = ['-fsanitize=address', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,bounds', '-fno-sanitize-recover=all'] if san and not dirs.get('nosan') else []
    libs = ['-lopencv_core', '-lopencv_imgproc', '-lopencv_features2d', '-lopencv_video', '-lopencv_videoio', '-lopencv_highgui', '-lopencv_imgcodecs', '-lopencv_calib3d', '-lopencv_flann']
    p = sh(['g++', opt, '-g1', '-DVC_REPLAY', '-ffp-contract=off', '-I' + HERE, src, os.path.join(HERE, 'runtime.cpp'), '-o', out, '-no-pie', '-ffunction-sections', '-fdata-sections',
            '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'] + flags(work) + extra + s + libs + ['-lpthread'])
    if p.returncode: return None, 'g++: ' + p.stdout[-4000:]
    return out, ''


# ---------------------------------------------------------------- one contract
def model_text(ex, contract, m):
    import z3
    out = ['contract ' + contract]
    for n, (bits, t) in sorted(ex.inputs.items()):
        v = m.eval(t, model_completion=True).as_long()
        if v >= 1 << 63: v -= 1 << 64
        out.append('int %s %d' % (n, v))
    for a, d in sorted(ex.reads.items()):
        seen = {}
        for args, t, g in d.values():
            k = [m.eval(x, model_completion=True).as_signed_long() for x in args]
            if any(x < 0 for x in k): continue
            seen[tuple(k)] = m.eval(t, model_completion=True).as_long()
        for k, v in sorted(seen.items()): out.append('arr %s %d %s %d' % (a, len(k), ' '.join(map(str, k)), v))
    return '\n'.join(out) + '\n'


def candidate_inputs(ex, S, o, m0, contract):
    """a few counterexample inputs, smallest first"""
    import z3
    texts = []
    asserts = list(ex.gfacts) + ex.deffacts + S.facts_upto(o.n) + list(o.pc)
    from vals import Not
    asserts.append(Not(o.cond))
    ints = [t for n, (b, t) in ex.inputs.items() if b == 64]
    t0 = time.time()
    for bound in (4, 9, 40, 300):
        if time.time() - t0 > 20: break
        s = z3.Solver(); s.set('timeout', 5000); s.add(*asserts)
        s.add(*[z3.And(t <= bound, t >= -bound) for t in ints])
        if s.check() == z3.sat:
            texts.append(model_text(ex, contract, s.model()))
            if len(texts) >= 2: break
    if m0 is not None: texts.append(model_text(ex, contract, m0))
    return texts


def run_contract(bc, name, tier, outfile, verbose, again=False):
    t0 = time.time()
    res = dict(contract=name, status='error', obligations=[], loops=[], funcs=[], externs=[], replaced=[], unsupported=None, inputs=[], stats={}, trivial=0)
    try:
        import z3, llvmc, symex, solve
        z3.set_param('memory_max_size', 9000)
        mod = llvmc.Module(bc) if isinstance(bc, str) else bc
        ex = symex.Executor(mod); ex.use_alt = again
        F = mod.funcs['vc_contract_' + name]
        quick = tier == 'quick'
        S = solve.Solver(ex, t_cand=(12000 if again else 6000) if quick else 20000, t_obl=(50000 if again else 25000) if quick else 120000, t_alt=25 if quick else 120,
                         log=(lambda *a: print(name, *a, flush=True)) if verbose else None)
        st, _ = ex.call_function(F, [], symex.State())
        res['t_exec'] = round(time.time() - t0, 2)
        if verbose: print(name, 'executed in %.1fs: %d obligations, %d loops, %d facts, %d gfacts' % (time.time() - t0, len(ex.obls), len(ex.groups), len(ex.facts), len(ex.gfacts)), flush=True)
        S.houdini()
        ok = True
        for o in ex.obls:
            t1 = time.time()
            status, m, by = S.prove(o)
            r = dict(label=o.label, kind=o.kind, loc=o.loc, fn=ex.demangle(o.fn)[:160], status=status, backend=by, t=round(time.time() - t1, 3))
            if status != 'proved':
                ok = False
                if verbose: print(name, 'FAILED', r, flush=True)
                if len(res['inputs']) < 4: res['inputs'] += candidate_inputs(ex, S, o, m, name)
                r['formula'] = str(o.cond)[:600]
            elif verbose and r['t'] > 3: print(name, 'slow', r, flush=True)
            res['obligations'].append(r)
            if sum(x['status'] != 'proved' for x in res['obligations']) >= 6:
                res['truncated'] = True; break
        # vacuity: some execution satisfies all preconditions and reaches the end
        if ok:
            n = len(ex.facts)
            if st is None: reach = 'unsat'
            else: reach = S.reachable(st.pc, n)
            if reach == 'unsat' and ex.opts.get('rejects'):      # a contract whose inputs must all be rejected
                for tpc, why, line, fnn, allowed in ex.throws:
                    if allowed and S.reachable(tpc, n) != 'unsat': reach = 'exception reachable'; break
            if reach == 'unsat':
                ok = False
                res['obligations'].append(dict(label='contract is not vacuous (end reachable)', kind='vacuity', loc='', fn=name, status='refuted', backend='z3', t=0))
            else: res['vacuity'] = reach
            for pc, lab, nn in ex.covers:
                r = S.reachable(pc, nn)
                if r == 'unsat':
                    ok = False
                    res['obligations'].append(dict(label='case reachable: ' + lab, kind='cover', loc='', fn=name, status='refuted', backend='z3', t=0))
        res['status'] = 'proved' if ok else 'failed'
        res['trivial'] = len(ex.sites)
        res['loops'] = [dict(loop=ex.demangle(g.name.split('/')[0])[:80] + '/' + g.name.split('/', 1)[1], candidates=len(g.cands), invariants=sum(1 for c in g.cands if c[5])) for g in ex.groups]
        res['stats'] = S.stats
        res['bounded'] = ex.opts['unroll']
        res['alt'] = ex.n_alt
    except Exception as e:
        import llvmc
        if isinstance(e, llvmc.Unsupported): res['status'] = 'unsupported'; res['unsupported'] = str(e)[:500]
        else: res['status'] = 'error'; res['unsupported'] = traceback.format_exc()[-1500:]
        if verbose: print(name, res['status'], res['unsupported'], flush=True); traceback.print_exc()
    try:
        res['funcs'] = sorted(set(ex.demangle(f) for f in ex.funcs_used))
        res['externs'] = sorted(set(ex.demangle(f) for f in ex.externs_used))
        res['replaced'] = sorted(set('%s -> %s' % (ex.demangle(a), ex.demangle(b)) for a, b in getattr(ex, 'replaced_used', ())))
    except Exception: pass
    res['wall'] = round(time.time() - t0, 2)
    json.dump(res, open(outfile, 'w'))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--nofuzz', action='store_true')
    ap.add_argument('--keep'); ap.add_argument('--unit')
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix='vc_%s_' % pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        return drive(a, pid, tier, seed, t0, work)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)


def drive(a, pid, tier, seed, t0, work):
    srcs = sorted(glob.glob(os.path.join(VERIF, 'contracts', pid + '.cpp')) + glob.glob(os.path.join(VERIF, 'contracts', pid + '_*.cpp')))
    if a.unit: srcs = [s for s in srcs if a.unit in s]
    assert srcs, 'no contract files'
    instantiate(work)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as tp: bcs = list(tp.map(lambda s: build_bc(work, s), srcs))
    failures = []       # (contract, src, result-like)
    import llvmc
    jobs = []
    contracts = []
    dirs = {}
    for src, (bc, err) in zip(srcs, bcs):
        for k, v in directives(src).items(): dirs.setdefault(k, []).extend(v)
        if bc is None:
            failures.append((None, src, dict(contract=os.path.basename(src), status='does not compile', obligations=[], inputs=[], unsupported=err)))
            continue
        mod = llvmc.Module(bc)
        for f in sorted(mod.funcs):
            if f.startswith('vc_contract_') and not mod.funcs[f].decl:
                n = f[len('vc_contract_'):]
                if a.only and not re.search(a.only, n): continue
                if tier == 'quick' and n.endswith('_thorough'): continue
                contracts.append((n, src, mod))
    t_comp = time.time() - t0
    # ---- discharge, one forked process per contract
    deadline = t0 + (560 if tier == 'quick' else 3000)
    ctx = mp.get_context('fork')
    def discharge(todo, again):
        running, queue, results = [], list(todo), {}
        sys.stdout.flush()
        while queue or running:
            while queue and len(running) < NCPU:
                n, src, mod = queue.pop(0)
                of = os.path.join(work, n + ('.again.json' if again else '.json'))
                p = ctx.Process(target=run_contract, args=(mod, n, tier, of, a.v, again)); p.start()
                running.append((p, n, src, of, time.time()))
            time.sleep(0.05)
            nr = []
            for p, n, src, of, ts in running:
                if p.is_alive():
                    if time.time() > deadline:
                        p.terminate(); p.join(5)
                        if p.is_alive(): p.kill()
                        results[n] = dict(contract=n, status='timeout', obligations=[], inputs=[], unsupported='time limit', src=src)
                    else: nr.append((p, n, src, of, ts))
                else:
                    p.join()
                    try: r = json.load(open(of))
                    except Exception: r = dict(contract=n, status='error', obligations=[], inputs=[], unsupported='prover process died (exit %s)' % p.exitcode)
                    r['src'] = src
                    results[n] = r
            running = nr
        return results
    results = discharge(contracts, False)
    # a contract that was not proved is tried again, with longer time limits and the alternative loop invariants (other iteration orders)
    again = [c for c in contracts if results[c[0]]['status'] == 'failed']
    if again and time.time() < deadline - 60:
        for n, r in discharge(again, True).items():
            if r['status'] == 'proved': r['retried'] = True; results[n] = r
            elif r['status'] == 'failed': results[n]['inputs'] = (results[n]['inputs'] + r['inputs'])[:6]
    for n, r in results.items():
        if a.v: print('%-40s %-11s %4d obl %6.1fs' % (n, r['status'], len(r['obligations']), r.get('wall', 0)))
        if r['status'] != 'proved': failures.append((n, r['src'], r))
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding:\s+property=(\S+)\s+contract=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    # ---- search for failing inputs on the compiled real code
    violations, runs = [], []
    if failures and not a.nofuzz:
        bins = {}
        for n, src, r in failures:
            if src not in bins: bins[src] = None
        with ThreadPoolExecutor(NCPU) as tp:
            for s, b in zip(bins, tp.map(lambda s: build_replay(work, s), list(bins))): bins[s] = b
        budget = max(30, min(150 if tier == 'quick' else 900, 780 - (time.time() - t0)) if tier == 'quick' else 900)
        work_items = []
        for n, src, r in failures:
            b, err = bins[src]
            if b is None:
                r['unsupported'] = (r.get('unsupported') or '') + '\n' + err; continue
            if n is None: continue
            work_items.append((n, src, r, b))
        for n, src, r, b in work_items:
            for i, txt in enumerate(r.get('inputs', [])):
                vf = os.path.join(work, '%s.in%d' % (n, i)); open(vf, 'w').write(txt)
                try: p = sh([b, 'replay', n, vf], timeout=90)
                except subprocess.TimeoutExpired: continue
                if p.returncode not in (0, 3):
                    r['failing'] = txt; r['failing_out'] = p.stdout[-1500:]; break
        todo = [w for w in work_items if 'failing' not in w[2]]
        if todo and not any('failing' in w[2] for w in work_items):
            slots = max(1, NCPU // len(todo))
            rounds = (len(todo) * slots + NCPU - 1) // NCPU
            secs = max(10, budget / rounds)
            def fz(arg):
                (n, src, r, b), k = arg
                if 'failing' in r: return
                of = os.path.join(work, '%s.fz%d' % (n, k))
                try: p = sh([b, 'fuzz', n, str(seed * 100 + k), '%.0f' % secs, of], timeout=secs + 120)
                except subprocess.TimeoutExpired: return
                m = re.search(r'RUNS (\d+) (\d+)', p.stdout)
                if m: runs.append((n, int(m.group(1)), int(m.group(2))))
                if p.returncode not in (0, 2, 3) and os.path.exists(of):
                    r['failing'] = open(of).read(); r['failing_out'] = p.stdout[-1500:]
            args = [(w, k) for k in range(slots) for w in todo]
            with ThreadPoolExecutor(NCPU) as tp: list(tp.map(fz, args))
    rc = 0
    allobl = [o for r in results.values() for o in r['obligations']]
    lines = []
    reported_known = []
    for n, src, r in failures:
        kn = [w for c, w in known if c == n]
        if kn:
            for w in kn: reported_known.append(w)
            continue
        violations.append((n, src, r))
    for w in reported_known: lines.append('KNOWN-FINDING: property=%s %s' % (pid, w))
    if violations:
        rc = 1
        # the violation with a failing input first
        violations.sort(key=lambda v: 'failing' not in v[2])
        rp = os.path.join(VERIF, 'evidence', '%s.replay.txt' % pid)
        with open(rp, 'w') as f:
            for n, src, r in violations:
                f.write('contract %s (%s): %s\n' % (n, os.path.basename(src), r['status']))
                if r.get('unsupported'): f.write('  verifier: %s\n' % r['unsupported'])
                for o in r['obligations']:
                    if o['status'] != 'proved': f.write('  failed obligation [%s] "%s" at %s in %s: %s\n    %s\n' % (o['kind'], o['label'], o['loc'], o['fn'], o['status'], o.get('formula', '')))
                if 'failing' in r:
                    f.write('  failing input (replay: build with vcgen/check.py, then <bin> replay %s <file>):\n%s\n  real code: %s\n' % (n, r['failing'], r['failing_out']))
                else:
                    f.write('  no failing input found; concrete runs tried: %s\n' % [x for x in runs if x[0] == n])
                    for i in r.get('inputs', [])[:2]: f.write('  solver counterexample (not confirmed on the real code):\n%s\n' % i)
        n, src, r = violations[0]
        fo = next((o for o in r['obligations'] if o['status'] != 'proved'), None)
        print('undischarged: contract %s%s' % (n, (' obligation "%s" (%s)' % (fo['label'], fo['loc'])) if fo else ' ' + r['status'] + ' ' + (r.get('unsupported') or '')[:200]))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if 'failing' in r else ' no-failing-input-found'))
    # ---- thorough: cross-check of the contracts against the compiled code
    cross = []
    if tier == 'thorough' and not failures and not a.nofuzz:
        for src in srcs:
            b, err = build_replay(work, src)
            if b is None: cross.append(dict(unit=os.path.basename(src), error=err[-300:])); continue
            def fz1(n):
                of = os.path.join(work, n + '.fz')
                try: p = sh([b, 'fuzz', n, str(seed), '25', of], timeout=200)
                except subprocess.TimeoutExpired: return dict(contract=n, rc='timeout')
                m = re.search(r'RUNS (\d+) (\d+)', p.stdout)
                d = dict(contract=n, rc=p.returncode, runs=int(m.group(1)) if m else 0, in_precondition=int(m.group(2)) if m else 0, out=p.stdout[-300:] if p.returncode else '')
                if p.returncode == 1 and os.path.exists(of): d['failing'] = open(of).read()
                return d
            with ThreadPoolExecutor(NCPU) as tp: cross += list(tp.map(fz1, [n for n, s, m in contracts if s == src]))
        for d in cross:
            if d.get('rc') == 1 and not any(c == d['contract'] for c, w in known):
                rc = 1
                rp = os.path.join(VERIF, 'evidence', '%s.replay.txt' % pid)
                open(rp, 'w').write(json.dumps(d, indent=1))
                lines.append('VIOLATION property=%s replay=%s' % (pid, rp)); break
    by = {}
    for o in allobl: by[o['backend']] = by.get(o['backend'], 0) + (o['status'] == 'proved')
    funcs = sorted(set(f for r in results.values() for f in r.get('funcs', []) if interesting(f)))
    externs = sorted(set(f for r in results.values() for f in r.get('externs', [])))
    repl = sorted(set(f for r in results.values() for f in r.get('replaced', [])))
    nob = len(allobl) + sum(r.get('trivial', 0) for r in results.values())
    ndis = sum(o['status'] == 'proved' for o in allobl) + sum(r.get('trivial', 0) for r in results.values())
    bounded = [n for n, r in results.items() if r.get('bounded')]
    tb = ['clang 18 C++ front end and opt (sroa, early-cse, loop-simplify, lcssa): C++ -> LLVM IR', 'vcgen: LLVM IR semantics and VC generation (/verif/vcgen)', 'z3 %s, cvc5' % z3ver()]
    assumptions = ['assumed contract on external function: ' + x for x in externs] + ['callee used through its contract/model: ' + x for x in repl] + dirs.get('assume', []) + \
        ['loop iteration counts do not exceed 2^40 (64-bit counter overflow excluded)' ] + ['bounded stand-in (loops unrolled to a stated bound): ' + b for b in bounded]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=assumptions,
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt vcgen/check.py %s --tier %s' % (pid, tier), trusted_base=tb,
                            contracts=[dict(contract=n, status=r['status'], obligations=len(r['obligations']), folded_during_generation=r.get('trivial', 0), loops_cut=len(r.get('loops', [])), invariants=sum(l['invariants'] for l in r.get('loops', [])), wall_s=r.get('wall')) for n, r in sorted(results.items())],
                            functions_under_contract=funcs, discharged_by=by, solver_time_s=round(sum(r.get('stats', {}).get('time', 0) for r in results.values()), 2),
                            solver_queries=sum(r.get('stats', {}).get('queries', 0) for r in results.values()),
                            bounded=bounded, compile_s=round(t_comp, 1), concrete_cross_check=cross, known_findings=reported_known, note=dirs.get('note', [])))
    if not a.only and not a.unit: json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d contracts, %d/%d obligations discharged (%d by solver), %d functions, %.1fs' % (pid, tier, len(results), ndis, nob, sum(v for k, v in by.items() if k != 'simplify'), len(funcs), time.time() - t0))
    for l in lines: print(l)
    sys.stdout.flush()
    return rc


def z3ver():
    import z3
    return z3.get_version_string()


def interesting(f):
    return not re.search(r'^(std::|__gnu|vc_|void std::|bool std::|operator|cv::|auto std::|void vc_|decltype)', f) and 'vc_contract' not in f


if __name__ == '__main__':
    sys.exit(main())
