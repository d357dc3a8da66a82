"""Houdini fixpoint over candidate invariants and discharge of obligations."""
import z3, math, time, subprocess, tempfile, os
from vals import *
from symex import CandGroup
import nlabs


class Solver:
    def __init__(self, ex, t_cand=4000, t_obl=20000, t_alt=30, log=None):
        self.ex = ex
        # wall-clock limits: scaled up on a machine that is busy with other work
        try: f = max(1.0, min(4.0, os.getloadavg()[0] / (os.cpu_count() or 1)))
        except OSError: f = 1.0
        self.t_cand, self.t_obl, self.t_alt = int(t_cand * f), int(t_obl * f), int(t_alt * f)
        self.log = log or (lambda *a: None)
        self.stats = dict(queries=0, time=0.0, by={'simplify': 0, 'z3': 0, 'cvc5': 0})

    def facts_upto(self, n, sels=False):
        out = []
        for f in self.ex.facts[:n]:
            if isinstance(f, CandGroup):
                pc = And(*f.pcE)
                for c in f.cands:
                    if c[5]:
                        out.append(Implies(pc, c[2]))
            else: out.append(f)
        return out

    def check(self, asserts, timeout, logic=None):
        t0 = time.time()
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', timeout)
        s.add(*asserts)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['time'] += time.time() - t0
        return r, (s.model() if r == z3.sat else None), s

    def houdini(self):
        groups = self.ex.groups
        if not groups: return
        # a pre-pass: kill candidates false at entry, group-wise
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            for g in groups:
                for which in (3, 4):
                    if which == 3 and rounds > 1 and not changed_any(g): pass
                    if self.filter(g, which): changed = True
            if rounds > 60: raise RuntimeError('houdini does not converge')
        for g in groups:
            self.log('loop %s: %d invariants of %d candidates: %s' % (g.name, sum(c[5] for c in g.cands), len(g.cands), [c[1] for c in g.cands if c[5]]))

    def filter(self, g, which):
        n, pc = (g.nE, g.pcE) if which == 3 else (g.nB, g.pcB)
        act = [c for c in g.cands if c[5] and not is_true(c[which])]
        if not act: return False
        sig = (n, tuple(id(c) for c in act), self.active_sig(n))
        if getattr(g, 'done%d' % which, None) == sig: return False
        s = z3.Solver()
        s.set('timeout', self.t_cand)
        base = self.ex.deffacts + self.facts_upto(n) + list(pc)
        s.add(*self.ex.relevant(base + [c[which] for c in act])); s.add(*base)
        killed = False
        while True:
            act = [c for c in g.cands if c[5] and not is_true(c[which])]
            if not act: break
            s.push()
            s.add(z3.Or(*[z3.Not(c[which]) for c in act]))
            t0 = time.time()
            s.set('timeout', min(1200, self.t_cand))
            r = s.check()
            s.set('timeout', self.t_cand)
            self.stats['queries'] += 1; self.stats['time'] += time.time() - t0
            if r == z3.unsat: s.pop(); break
            if r == z3.sat:
                m = s.model()
                bad = [c for c in act if z3.is_false(m.eval(c[which], model_completion=True))]
                s.pop()
                if not bad: bad = act[:1]
                for c in bad: c[5] = False
                killed = True
            else:
                s.pop()
                # decide one by one
                anyk = False
                for c in act:
                    if not c[5]: continue
                    t0 = time.time()
                    s.push(); s.add(z3.Not(c[which])); r = s.check()
                    self.stats['queries'] += 1; self.stats['time'] += time.time() - t0
                    if r == z3.unknown and self.split(self.ex.relevant(base + [c[which]]) + base, z3.Not(c[which]), self.t_cand) == z3.unsat: r = z3.unsat
                    if r == z3.unknown and '(' in c[1]: # a candidate of the contract is not given up lightly
                        q = self.ex.relevant(base + [c[which]]) + base + [z3.Not(c[which])]
                        ab, k = nlabs.abstract(q)
                        if k and self.check(ab, 4 * self.t_cand, 'QF_UFBV')[0] == z3.unsat: r = z3.unsat
                        elif self.portfolio([ab, q] if k else [q], 12 * self.t_cand): r = z3.unsat
                    if r == z3.sat:
                        m = s.model()
                        for d in act:
                            if d[5] and z3.is_false(m.eval(d[which], model_completion=True)): d[5] = False
                    s.pop()
                    if r != z3.unsat: c[5] = False; anyk = killed = True
                if not anyk: break
            if which == 4:
                # facts changed (killed candidates were assumed): rebuild
                s = z3.Solver(); s.set('timeout', self.t_cand)
                act = [c for c in g.cands if c[5] and not is_true(c[which])]
                base = self.ex.deffacts + self.facts_upto(n) + list(pc)
                s.add(*self.ex.relevant(base + [c[which] for c in act])); s.add(*base)
        act = [c for c in g.cands if c[5] and not is_true(c[which])]
        setattr(g, 'done%d' % which, (n, tuple(id(c) for c in act), self.active_sig(n)))
        return killed

    def active_sig(self, n):
        return tuple(id(c) for f in self.ex.facts[:n] if isinstance(f, CandGroup) for c in f.cands if c[5])

    def prove(self, o):
        """returns (status, model, backend); status: proved | refuted | unknown"""
        t0 = time.time()
        goal = And(*o.pc, Not(o.cond))
        g = z3.simplify(goal)
        if z3.is_false(g):
            self.stats['by']['simplify'] += 1
            return 'proved', None, 'simplify'
        asserts = self.facts_upto(o.n) + list(o.pc) + [Not(o.cond)]
        asserts = self.ex.relevant(asserts + self.ex.deffacts) + asserts
        ab, n = nlabs.abstract(asserts)
        n += len(self.ex.deffacts)
        asserts = self.ex.deffacts + asserts
        if n:
            r, m, s = self.check(ab, self.t_obl // 2)
            if r == z3.unsat:
                self.stats['by']['z3'] += 1
                return 'proved', None, 'z3'
        r, m, s = self.check(asserts, self.t_obl)
        if r == z3.unsat:
            self.stats['by']['z3'] += 1
            return 'proved', None, 'z3'
        if r == z3.sat: return 'refuted', m, 'z3'
        if self.split(asserts[:-1], asserts[-1], self.t_obl) == z3.unsat:
            self.stats['by']['z3'] += 1
            return 'proved', None, 'z3'
        # other back ends and seeds
        b = self.portfolio([ab, asserts] if n else [asserts], 2000 * self.t_alt)
        if b:
            self.stats['by'][b] += 1
            return 'proved', None, b
        r2 = 'unknown'
        # third: explicit bit-blasting tactic
        t0 = time.time()
        try:
            tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'ackermannize_bv', 'bit-blast', 'sat')
            s3 = tac.solver(); s3.set('timeout', self.t_obl * 2); s3.add(*asserts)
            r3 = s3.check()
        except z3.Z3Exception:
            r3 = z3.unknown
        self.stats['time'] += time.time() - t0
        if r3 == z3.unsat:
            self.stats['by']['z3'] += 1
            return 'proved', None, 'z3'
        if r2 == 'sat' or r3 == z3.sat:
            return 'refuted', (s3.model() if r3 == z3.sat else None), 'z3'
        return 'unknown', None, 'none'

    def split(self, base, goal, timeout):
        """case split on the aliasing conditions of the goal (equalities of 64-bit indices guarding an if-then-else); in
        each case the equalities are substituted, so that equal reads become syntactically equal"""
        eqs = {}
        seen = set(); wl = [goal]
        while wl:
            x = wl.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                w2 = [x.arg(0)]
                while w2:
                    y = w2.pop()
                    if z3.is_and(y) or z3.is_or(y) or z3.is_not(y): w2.extend(y.children())
                    elif z3.is_eq(y) and z3.is_bv(y.arg(0)) and y.arg(0).size() >= 32 and not (z3.is_bv_value(y.arg(0)) and z3.is_bv_value(y.arg(1))): eqs[y.get_id()] = y
            wl.extend(x.children())
        eqs = list(eqs.values())[:6]
        if not eqs: return z3.unknown
        t0 = time.time()
        tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt')

        def reduced(e):
            """e: a==b over BV64 with all coefficients divisible by D: the equality divided by D (implied when nothing wraps, which is proved before use)"""
            if e.arg(0).size() != 64: return None
            acc = {}

            def lin(t, k):
                kd = t.decl().kind()
                if z3.is_bv_value(t): t, k = None, k * t.as_long()
                elif kd == z3.Z3_OP_BADD:
                    for x in t.children(): lin(x, k)
                    return
                elif kd == z3.Z3_OP_BSUB: lin(t.arg(0), k); lin(t.arg(1), -k); return
                elif kd == z3.Z3_OP_BNEG: lin(t.arg(0), -k); return
                elif kd == z3.Z3_OP_BMUL and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
                    c, x = (t.arg(0), t.arg(1)) if z3.is_bv_value(t.arg(0)) else (t.arg(1), t.arg(0))
                    lin(x, k * c.as_long()); return
                i = t.get_id() if t is not None else -1
                acc[i] = ((acc[i][0] if i in acc else 0) + k, t)
            lin(e.arg(0), 1); lin(e.arg(1), -1)
            cs = [(c & ((1 << 64) - 1), t) for c, t in acc.values()]
            cs = [(c, t) for c, t in cs if c]
            sgn = lambda c: c - (1 << 64) if c >> 63 else c
            D = 0
            for c, _ in cs: D = math.gcd(D, abs(sgn(c)))
            if D <= 1: return None
            L = R = None
            for c, t in cs:
                v = sgn(c) // D
                x = t if t is not None else z3.BitVecVal(1, 64)
                y = x if abs(v) == 1 else abs(v) * x
                if v > 0: L = y if L is None else L + y
                else: R = y if R is None else R + y
            Z = z3.BitVecVal(0, 64)
            return (L if L is not None else Z) == (R if R is not None else Z)

        def strengthen(pre):
            out = []
            for e in pre:
                if not z3.is_eq(e): out.append(e); continue
                q = reduced(e)
                if q is not None:
                    s = z3.Solver(); s.set('timeout', timeout // 4); s.add(*base); s.add(*pre); s.add(z3.Not(q))
                    if s.check() == z3.unsat: out.append(q); continue
                out.append(e)
            return out

        def go(i, pre):
            if i == len(eqs):
                pre = strengthen(pre)
                fs = list(base) + [goal]
                for e in pre:
                    if not z3.is_eq(e): continue
                    l, r = e.arg(0), e.arg(1)
                    while z3.is_app(l) and z3.is_app(r) and l.decl().kind() == r.decl().kind() and l.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and l.arg(0).size() == r.arg(0).size(): l, r = l.arg(0), r.arg(0)
                    if l.decl().kind() != z3.Z3_OP_UNINTERPRETED: l, r = r, l
                    if l.decl().kind() != z3.Z3_OP_UNINTERPRETED or l.num_args() == 0: continue
                    fs = [z3.substitute(f, (l, r)) for f in fs]
                ab, k = nlabs.abstract(pre + fs)
                if k:
                    t2 = time.time()
                    s = z3.SolverFor('QF_UFBV'); s.set('timeout', 2 * timeout); s.add(*ab)
                    if s.check() == z3.unsat: return True
                    self.log('leaf abs', i, round(time.time()-t2,1))
                t2 = time.time()
                s = tac.solver(); s.set('timeout', timeout); s.add(*pre); s.add(*fs)
                r = s.check()
                self.log('leaf', r, round(time.time()-t2,1))
                return r == z3.unsat
            # prune: this prefix alone may already be contradictory
            for c in (eqs[i], z3.Not(eqs[i])):
                s = z3.Solver(); s.set('timeout', 400); s.add(*pre); s.add(c); s.add(*base)
                if not z3.is_not(c) or i: s.add(goal)
                if s.check() == z3.unsat: continue
                if not go(i + 1, pre + [c]): return False
            return True
        try: ok = go(0, [])
        except z3.Z3Exception: ok = False
        self.stats['queries'] += 1; self.stats['time'] += time.time() - t0
        return z3.unsat if ok else z3.unknown

    def portfolio(self, queries, timeout):
        """several back ends and seeds side by side on equivalent or weaker queries; the back end that found one of them unsatisfiable, or None"""
        t0 = time.time(); procs = []; files = []
        try:
            for i, q in enumerate(queries):
                s = z3.Solver(); s.add(*q)
                with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                    f.write('(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')); files.append(f.name)
                for c in (['z3-new', 'smt.random_seed=%d' % (7 + i), 'sat.random_seed=%d' % (7 + i)], ['cvc5', '-q'], ['z3-new', 'tactic.default_tactic=qfufbv'])[:3 if i == 0 else 2]:
                    procs.append((c[0].split('-')[0], subprocess.Popen(c + [files[-1]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            while time.time() - t0 < timeout / 1000 and procs:
                time.sleep(0.05)
                for b, p in list(procs):
                    if p.poll() is None: continue
                    if p.stdout.read().strip().split('\n')[0] == 'unsat': return b
                    procs.remove((b, p))
            return None
        finally:
            for b, p in procs:
                if p.poll() is None: p.kill(); p.wait()
            for f in files: os.unlink(f)
            self.stats['queries'] += 1; self.stats['time'] += time.time() - t0

    def reachable(self, pc, n):
        asserts = list(self.ex.gfacts) + self.ex.deffacts + self.facts_upto(n) + list(pc)
        r, m, s = self.check(asserts, self.t_obl)
        return str(r)


def changed_any(g): return True
