"""Abstraction of non-linear bit-vector operations: multiplication, division and remainder
of two non-constant operands become uninterpreted functions on 64-bit canonical operands,
with instances of true arithmetic facts.  Sound for showing unsatisfiability."""
import z3

B64 = z3.BitVecSort(64)
MUL = z3.Function('nl_mul', B64, B64, B64)
UDIV = z3.Function('nl_udiv', B64, B64, B64)
UREM = z3.Function('nl_urem', B64, B64, B64)
SDIV = z3.Function('nl_sdiv', B64, B64, B64)
SREM = z3.Function('nl_srem', B64, B64, B64)
OPS = {z3.Z3_OP_BMUL: 'mul', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSREM: 'srem',
       z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM_I: 'urem', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BSREM_I: 'srem'}


class Abs:
    def __init__(self):
        self.memo = {}
        self.smemo = {}
        self.keep = []
        self.axioms = []
        self.n = 0
        self.seen = set()

    def sx(self, t):
        n = t.size()
        return z3.SignExt(64 - n, t) if n < 64 else t

    def zx(self, t):
        n = t.size()
        return z3.ZeroExt(64 - n, t) if n < 64 else t

    def fin(self, t, n): return z3.Extract(n - 1, 0, t) if n < 64 else t

    def mul2(self, a, b):
        n = a.size()
        if n > 64: return a * b
        if z3.is_bv_value(a) or z3.is_bv_value(b): return a * b
        self.n += 1
        x, y = z3.simplify(self.sx(a)), z3.simplify(self.sx(b))
        if x.get_id() > y.get_id(): x, y = y, x
        if x.get_id() == y.get_id():
            # squares: (-x)^2 == x^2
            x = y = z3.If(x < 0, -x, x)
            self.keep.append(x)
        m = MUL(x, y)
        if m.get_id() not in self.seen:
            self.seen.add(m.get_id())
            V = lambda v: z3.BitVecVal(v, 64)
            if x.get_id() != y.get_id(): self.axioms.append(m == MUL(y, x))
            for k in (8, 9, 16, 17, 24, 31):
                inr = z3.And(*[z3.And(t < V(1 << k), t > V(-(1 << k))) for t in (x, y)])
                self.axioms.append(z3.Implies(inr, z3.And(m < V(1 << (2 * k)), m > V(-(1 << (2 * k))))))
            small = z3.And(*[z3.And(t < V(1 << 31), t > V(-(1 << 31))) for t in (x, y)])
            self.axioms.append(z3.Implies(z3.And(small, (x >= 0) == (y >= 0)), m >= 0))
            self.axioms.append(z3.Implies(z3.Or(x == 0, y == 0), m == 0))
            self.axioms.append(z3.Implies(x == 1, m == y)); self.axioms.append(z3.Implies(y == 1, m == x))
        return self.fin(m, n)

    def div(self, k, a, b):
        n = a.size()
        if n > 64: return None
        if z3.is_bv_value(b):
            v = b.as_long()
            if v & (v - 1) == 0: return None
            if n <= 16: return None
        self.n += 1
        f = self.zx if k[0] == 'u' else self.sx
        x, y = z3.simplify(f(a)), z3.simplify(f(b))
        F = {'udiv': UDIV, 'urem': UREM, 'sdiv': SDIV, 'srem': SREM}[k]
        m = F(x, y)
        if m.get_id() not in self.seen:
            self.seen.add(m.get_id())
            if k == 'udiv':
                self.axioms.append(z3.Implies(y != 0, z3.ULE(m, x)))
                self.axioms.append(z3.Implies(z3.And(y != 0, z3.ULT(x, y)), m == 0))
                self.axioms.append(z3.Implies(y == 1, m == x))
            elif k == 'urem': self.axioms.append(z3.Implies(y != 0, z3.And(z3.ULT(m, y), z3.ULE(m, x)))); self.axioms.append(z3.Implies(z3.And(y != 0, z3.ULT(x, y)), m == x))
            elif k == 'sdiv': self.axioms.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(m >= 0, m <= x)))
            else: self.axioms.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(m >= 0, m < y, m <= x)))
        return self.fin(m, n)

    def simp(self, t):
        r = self.smemo.get(t.get_id())
        if r is None:
            r = z3.simplify(t); self.smemo[t.get_id()] = r; self.keep += [t, r]
        return r

    def rw(self, t):
        stack = [(t, False)]
        memo = self.memo
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in memo: continue
            if not z3.is_app(x) or x.num_args() == 0:
                memo[i] = x; self.keep.append(x); continue
            if not done:
                stack.append((x, True))
                for c in x.children():
                    if c.get_id() not in memo: stack.append((c, False))
                continue
            ch = [memo[c.get_id()] for c in x.children()]
            k = OPS.get(x.decl().kind())
            r = None
            if k == 'mul':
                fl = []
                wl = list(x.children())
                while wl:
                    c = wl.pop()
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_BMUL: wl.extend(c.children())
                    else: fl.append(self.simp(memo[c.get_id()]))
                cs = [c for c in fl if z3.is_bv_value(c)]; vs = [c for c in fl if not z3.is_bv_value(c)]
                if len(vs) > 1:
                    vs.sort(key=lambda c: c.get_id())
                    r = vs[0]
                    for v in vs[1:]: r = self.mul2(r, v)
                    for c in cs: r = c * r
            elif k:
                r = self.div(k, ch[0], ch[1])
            if r is None:
                if all(c.get_id() == d.get_id() for c, d in zip(ch, x.children())): r = x
                else: r = rebuild(x, ch)
            memo[i] = r; self.keep += [x, r]
        return memo[t.get_id()]


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR) and len(ch) > 2:
        f = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BMUL: lambda a, b: a * b, z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BXOR: lambda a, b: a ^ b}[k]
        r = ch[0]
        for c in ch[1:]: r = f(r, c)
        return r
    if k == z3.Z3_OP_CONCAT: return z3.Concat(*ch)
    return x.decl()(*ch)


def abstract(asserts):
    """returns (new asserts, number of abstracted operations)"""
    A = Abs()
    out = [A.rw(a) for a in asserts]
    # axioms may contain non-linear terms inside arguments already abstracted
    return out + A.axioms, A.n
