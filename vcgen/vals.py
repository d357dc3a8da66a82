"""Value domain of the VC generator: polynomials over Z/2^64, machine integers,
guarded pointers, vectors, aggregates, and floating point as bit patterns."""
import z3, struct
from llvmc import Unsupported

M64 = (1 << 64) - 1
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_true(b): return b is True or (not isinstance(b, bool) and z3.is_true(b))
def is_false(b): return b is False or (not isinstance(b, bool) and z3.is_false(b))


def And(*xs):
    r = []
    seen = set()
    for x in xs:
        if is_true(x): continue
        if is_false(x): return FALSE
        i = x.get_id()
        if i in seen: continue
        seen.add(i); r.append(x)
    if not r: return TRUE
    if len(r) == 1: return r[0]
    return z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if is_false(x): continue
        if is_true(x): return TRUE
        r.append(x)
    if not r: return FALSE
    if len(r) == 1: return r[0]
    return z3.Or(*r)


def Not(x):
    if is_true(x): return FALSE
    if is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if is_true(a): return b
    if is_false(a) or is_true(b): return TRUE
    return z3.Implies(a, b)


def Ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return Not(c)
        if is_true(a): return Or(c, b)
        if is_false(a): return And(Not(c), b)
        if is_true(b): return Or(Not(c), a)
        if is_false(b): return And(c, a)
    return z3.If(c, a, b)


# ---------------------------------------------------------------- polynomials
ATOMS = {}      # id -> z3 BV64 term


class Poly:
    __slots__ = ('m', '_t', '_k')

    def __init__(self, m):
        self.m = m; self._t = None; self._k = None

    @staticmethod
    def const(c):
        c &= M64
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(t):
        if z3.is_bv_value(t): return Poly.const(t.as_long())
        i = t.get_id()
        ATOMS[i] = t
        return Poly({(i,): 1})

    def key(self):
        if self._k is None: self._k = tuple(sorted(self.m.items()))
        return self._k

    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __hash__(self): return hash(self.key())

    def isconst(self): return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        c = self.m.get((), 0)
        return c - (1 << 64) if c >> 63 else c

    def __add__(self, o):
        if not o.m: return self
        if not self.m: return o
        r = dict(self.m)
        for k, v in o.m.items():
            x = (r.get(k, 0) + v) & M64
            if x: r[k] = x
            else: r.pop(k, None)
        return Poly(r)

    def __neg__(self): return Poly({k: (-v) & M64 for k, v in self.m.items()})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        if self.isconst(): self, o = o, self
        if o.isconst():
            c = o.m.get((), 0)
            if c == 0: return Poly({})
            if c == 1: return self
            r = {}
            for k, v in self.m.items():
                x = (v * c) & M64
                if x: r[k] = x
            return Poly(r)
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                x = (r.get(k, 0) + v1 * v2) & M64
                if x: r[k] = x
                else: r.pop(k, None)
        return Poly(r)

    def scale(self, c): return self * Poly.const(c)

    def degree(self): return max([len(k) for k in self.m] or [0])

    def divisible(self, d):
        """all coefficients (as signed numbers) divisible by d"""
        return all(sgn(v) % d == 0 for v in self.m.values())

    def divexact(self, d):
        return Poly({k: (sgn(v) // d) & M64 for k, v in self.m.items()})

    def modconst(self, d):
        """offset modulo d if it is syntactically known, else None"""
        for k, v in self.m.items():
            if k != () and sgn(v) % d: return None
        return self.cval() % d

    def term(self):
        if self._t is None:
            parts = []
            c = self.m.get((), 0)
            neg = []
            for k in sorted(k for k in self.m if k):
                v = sgn(self.m[k])
                t = None
                for a in k:
                    t = ATOMS[a] if t is None else t * ATOMS[a]
                if v < 0:
                    neg.append(t if v == -1 else t * z3.BitVecVal(-v, 64))
                else:
                    parts.append(t if v == 1 else t * z3.BitVecVal(v, 64))
            cs = sgn(c)
            if cs > 0 or (not parts and not neg): parts.append(z3.BitVecVal(c, 64)); cs = 0
            if not parts: parts.append(z3.BitVecVal(c, 64)); cs = 0
            t = parts[0]
            for x in parts[1:]: t = t + x
            for x in neg: t = t - x
            if cs < 0: t = t - z3.BitVecVal(-cs, 64)
            self._t = t
        return self._t

    def atoms(self):
        s = set()
        for k in self.m: s.update(k)
        return s

    def __repr__(self): return str(self.term())


def sgn(v): return v - (1 << 64) if v >> 63 else v


P0 = Poly({})


# ------------------------------------------------------------------ integers
def smin(b): return -(1 << (b - 1))
def smax(b): return (1 << (b - 1)) - 1


class IV:
    """machine integer (or raw bits of a float); i1 terms are z3 Bools"""
    __slots__ = ('bits', 'c', '_t', '_sx', '_zx', 'p', 'lo', 'hi', 'org')

    def __init__(self, bits, c=None, t=None, sx=None, zx=None, p=None, lo=None, hi=None, org=None):
        self.bits = bits
        if c is not None:
            c &= (1 << bits) - 1
        self.c = c; self._t = t; self._sx = sx; self._zx = zx; self.p = p; self.org = org
        if c is not None:
            s = c - (1 << bits) if c >> (bits - 1) else c
            self.lo = self.hi = s
        else:
            self.lo = smin(bits) if lo is None else max(lo, smin(bits))
            self.hi = smax(bits) if hi is None else min(hi, smax(bits))
            if bits > 1 and self.lo == self.hi and False: pass

    @property
    def idx(self): return self._sx is not None or self._zx is not None

    def t(self):
        if self._t is None:
            if self.c is not None:
                self._t = z3.BoolVal(bool(self.c)) if self.bits == 1 else z3.BitVecVal(self.c, self.bits)
            elif self._sx is not None or self._zx is not None:
                x = (self._sx if self._sx is not None else self._zx).term()
                self._t = x if self.bits == 64 else extract(self.bits - 1, 0, x)
            else:
                raise RuntimeError('IV without term')
        elif callable(self._t) and not isinstance(self._t, z3.ExprRef):
            self._t = self._t()
        return self._t

    def bv(self):
        """bit-vector term even for i1"""
        if self.bits == 1:
            if self.c is not None: return z3.BitVecVal(self.c, 1)
            return z3.If(self.t(), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return self.t()

    def sx(self):
        if self._sx is None:
            if self.c is not None: self._sx = Poly.const(self.lo)
            elif self.bits == 64: self._sx = Poly.atom(self.t())
            elif self.lo >= 0: self._sx = self._zx if self._zx is not None else Poly.atom(z3.ZeroExt(64 - self.bits, self.bv()))
            else: return Poly.atom(z3.SignExt(64 - self.bits, self.bv()))
        return self._sx

    def peek_sx(self):
        """64-bit polynomial for the signed value without marking the value as index-like"""
        if self._sx is not None: return self._sx
        if self.c is not None: return Poly.const(self.lo)
        if self.bits == 64: return self.sx()
        if self.lo >= 0:
            return self._zx if self._zx is not None else Poly.atom(z3.ZeroExt(64 - self.bits, self.bv()))
        return Poly.atom(z3.SignExt(64 - self.bits, self.bv()))

    def peek_zx(self):
        if self._zx is not None: return self._zx
        if self.c is not None: return Poly.const(self.c)
        if self.bits == 64: return self.sx()
        if self.lo >= 0: return self.peek_sx()
        return Poly.atom(z3.ZeroExt(64 - self.bits, self.bv()))

    def __repr__(self):
        return 'i%d:%s' % (self.bits, self.c if self.c is not None else self.t())


def extract(hi, lo, t):
    if hi == t.size() - 1 and lo == 0: return t
    d = t.decl().kind()
    if d == z3.Z3_OP_CONCAT:
        pos = t.size()
        for ch in t.children():
            w = ch.size()
            if hi < pos and lo >= pos - w: return extract(hi - (pos - w), lo - (pos - w), ch)
            pos -= w
    elif d == z3.Z3_OP_ZERO_EXT or d == z3.Z3_OP_SIGN_EXT:
        ch = t.arg(0)
        if hi < ch.size(): return extract(hi, lo, ch)
        if d == z3.Z3_OP_ZERO_EXT and lo >= ch.size(): return z3.BitVecVal(0, hi - lo + 1)
    elif d == z3.Z3_OP_EXTRACT:
        b = t.params()[1]
        return extract(hi + b, lo + b, t.arg(0))
    elif d == z3.Z3_OP_BNUM:
        return z3.BitVecVal((t.as_long() >> lo) & ((1 << (hi - lo + 1)) - 1), hi - lo + 1)
    return z3.Extract(hi, lo, t)


def concat(parts):
    """parts most-significant first; merges adjacent extracts of one term"""
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if (q.decl().kind() == z3.Z3_OP_EXTRACT and p.decl().kind() == z3.Z3_OP_EXTRACT and q.arg(0).eq(p.arg(0))
                    and q.params()[1] == p.params()[0] + 1):
                out[-1] = extract(q.params()[0], p.params()[1], q.arg(0)); continue
            if z3.is_bv_value(q) and z3.is_bv_value(p):
                out[-1] = z3.BitVecVal((q.as_long() << p.size()) | p.as_long(), p.size() + q.size()); continue
        out.append(p)
    return out[0] if len(out) == 1 else z3.Concat(*out)


def ci(bits, c): return IV(bits, c)


def fromterm(bits, t, lo=None, hi=None, p=None):
    if bits == 1:
        if z3.is_true(t): return IV(1, 1, p=p)
        if z3.is_false(t): return IV(1, 0, p=p)
        return IV(1, t=t, p=p)
    if z3.is_bv_value(t): return IV(bits, t.as_long(), p=p)
    return IV(bits, t=t, lo=lo, hi=hi, p=p)


def fromsx(bits, poly, lo=None, hi=None, p=None):
    if poly.isconst(): return IV(bits, poly.cval(), p=p)
    return IV(bits, sx=poly, lo=lo, hi=hi, p=p)


def por(*ps):
    r = [p for p in ps if p is not None]
    if not r: return None
    if len(r) == 1: return r[0]
    return Or(*r)


class PV:
    """pointer: guarded alternatives [(guard, obj|None, offset Poly)]; obj None: absolute address"""
    __slots__ = ('e', 'p')

    def __init__(self, e, p=None): self.e = e; self.p = p

    def single(self):
        return self.e[0][1:] if len(self.e) == 1 else None

    def add(self, off):
        if not off.m: return self
        return PV([(g, o, f + off) for g, o, f in self.e], self.p)

    def __repr__(self): return 'PV' + repr([(str(g), getattr(o, 'name', o), str(f)) for g, o, f in self.e])


NULL = PV([(TRUE, None, P0)])


class VV:
    __slots__ = ('l',)

    def __init__(self, lanes): self.l = lanes
    def __repr__(self): return 'VV%r' % self.l


class AV:
    __slots__ = ('l',)

    def __init__(self, l): self.l = l
    def __repr__(self): return 'AV%r' % self.l


class UndefV:
    """undef/poison of arbitrary type"""
    def __repr__(self): return 'undef'


UNDEF = UndefV()


# ------------------------------------------------------------- floating point
def f2b(x, bits):
    if bits == 32:
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def b2f(c, bits):
    return struct.unpack('<f', struct.pack('<I', c))[0] if bits == 32 else struct.unpack('<d', struct.pack('<Q', c))[0]


FS = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
RTZ = z3.RTZ()


def tofp(t, bits): return z3.fpBVToFP(t, FS[bits])
def frfp(f): return z3.fpToIEEEBV(f)
