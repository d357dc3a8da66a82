"""Instruction semantics, calls, intrinsics and contract primitives."""
import z3, re, math, subprocess
import llvmc
from llvmc import Unsupported, Const, Instr, line_of
from vals import *
from symex import *
from symex import Executor as X
import symex


def mixin(f):
    setattr(X, f.__name__, f)
    return f


# ------------------------------------------------------------------ casts
@mixin
def zext(self, v, bits):
    if isinstance(v, PV): v = self.ptrtoint(v)
    if isinstance(v, VV): return VV([self.zext(x, bits) for x in v.l])
    if v.bits == bits: return v
    if v.c is not None: return IV(bits, v.c, p=v.p)
    if v.bits == 1:
        return IV(bits, t=(lambda: z3.If(v.t(), z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))), p=v.p, lo=0, hi=1, org=v)
    lo, hi = (v.lo, v.hi) if v.lo >= 0 else (0, (1 << v.bits) - 1)
    sx = None
    if v._zx is not None: sx = v._zx
    elif v.lo >= 0 and v._sx is not None: sx = v._sx
    if bits == 64:
        return IV(64, sx=(sx if sx is not None else Poly.atom(z3.ZeroExt(64 - v.bits, v.t()))), p=v.p, lo=lo, hi=hi, org=v)
    if bits > 64: sx = None
    return IV(bits, t=(lambda: z3.ZeroExt(bits - v.bits, v.t())), sx=sx, zx=sx, p=v.p, lo=lo, hi=hi, org=v)


@mixin
def sext(self, v, bits):
    if isinstance(v, VV): return VV([self.sext(x, bits) for x in v.l])
    if v.bits == bits: return v
    if v.c is not None: return IV(bits, v.lo, p=v.p)
    if v.bits == 1:
        return IV(bits, t=(lambda: z3.If(v.t(), z3.BitVecVal(-1, bits), z3.BitVecVal(0, bits))), p=v.p, lo=-1, hi=0, org=v)
    if bits == 64: return IV(64, sx=v.peek_sx(), p=v.p, lo=v.lo, hi=v.hi, org=v)
    return IV(bits, t=(lambda: z3.SignExt(bits - v.bits, v.t()) if v.lo < 0 else z3.ZeroExt(bits - v.bits, v.t())),
              sx=v._sx if bits < 64 else None, p=v.p, lo=v.lo, hi=v.hi, org=v)


@mixin
def trunc(self, v, bits):
    if isinstance(v, PV): v = self.ptrtoint(v)
    if isinstance(v, VV): return VV([self.trunc(x, bits) for x in v.l])
    if v.bits == bits: return v
    if v.c is not None: return IV(bits, v.c, p=v.p)
    o = v.org
    while o is not None and o.bits > bits and o.org is not None: o = o.org
    if o is not None:
        if o.bits == bits: return o if o.p is v.p else IV(o.bits, o.c, o._t, o._sx, o._zx, por(o.p, v.p), o.lo, o.hi, o.org)
        if o.bits < bits and o.bits > 1 and bits > 1: return self.zext(o, bits) if v.lo >= 0 else self.sext(o, bits)
        if o.bits == 1 and bits > 1: return self.zext(o, bits) if v.lo >= 0 else self.sext(o, bits)
    if bits == 1:
        return fromterm(1, extract(0, 0, v.t()) == z3.BitVecVal(1, 1), p=v.p)
    fits = v.lo >= smin(bits) and v.hi <= smax(bits)
    if not fits and self.partmap and bits > 8 and not v.idx:
        return self.recall(bits, extract(bits - 1, 0, v.t()), v.p)
    if not fits and self.partmap and v.bits == 64 and bits > 8:
        t = extract(bits - 1, 0, v.t())
        if t.get_id() in self.partmap: return self.recall(bits, t, v.p)
    r = IV(bits, t=(lambda: extract(bits - 1, 0, v.t())), p=v.p, lo=v.lo if fits else None, hi=v.hi if fits else None)
    if fits and v.idx: r._sx = v._sx
    if not fits and v.lo >= 0 and v.hi < (1 << bits) and v.idx: r._zx = v.peek_zx()
    return r


# ------------------------------------------------------------- arithmetic
@mixin
def binop(self, op, a, b, nsw, nuw, exact, st=None, I=None):
    if isinstance(a, VV): return VV([self.binop(op, x, y, nsw, nuw, exact, st, I) for x, y in zip(a.l, b.l)])
    if isinstance(a, PV): a = self.ptrtoint(a)
    if isinstance(b, PV): b = self.ptrtoint(b)
    n = a.bits
    p = por(a.p, b.p)
    M = (1 << n) - 1
    if n == 1:
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x ^ y, 'sub': x ^ y, 'mul': x & y}.get(op)
            if r is None: raise Unsupported('i1 ' + op)
            return IV(1, r, p=p)
        x, y = a.t(), b.t()
        if op in ('and', 'mul'): return fromterm(1, And(x, y), p=p)
        if op == 'or': return fromterm(1, Or(x, y), p=p)
        if op in ('xor', 'add', 'sub'):
            if b.c is not None: return fromterm(1, Not(x) if b.c else x, p=p)
            if a.c is not None: return fromterm(1, Not(y) if a.c else y, p=p)
            return fromterm(1, z3.Xor(x, y), p=p)
        raise Unsupported('i1 ' + op)
    if a.c is not None and b.c is not None:
        x, y = a.c, b.c; xs, ys = a.lo, b.lo
        r = None
        pz = p
        if op == 'add':
            r = x + y
            if nsw and not smin(n) <= xs + ys <= smax(n): pz = TRUE
        elif op == 'sub':
            r = x - y
            if nsw and not smin(n) <= xs - ys <= smax(n): pz = TRUE
        elif op == 'mul':
            r = x * y
            if nsw and not smin(n) <= xs * ys <= smax(n): pz = TRUE
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y if y < n else 0
        elif op == 'lshr': r = x >> y if y < n else 0
        elif op == 'ashr': r = xs >> y if y < n else 0
        elif op == 'udiv' and y: r = x // y
        elif op == 'urem' and y: r = x % y
        elif op == 'sdiv' and y: r = abs(xs) // abs(ys) * (1 if (xs >= 0) == (ys >= 0) else -1)
        elif op == 'srem' and y: r = math.fmod(xs, ys) if False else (abs(xs) % abs(ys)) * (1 if xs >= 0 else -1)
        if r is not None: return IV(n, r, p=pz)
    if op in ('add', 'sub', 'mul'):
        if op == 'add': lo, hi = a.lo + b.lo, a.hi + b.hi
        elif op == 'sub': lo, hi = a.lo - b.hi, a.hi - b.lo
        else:
            q = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]; lo, hi = min(q), max(q)
        safe = lo >= smin(n) and hi <= smax(n)
        if op == 'add' and a.c == 0: return b if b.p is p else IV(n, b.c, b._t, b._sx, b._zx, p, b.lo, b.hi)
        if op in ('add', 'sub') and b.c == 0: return a if a.p is p else IV(n, a.c, a._t, a._sx, a._zx, p, a.lo, a.hi)
        if op == 'mul' and (a.c == 0 or b.c == 0): return IV(n, 0, p=p)
        if op == 'mul' and b.c == 1: return a
        if op == 'mul' and a.c == 1: return b
        f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
        sx = zx = None
        if n == 64: sx = f(a.sx(), b.sx())
        elif n < 64:
            if (nsw or safe) and (a.idx or b.idx) or (safe and op == 'mul' and a.c is None and b.c is None): sx = f(a.peek_sx(), b.peek_sx())
            elif nuw and (a.idx or b.idx): zx = f(a.peek_zx(), b.peek_zx())
            elif a._zx is not None and a._sx is None and b.c is not None and False: pass
        if nsw and not safe and self.opts['overflow']:
            p = por(p, self.ovf(op, a, b, sx))
        if not safe:
            lo = hi = None
            if nsw and op == 'add' : lo, hi = a.lo + b.lo, a.hi + b.hi
        if n == 64:
            r = fromsx(64, sx, lo, hi, p)
            return r
        if op == 'mul' and sx is not None and sx.degree() > 1:
            return IV(n, t=(lambda: f(a.t(), b.t())), sx=sx, p=p, lo=lo, hi=hi)
        if sx is not None:
            if sx.isconst(): return IV(n, sx.cval(), p=p)
            return IV(n, sx=sx, p=p, lo=lo, hi=hi)
        if zx is not None: return IV(n, zx=zx, p=p, lo=lo, hi=hi)
        return IV(n, t=(lambda: f(a.t(), b.t())), p=p, lo=lo, hi=hi)
    if op in ('and', 'or', 'xor'):
        if op == 'and':
            if b.c == M: return a
            if a.c == M: return b
            if a.c == 0 or b.c == 0: return IV(n, 0, p=p)
            lo = hi = None
            if a.lo >= 0 or b.lo >= 0:
                lo = 0; hi = min(x.hi for x in (a, b) if x.lo >= 0)
            return IV(n, t=(lambda: a.t() & b.t()), p=p, lo=lo, hi=hi)
        if op == 'or':
            if b.c == 0: return a
            if a.c == 0: return b
            lo = hi = None
            if a.lo >= 0 and b.lo >= 0: lo = 0; hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            if n == 64:      # two packed 32-bit values
                for x, y in ((a, b), (b, a)):
                    if x._sx is not None and not x._sx.isconst() and x._sx.divisible(1 << 32) and 0 <= y.lo and y.hi < 1 << 32:
                        return IV(n, t=concat([extract(31, 0, x._sx.divexact(1 << 32).term()), extract(31, 0, y.t())]), p=p, lo=lo, hi=hi)
            return IV(n, t=(lambda: a.t() | b.t()), p=p, lo=lo, hi=hi)
        if b.c == 0: return a
        lo = hi = None
        if a.lo >= 0 and b.lo >= 0: lo = 0; hi = (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        return IV(n, t=(lambda: a.t() ^ b.t()), p=p, lo=lo, hi=hi)
    if op == 'shl':
        if b.c is not None:
            if b.c >= n: return IV(n, 0, p=TRUE)
            if b.c == 0: return a
            return self.binop('mul', a, IV(n, 1 << b.c), nsw and b.c < n - 1, nuw, False, st, I)
        p = por(p, z3.UGE(b.t(), z3.BitVecVal(n, n)) if self.opts['overflow'] and not (b.lo >= 0 and b.hi < n) else None)
        return IV(n, t=(lambda: a.t() << b.t()), p=p)
    if op in ('lshr', 'ashr'):
        if b.c is not None:
            if b.c >= n: return IV(n, 0, p=TRUE)
            if b.c == 0: return a
            if (op == 'ashr' or a.lo >= 0) and a.idx and exact:
                s = a.peek_sx()
                if s.divisible(1 << b.c): return self.exactdiv(a, s, 1 << b.c, st, I)
            if op == 'ashr' or a.lo >= 0: lo, hi = a.lo >> b.c, a.hi >> b.c
            else: lo, hi = 0, M >> b.c
            if op == 'ashr' and a.lo < 0: return IV(n, t=(lambda: a.t() >> b.t()), p=p, lo=lo, hi=hi)
            if n == 64 and b.c == 32 and not a.idx: return IV(n, t=concat([z3.BitVecVal(0, 32), extract(63, 32, a.t())]), p=p, lo=lo, hi=hi)
            return IV(n, t=(lambda: z3.LShR(a.t(), b.t())), p=p, lo=lo, hi=hi)
        p = por(p, z3.UGE(b.t(), z3.BitVecVal(n, n)) if self.opts['overflow'] and not (b.lo >= 0 and b.hi < n) else None)
        lo, hi = (0, a.hi) if a.lo >= 0 else (None, None)
        return IV(n, t=(lambda: (a.t() >> b.t()) if op == 'ashr' else z3.LShR(a.t(), b.t())), p=p, lo=lo, hi=hi)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        if b.c == 0: return IV(n, t=self.fresh(n, 'divzero'), p=TRUE)
        if b.c is None and self.opts['overflow'] and not (b.lo > 0 or b.hi < 0):
            # division by zero is immediate UB
            if st is not None and not self.ghost:
                self.oblige(st, b.t() != 0, 'no division by zero', 'division', I)
        if b.c == 1 and op in ('udiv', 'sdiv'): return a
        s = a.peek_sx() if a.idx and b.c is not None else None
        if s is not None and b.lo > 0:
            if op in ('sdiv', 'udiv') and s.divisible(b.c) and (exact or (a.lo >= 0 and a.hi < (1 << 62))) and not s.isconst():
                return self.exactdiv(a, s, b.c, st, I)
            if op in ('srem', 'urem') and a.lo >= 0 and a.hi < (1 << 62):
                m = s.modconst(b.c)
                if m is not None: return IV(n, m, p=p)
        if a.lo >= 0 and b.lo > 0:
            # unsigned == signed; powers of two become shifts/masks
            if b.c is not None and b.c & (b.c - 1) == 0:
                k = b.c.bit_length() - 1
                if op in ('udiv', 'sdiv'): return self.binop('lshr', a, IV(n, k), False, False, False, st, I)
                return self.binop('and', a, IV(n, b.c - 1), False, False, False, st, I)
            if op in ('udiv', 'sdiv'):
                return self.divterm('udiv', a, b, p, a.lo // b.hi, a.hi // b.lo)
            return self.divterm('urem', a, b, p, 0, min(a.hi, b.hi - 1))
        if op == 'udiv': return self.divterm('udiv', a, b, p, None, None)
        if op == 'urem':
            return self.divterm('urem', a, b, p, 0 if b.lo > 0 else None, b.hi - 1 if b.lo > 0 else None)
        if op == 'sdiv':
            lo = hi = None
            if b.lo > 0: lo, hi = min(a.lo, 0), max(a.hi, 0)
            return self.divterm('sdiv', a, b, p, lo, hi)
        lo = hi = None
        if b.lo > 0: lo, hi = (0 if a.lo >= 0 else 1 - b.hi), b.hi - 1
        return self.divterm('srem', a, b, p, lo, hi)
    raise Unsupported('binop ' + op)


@mixin
def divterm(self, op, a, b, p, lo, hi):
    f = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op]
    n = a.bits
    # shrink the division to the width the operands need
    if op in ('udiv', 'urem') and a.lo >= 0 and b.lo > 0:
        w = max(a.hi.bit_length(), b.hi.bit_length(), 1)
        if w < n:
            return IV(n, t=(lambda: z3.ZeroExt(n - w, f(extract(w - 1, 0, a.t()), extract(w - 1, 0, b.t())))), p=p, lo=lo, hi=hi)
    return IV(n, t=(lambda: f(a.t(), b.t())), p=p, lo=lo, hi=hi)


@mixin
def exactdiv(self, a, s, d, st, I):
    q = s.divexact(d)
    if st is not None and not self.ghost and not q.isconst():
        lim = z3.BitVecVal((1 << 61) // d, 64)
        if not (a.bits < 64 or (a.lo > -(1 << 62) and a.hi < (1 << 62))):
            self.oblige(st, And(q.term() <= lim, -lim <= q.term()), 'exact division does not wrap', 'overflow', I)
    return fromsx(a.bits, q, None, None, a.p)


@mixin
def ovf(self, op, a, b, sx):
    n = a.bits
    if n < 64 and sx is not None and (op != 'mul' or sx.degree() <= 1):
        t = sx.term()
        return Or(t < z3.BitVecVal(smin(n), 64), t > z3.BitVecVal(smax(n), 64))
    x, y = a.t(), b.t()
    w = n + (1 if op != 'mul' else n)
    if op == 'mul' and n >= 32:
        # width actually needed by the operand intervals
        wa = max(abs(a.lo), abs(a.hi)).bit_length() + 1; wb = max(abs(b.lo), abs(b.hi)).bit_length() + 1
        w = min(2 * n, max(n + 1, wa + wb))
    X_, Y_ = z3.SignExt(w - n, x), z3.SignExt(w - n, y)
    r = X_ + Y_ if op == 'add' else X_ - Y_ if op == 'sub' else X_ * Y_
    return Or(r < z3.BitVecVal(smin(n), w), r > z3.BitVecVal(smax(n), w))


SWAP = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'uge': 'ule', 'ult': 'ugt', 'ule': 'uge', 'sgt': 'slt', 'sge': 'sle', 'slt': 'sgt', 'sle': 'sge'}
NEG = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge'}


@mixin
def icmp(self, pred, a, b, st=None, I=None):
    if isinstance(a, VV): return VV([self.icmp(pred, x, y, st, I) for x, y in zip(a.l, b.l)])
    if isinstance(a, PV) or isinstance(b, PV):
        if isinstance(a, IV): a = self.inttoptr(a)
        if isinstance(b, IV): b = self.inttoptr(b)
        return self.pcmp(pred, a, b)
    p = por(a.p, b.p)
    n = a.bits
    if n == 1:
        x, y = a.t(), b.t()
        if pred == 'eq': return fromterm(1, Not(x) if is_false(y) else (x if is_true(y) else (Not(y) if is_false(x) else (y if is_true(x) else x == y))), p=p)
        if pred == 'ne': return fromterm(1, x if is_false(y) else (Not(x) if is_true(y) else (y if is_false(x) else (Not(y) if is_true(x) else z3.Xor(x, y)))), p=p)
        a, b = self.zext(a, 8), self.zext(b, 8) if pred[0] == 'u' else (self.sext(a, 8), self.sext(b, 8))
        if pred[0] == 's': a, b = self.sext(a, 8), self.sext(b, 8)
        return self.icmp(pred, a, b)
    if a.c is not None and b.c is not None:
        x, y = (a.c, b.c) if pred[0] == 'u' else (a.lo, b.lo)
        return IV(1, int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y}[pred]), p=p)
    nonneg = a.lo >= 0 and b.lo >= 0
    q = pred
    if pred[0] == 'u' and nonneg: q = 's' + pred[1:]
    # interval decisions
    r = None
    if q in ('slt', 'sge'):
        if a.hi < b.lo: r = True
        elif a.lo >= b.hi: r = False
        if r is not None and q == 'sge': r = not r
    elif q in ('sle', 'sgt'):
        if a.hi <= b.lo: r = True
        elif a.lo > b.hi: r = False
        if r is not None and q == 'sgt': r = not r
    elif q in ('eq', 'ne'):
        if a.hi < b.lo or b.hi < a.lo: r = q == 'ne'
    elif pred == 'uge' and b.c == 0: r = True
    elif pred == 'ult' and b.c == 0: r = False
    if r is not None: return IV(1, int(r), p=p)
    # comparing an extended bool
    if a.org is not None and a.org.bits == 1 and b.c is not None and pred in ('eq', 'ne'):
        if b.c in (0, 1) and a.lo >= 0 or b.c == 0:
            t = a.org.t()
            return fromterm(1, t if (b.c == 0) == (pred == 'ne') else Not(t), p=p)
    ta = tb = None
    if n <= 64 and (a.idx or b.idx or n == 64):
        if pred[0] == 's' or pred in ('eq', 'ne') or nonneg:
            if (pred in ('eq', 'ne')) and not nonneg and n < 64 and (a._zx is not None and a._sx is None or b._zx is not None and b._sx is None):
                pa, pb = a.peek_zx(), b.peek_zx()
            else: pa, pb = a.peek_sx(), b.peek_sx()
            d = pa - pb
            if d.isconst():
                if pred in ('eq', 'ne'): return IV(1, int((d.cval() == 0) == (pred == 'eq')), p=p)
                if d.cval() == 0: return IV(1, int(pred in ('sle', 'sge', 'ule', 'uge')), p=p)
            ta, tb = pa.term(), pb.term()
        else:
            za = a._zx is not None or a.lo >= 0 or a.c is not None
            zb = b._zx is not None or b.lo >= 0 or b.c is not None
            if n == 64 or (za and zb): ta, tb = a.peek_zx().term(), b.peek_zx().term()
    if ta is None:
        # narrow: compare at original width when both extended the same way
        if a.org is not None and a.lo >= 0 and b.c is not None and b.lo >= 0 and a.org.bits > 1 and b.c < (1 << a.org.bits) and a.org.bits < n:
            ta, tb = a.org.t(), z3.BitVecVal(b.c, a.org.bits); 
            if q[0] == 's': q = 'u' + q[1:]
            pred = q
            return self.cmpres(pred, ta, tb, p)
        ta, tb = a.t(), b.t()
    if self.cmpcap is not None and ta.size() == 64: self.cmpcap.append((64, ta, tb, pred))
    elif self.cmpcap is not None and n < 64:
        self.cmpcap.append((n, ta, tb, pred))
    return self.cmpres(pred, ta, tb, p)


@mixin
def cmpres(self, pred, ta, tb, p):
    if ta.eq(tb): return IV(1, int(pred in ('eq', 'sle', 'sge', 'ule', 'uge')), p=p)
    t = {'eq': lambda: ta == tb, 'ne': lambda: z3.Not(ta == tb), 'ugt': lambda: z3.ULT(tb, ta), 'uge': lambda: z3.Not(z3.ULT(ta, tb)),
         'ult': lambda: z3.ULT(ta, tb), 'ule': lambda: z3.Not(z3.ULT(tb, ta)), 'sgt': lambda: tb < ta, 'sge': lambda: z3.Not(ta < tb),
         'slt': lambda: ta < tb, 'sle': lambda: z3.Not(tb < ta)}[pred]()
    return fromterm(1, t, p=p)


@mixin
def pcmp(self, pred, a, b):
    p = por(a.p, b.p)
    r = FALSE
    for g1, o1, f1 in a.e:
        for g2, o2, f2 in b.e:
            g = And(g1, g2)
            if is_false(g): continue
            if o1 is o2:
                sp = pred
                if sp[0] == 'u': sp = 's' + sp[1:]
                c = self.icmp(sp, fromsx(64, f1), fromsx(64, f2)).t()
            elif pred in ('eq', 'ne'):
                if (o1 is None) != (o2 is None):
                    # an object is never at a constant (null) address
                    fo = f1 if o1 is None else f2
                    if fo.isconst(): c = z3.BoolVal(pred == 'ne')
                    else: c = self.icmp(pred, self.ptrtoint(PV([(TRUE, o1, f1)])), self.ptrtoint(PV([(TRUE, o2, f2)]))).t()
                else: c = z3.BoolVal(pred == 'ne')
            else:
                c = self.icmp(pred, self.ptrtoint(PV([(TRUE, o1, f1)])), self.ptrtoint(PV([(TRUE, o2, f2)]))).t()
            r = Or(r, And(g, c))
    return fromterm(1, r, p=p)


# ----------------------------------------------------------- floating point
def fpconst(*vs): return all(v.c is not None for v in vs)


@mixin
def fop(self, op, a, b=None, bits=None):
    if isinstance(a, VV):
        return VV([self.fop(op, x, y) for x, y in zip(a.l, b.l if b is not None else [None] * len(a.l))])
    n = a.bits
    p = por(a.p, b.p if b is not None else None)
    if op == 'fneg':
        if a.c is not None: return IV(n, a.c ^ (1 << (n - 1)), p=p)
        return IV(n, t=a.t() ^ z3.BitVecVal(1 << (n - 1), n), p=p)
    if op == 'fabs':
        if a.c is not None: return IV(n, a.c & ~(1 << (n - 1)), p=p)
        t = a.t()
        M = z3.BitVecVal((1 << (n - 1)) - 1, n)
        # |x - y| == |y - x|
        if t.decl().name() in ('fsub32', 'fsub64'):
            self.gfact((t & M) == (self.uf(t.decl().name(), *([z3.BitVecSort(n)] * 3))(t.arg(1), t.arg(0)) & M), t)
        return IV(n, t=t & M, p=p)
    if a.c is not None and (b is None or b.c is not None) and n in (32, 64):
        x = b2f(a.c, n); y = b2f(b.c, n) if b is not None else None
        try:
            r = None
            if op == 'fadd': r = x + y
            elif op == 'fsub': r = x - y
            elif op == 'fmul': r = x * y
            elif op == 'fdiv' and y != 0: r = x / y
            elif op == 'sqrt' and x >= 0: r = math.sqrt(x)
            elif op == 'floor': r = float(math.floor(x))
            elif op == 'ceil': r = float(math.ceil(x))
            elif op == 'trunc': r = float(math.trunc(x))
            if r is not None and r == r: return IV(n, f2b(r, n), p=p)
        except (OverflowError, ValueError): pass
    if self.opts['fp'] == 'ieee' and n in (32, 64):
        x = tofp(a.t(), n); y = tofp(b.t(), n) if b is not None else None
        r = {'fadd': lambda: z3.fpAdd(RNE, x, y), 'fsub': lambda: z3.fpSub(RNE, x, y), 'fmul': lambda: z3.fpMul(RNE, x, y),
             'fdiv': lambda: z3.fpDiv(RNE, x, y), 'sqrt': lambda: z3.fpSqrt(RNE, x), 'floor': lambda: z3.fpRoundToIntegral(z3.RTN(), x),
             'ceil': lambda: z3.fpRoundToIntegral(z3.RTP(), x), 'trunc': lambda: z3.fpRoundToIntegral(RTZ, x),
             'round': lambda: z3.fpRoundToIntegral(z3.RNA(), x), 'rint': lambda: z3.fpRoundToIntegral(RNE, x)}.get(op)
        if r is not None: return IV(n, t=frfp(r()), p=p)
    S = z3.BitVecSort(n)
    if b is None: return IV(n, t=self.uf('%s%d' % (op, n), S, S)(a.t()), p=p)
    x, y = a.t(), b.t()
    f = self.uf('%s%d' % (op, n), S, S, S)
    r = f(x, y)
    if op in ('fadd', 'fmul') and x.get_id() != y.get_id(): self.gfact(r == f(y, x), r)
    return IV(n, t=r, p=p)


@mixin
def fcmp(self, pred, a, b):
    if isinstance(a, VV): return VV([self.fcmp(pred, x, y) for x, y in zip(a.l, b.l)])
    n = a.bits
    p = por(a.p, b.p)
    if pred == 'false': return IV(1, 0)
    if pred == 'true': return IV(1, 1)
    if a.c is not None and b.c is not None:
        x, y = b2f(a.c, n), b2f(b.c, n)
        un = x != x or y != y
        r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y and not un}.get(pred[1:])
        if pred == 'ord': r = not un
        elif pred == 'uno': r = un
        elif pred[0] == 'u': r = un or {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]]
        return IV(1, int(r), p=p)
    if self.opts['fp'] == 'ieee' and n in (32, 64):
        x, y = tofp(a.t(), n), tofp(b.t(), n)
        LT = lambda u, v: z3.fpLT(u, v)
        LE = lambda u, v: z3.fpLEQ(u, v)
        EQ = lambda u, v: z3.fpEQ(u, v)
        UNO = lambda: z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    else:
        S = z3.BitVecSort(n); Bo = z3.BoolSort()
        x, y = a.t(), b.t()
        LT = lambda u, v: FALSE if u.eq(v) else self.uf('flt%d' % n, S, S, Bo)(u, v)
        LE = lambda u, v: self.uf('fle%d' % n, S, S, Bo)(u, v)
        EQ = lambda u, v: self.uf('feq%d' % n, S, S, Bo)(*((u, v) if u.get_id() <= v.get_id() else (v, u)))
        nan = lambda u: FALSE if z3.is_bv_value(u) and b2f(u.as_long(), n) == b2f(u.as_long(), n) else self.uf('fnan%d' % n, S, Bo)(u)
        UNO = lambda: Or(nan(x), nan(y))
    t = {'oeq': lambda: EQ(x, y), 'ogt': lambda: LT(y, x), 'oge': lambda: LE(y, x), 'olt': lambda: LT(x, y), 'ole': lambda: LE(x, y),
         'une': lambda: Not(EQ(x, y)), 'uno': UNO, 'ord': lambda: Not(UNO()), 'ult': lambda: Not(LE(y, x)), 'ule': lambda: Not(LT(y, x)),
         'ugt': lambda: Not(LE(x, y)), 'uge': lambda: Not(LT(x, y)), 'one': lambda: And(Not(EQ(x, y)), Not(UNO())),
         'ueq': lambda: Or(EQ(x, y), UNO())}[pred]()
    return fromterm(1, t, p=p)


@mixin
def fcast(self, op, a, ty):
    if isinstance(a, VV): return VV([self.fcast(op, x, ty.elem) for x in a.l])
    n, m = a.bits, ty.bits
    p = a.p
    if op in ('sitofp', 'uitofp'):
        if a.c is not None:
            v = a.lo if op == 'sitofp' else a.c
            if abs(v) < (1 << 53): return IV(m, f2b(float(v), m), p=p)
        if n == 1: a = self.zext(a, 32); n = 32; op = 'sitofp' if op == 'uitofp' else op
        if op == 'uitofp' and a.lo >= 0: op = 'sitofp'
        if op == 'uitofp' and n < 64: a = self.zext(a, 64); op = 'sitofp'
        elif n < 64: a = self.sext(a, 64)
        if self.opts['fp'] == 'ieee':
            w = max(2, max(abs(a.lo), abs(a.hi)).bit_length() + 1) if op == 'sitofp' else 64
            t = extract(w - 1, 0, a.t()) if w < 64 else a.t()
            return IV(m, t=frfp(z3.fpSignedToFP(RNE, t, FS[m]) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, t, FS[m])), p=p)
        g = self.uf('sitofp%d' % m, z3.BitVecSort(64), z3.BitVecSort(m))(a.t())
        if op == 'uitofp': g = z3.If(a.t() >= 0, g, self.uf('uitofp%d' % m, z3.BitVecSort(64), z3.BitVecSort(m))(a.t()))
        return IV(m, t=g, p=p)
    if op in ('fptosi', 'fptoui'):
        if a.c is not None:
            x = b2f(a.c, n)
            if x == x and abs(x) < 2 ** 62: return IV(m, int(x), p=p)
        if self.opts['fp'] == 'ieee':
            x = tofp(a.t(), n)
            return IV(m, t=(z3.fpToSBV(RTZ, x, z3.BitVecSort(m)) if op == 'fptosi' else z3.fpToUBV(RTZ, x, z3.BitVecSort(m))), p=p)
        return IV(m, t=self.uf('%s%d_%d' % (op, n, m), z3.BitVecSort(n), z3.BitVecSort(m))(a.t()), p=p)
    if op in ('fpext', 'fptrunc'):
        if a.c is not None: return IV(m, f2b(b2f(a.c, n), m), p=p)
        if self.opts['fp'] == 'ieee' and n in (32, 64) and m in (32, 64):
            return IV(m, t=frfp(z3.fpToFP(RNE, tofp(a.t(), n), FS[m])), p=p)
        return IV(m, t=self.uf('%s%d_%d' % (op, n, m), z3.BitVecSort(n), z3.BitVecSort(m))(a.t()), p=p)
    raise Unsupported(op)


# ------------------------------------------------------------ bit casting
@mixin
def tobits(self, v):
    if isinstance(v, VV): return self.join_bits([self.tobits(x) for x in v.l])
    if isinstance(v, PV): return self.ptrtoint(v)
    return v


@mixin
def join_bits(self, parts):
    if len(parts) == 1: return parts[0]
    if all(x.c is not None for x in parts):
        c = 0; s = 0
        for x in parts: c |= x.c << s; s += x.bits
        return IV(s, c)
    self.remember(parts)
    return fromterm(sum(x.bits for x in parts), concat([x.bv() for x in reversed(parts)]), p=por(*[x.p for x in parts]))


@mixin
def bitcast(self, v, ty):
    if ty.kind == 'ptr': return v if isinstance(v, PV) else self.inttoptr(v)
    if ty.kind == 'vec':
        if isinstance(v, VV) and len(v.l) == ty.n: return v
        b = self.tobits(v)
        eb = ty.elem.bits
        return VV([self.bits_extract(b, i * eb, eb) for i in range(ty.n)])
    if isinstance(v, VV): return self.tobits(v)
    return v


@mixin
def bits_extract(self, b, lo, n):
    if b.c is not None: return IV(n, b.c >> lo)
    t = extract(lo + n - 1, lo, b.t())
    if n == 1: return fromterm(1, t == z3.BitVecVal(1, 1) if not (t.decl().kind() == z3.Z3_OP_ITE) else t.arg(0), p=b.p)
    return self.recall(n, t, b.p)


# ------------------------------------------------------------ instructions
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}


@mixin
def exec_instr(self, fr, I, st):
    op = I.op
    V = lambda k: self.val(fr, I.ops[k])
    env = fr.env
    if op in BIN:
        env[I.idx] = self.binop(op, V(0), V(1), I.nsw, I.nuw, I.exact, st, I)
    elif op == 'load':
        env[I.idx] = self.load(st, V(0), I.ty, I)
    elif op == 'store':
        x = I.ops[0]
        v = V(0)
        ty = x.ty if isinstance(x, (Instr, Const)) and x.ty is not None else (fr.fn.param_types[x[1]] if isinstance(x, tuple) else PTRT(self))
        if isinstance(v, PV) and ty is None: ty = PTRT(self)
        self.store(st, V(1), v, ty, I)
    elif op == 'gep':
        env[I.idx] = self.gep(I.x, V(0), [V(k) for k in range(1, len(I.ops))], I)
    elif op == 'icmp': env[I.idx] = self.icmp(I.x, V(0), V(1), st, I)
    elif op == 'alloca':
        n = V(0)
        sz = Poly.const(I.x.size) * n.sx()
        o = self.newobj('local(%s)' % fr.fn.name[-40:], sz, 'alloca', align=16)
        fr.allocas.append(o)
        st.mem[o] = FieldState({}, 'undef')
        env[I.idx] = PV([(TRUE, o, P0)])
    elif op == 'select':
        c = V(0)
        if isinstance(c, VV): env[I.idx] = VV([self.sel(x, a, b) for x, a, b in zip(c.l, V(1).l, V(2).l)])
        else: env[I.idx] = self.sel(c, V(1), V(2))
    elif op == 'zext': env[I.idx] = self.zext(V(0), lanebits(I.ty))
    elif op == 'sext': env[I.idx] = self.sext(V(0), lanebits(I.ty))
    elif op == 'trunc': env[I.idx] = self.trunc(V(0), lanebits(I.ty))
    elif op in ('bitcast', 'addrspacecast'): env[I.idx] = self.bitcast(V(0), I.ty)
    elif op == 'ptrtoint': env[I.idx] = self.ptrtoint(V(0), I.ty.bits)
    elif op == 'inttoptr': env[I.idx] = self.inttoptr(V(0))
    elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): env[I.idx] = self.fop(op, V(0), V(1))
    elif op == 'fneg': env[I.idx] = self.fop(op, V(0))
    elif op == 'fcmp': env[I.idx] = self.fcmp(I.x, V(0), V(1))
    elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'): env[I.idx] = self.fcast(op, V(0), I.ty)
    elif op == 'extractvalue':
        v = V(0)
        for k in I.x: v = v.l[k]
        env[I.idx] = v
    elif op == 'insertvalue':
        def ins(a, ix, v):
            if not ix: return v
            l = list(a.l); l[ix[0]] = ins(l[ix[0]], ix[1:], v)
            return AV(l)
        env[I.idx] = ins(V(0), I.x, V(1))
    elif op == 'extractelement':
        v, k = V(0), V(1)
        if k.c is None: raise Unsupported('dynamic lane')
        env[I.idx] = v.l[k.c]
    elif op == 'insertelement':
        v, x, k = V(0), V(1), V(2)
        if k.c is None: raise Unsupported('dynamic lane')
        l = list(v.l); l[k.c] = x
        env[I.idx] = VV(l)
    elif op == 'shufflevector':
        a, b = V(0), V(1)
        l = a.l + b.l
        et = I.ty.elem
        env[I.idx] = VV([l[m] if m >= 0 else self.undef(et) for m in I.x])
    elif op == 'freeze':
        v = V(0)
        env[I.idx] = self.unpoison(st, v, I)
    elif op == 'fence': pass
    elif op == 'landingpad': raise Unsupported('landing pad')
    elif op == 'atomicrmw':
        p, v = V(0), V(1)
        old = self.load(st, p, I.ty, I)
        f = {0: lambda: v, 1: lambda: self.binop('add', old, v, 0, 0, 0), 2: lambda: self.binop('sub', old, v, 0, 0, 0), 3: lambda: self.binop('and', old, v, 0, 0, 0),
             5: lambda: self.binop('or', old, v, 0, 0, 0), 6: lambda: self.binop('xor', old, v, 0, 0, 0)}[I.x]()
        self.store(st, p, f, I.ty, I)
        env[I.idx] = old
    elif op == 'cmpxchg':
        p, c, v = V(0), V(1), V(2)
        ty = I.ty.elems[0]
        old = self.load(st, p, ty, I)
        eq = self.icmp('eq', old, c)
        self.store(st, p, self.sel(eq, v, old), ty, I)
        env[I.idx] = AV([old, eq])
    else:
        raise Unsupported('instruction ' + op)


def lanebits(ty): return ty.elem.bits if ty.kind == 'vec' else ty.bits


class _PT: pass


def PTRT(self):
    t = getattr(self, '_ptrt', None)
    if t is None:
        t = llvmc.Type(); t.kind = 'ptr'; t.bits = 64; t.size = t.ssize = 8; t.align = 8
        self._ptrt = t
    return t


def INTT(self, bits):
    d = self.__dict__.setdefault('_intt', {})
    t = d.get(bits)
    if t is None:
        t = llvmc.Type(); t.kind = 'int'; t.bits = bits; t.size = t.ssize = (bits + 7) // 8; t.align = t.size
        d[bits] = t
    return t


@mixin
def sel(self, c, a, b):
    if c.c is not None: return a if c.c else b
    r = self.ite(c.t(), a, b)
    if c.p is not None:
        if isinstance(r, IV): r = IV(r.bits, r.c, r._t, r._sx, r._zx, por(r.p, c.p), r.lo, r.hi)
        elif isinstance(r, PV): r = PV(r.e, por(r.p, c.p))
    return r


# ------------------------------------------------------------------- calls
THROWERS = {'__cxa_throw', '__cxa_rethrow', '__cxa_allocate_exception', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_bad_cast', '__cxa_bad_typeid'}
NOOPS = {'llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.donothing'}


@mixin
def cstr(self, v, st=None):
    o, off = v.single()
    s = ''
    if st is not None and isinstance(st.mem.get(o), (FieldState, Node)):   # a string built at run time
        for i in range(200):
            b = self.asint(self.load(st, PV([(TRUE, o, off + Poly.const(i))]), INTT(self, 8), None))
            if b.c is None: raise Unsupported('name is not concrete')
            if b.c == 0: return s
            s += chr(b.c)
        raise Unsupported('name is not terminated')
    c = self.mod.const(o.init.init_ref)
    if c.k == 'zero': return ''
    for e in c.v[off.cval():]:
        if e.v == 0: break
        s += chr(e.v)
    return s


@mixin
def input_name(self, v, st):
    nm = self.cstr(v, st)
    if not nm: raise Unsupported('input without a name')
    if nm in self.innames: raise Unsupported('input name %s used twice' % nm)
    self.innames.append(nm)
    return nm


@mixin
def demangle(self, name):
    if self.demangled is None:
        names = list(self.mod.funcs)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.demangled = dict(zip(names, out))
    return self.demangled.get(name, name)


@mixin
def throw(self, st, why, I):
    if self.ghost: return
    fr = self.stack[-1]
    self.throws.append((st.pc, why, line_of(I), fr.fn.name, self.allow_throw))
    if not self.allow_throw:
        self.oblige(st, FALSE, 'no exception is thrown (%s)' % why, 'exception', I)


@mixin
def do_call(self, fr, I, st):
    callee = I.x
    if isinstance(callee, Const) and callee.k == 'asm':
        if '\t' in str(callee.v) or True:
            # empty asm (compiler barrier)
            if I.ty.kind == 'void': return st
            raise Unsupported('inline asm')
    if isinstance(callee, Const) and callee.k == 'func': F = callee.v
    else:
        pv = self.val(fr, callee)
        s = pv.single()
        if s is None:
            cands = [(g, o) for g, o, f in pv.e if o is not None and o.kind == 'func']
            if not cands: raise Unsupported('indirect call')
            return self.multi_call(fr, I, st, pv)
        if s[0] is None or s[0].kind != 'func': raise Unsupported('indirect call through unknown pointer in %s' % fr.fn.name)
        F = s[0].fn
    args = [self.val(fr, a) for a in I.ops]
    return self.call_with(fr, I, st, F, args)


@mixin
def multi_call(self, fr, I, st, pv):
    res = []
    for g, o, f in pv.e:
        s2 = st.copy(); s2.pc = s2.pc + (g,)
        if o is None or o.kind != 'func':
            self.oblige(s2, FALSE, 'indirect call target is valid', 'memory', I); continue
        r = self.call_with(fr, I, s2, o.fn, [self.val(fr, a) for a in I.ops])
        if r is not None: res.append((r, fr.env.get(I.idx)))
    if not res: return None
    m, gs = self.merge_states([r for r, _ in res])
    if I.ty.kind != 'void':
        v = res[-1][1]
        for g, (_, x) in reversed(list(zip(gs[:-1], res[:-1]))): v = self.ite(g, x, v)
        fr.env[I.idx] = v
    return m.copy()


@mixin
def find_replacement(self, F):
    if not self.replace: return None
    r = self.replcache.get(F.name, 0)
    if r == 0:
        r = None
        d = self.demangle(F.name)
        for rx, G in self.replace:
            if rx.search(d) and G is not F: r = G
        self.replcache[F.name] = r
    return r


@mixin
def call_with(self, fr, I, st, F, args):
    name = F.name
    if name.startswith('vc_') and F.decl:
        return self.vc_call(fr, I, st, name, args)
    if name.startswith('llvm.'):
        return self.intrinsic(fr, I, st, name, args)
    G = self.find_replacement(F) if not (self.stack and False) else None
    if G is not None and not any(f.fn is G for f in self.stack):
        self.externs_used['contract:' + self.demangle(name)[:100]] = 1
        F = G; name = G.name
    h = EXTERN.get(name)
    if h is None:
        for rx, hh in EXTERN_RX:
            if rx.match(name): h = hh; break
    if h is not None:
        self.externs_used[name] = 1
        return h(self, fr, I, st, args, F)
    if name in THROWERS or F.decl and NORET.match(name):
        self.throw(st, self.demangle(name)[:60], I)
        return None
    if F.decl:
        raise Unsupported('no body or contract for external function ' + self.demangle(name))
    args = [self.unpoison(st, a, I) for a in args]
    s2, v = self.call_function(F, args, st, I)
    if s2 is None: return None
    if I.ty.kind != 'void': fr.env[I.idx] = v
    return s2


NORET = re.compile(r'_ZSt\d+__throw_|_ZN2cv5error|_ZSt16__throw|_ZSt20__throw|_ZSt17__throw|abort$|_ZSt24__throw|__assert_fail|_ZN5boost.*throw|_ZN2cv6detail17check_failed|_ZN2cv6detail12check_failed')


def setret(fr, I, v): fr.env[I.idx] = v


def cvt_round(self, a, bits):
    """round to nearest, ties to even; out of range is outside the defined behaviour of the callers"""
    if a.c is not None:
        x = b2f(a.c, a.bits)
        if x == x and abs(x) < 2 ** 62:
            import fractions
            r = round(fractions.Fraction(x))
            if smin(bits) <= r <= smax(bits): return IV(bits, r & ((1 << bits) - 1))
        return IV(bits, 1 << (bits - 1))
    if self.opts['fp'] == 'ieee': return IV(bits, t=z3.fpToSBV(RNE, tofp(a.t(), a.bits), z3.BitVecSort(bits)))
    return IV(bits, t=self.uf('lrint%d_%d' % (a.bits, bits), z3.BitVecSort(a.bits), z3.BitVecSort(bits))(a.t()))


@mixin
def intrinsic(self, fr, I, st, name, args):
    env = fr.env
    base = name
    if name.startswith('llvm.lifetime.end'):
        s = args[1].single()
        if s is not None and s[0] is not None and s[0].kind == 'alloca' and not s[1].m and s[0] in st.mem and isinstance(st.mem[s[0]], FieldState): st.mem[s[0]] = FieldState({}, 'undef')
        return st
    if name.startswith('llvm.threadlocal.address'):
        env[I.idx] = args[0]
        return st
    for k in NOOPS:
        if name.startswith(k):
            if I.ty.kind != 'void': env[I.idx] = NULL if I.ty.kind == 'ptr' else self.zero(I.ty)
            if name == 'llvm.assume' and False: pass
            return st
    m = re.match(r'llvm\.(\w+)\.with\.overflow', name)
    if m:
        op = m.group(1)
        a, b = args
        n = a.bits
        o = {'sadd': 'add', 'uadd': 'add', 'ssub': 'sub', 'usub': 'sub', 'smul': 'mul', 'umul': 'mul'}[op]
        r = self.binop(o, a, b, False, False, False)
        if a.c is not None and b.c is not None:
            x, y = (a.lo, b.lo) if op[0] == 's' else (a.c, b.c)
            v = x + y if o == 'add' else x - y if o == 'sub' else x * y
            ov = IV(1, int(not (smin(n) <= v <= smax(n)) if op[0] == 's' else not (0 <= v < (1 << n))))
        else:
            ex = z3.SignExt if op[0] == 's' else z3.ZeroExt
            w = 2 * n if o == 'mul' else n + 2
            x, y = ex(w - n, a.t()), ex(w - n, b.t())
            v = x + y if o == 'add' else x - y if o == 'sub' else x * y
            if o == 'mul' and op[0] == 'u' and b.c is not None and b.c > 0: c = z3.UGT(a.t(), z3.BitVecVal(((1 << n) - 1) // b.c, n))
            elif o == 'mul' and op[0] == 'u' and a.c is not None and a.c > 0: c = z3.UGT(b.t(), z3.BitVecVal(((1 << n) - 1) // a.c, n))
            else: c = v != ex(w - n, extract(n - 1, 0, v))
            ov = fromterm(1, c, p=por(a.p, b.p))
        env[I.idx] = AV([r, ov])
        return st
    key = re.sub(r'\.(v\d+)?[if]\d+.*$', '', name)
    key = re.sub(r'\.p0.*$', '', key)
    f = INTR.get(key)
    if f is not None:
        r = f(self, fr, I, st, args)
        if I.ty.kind != 'void': env[I.idx] = r
        return st
    if name.startswith('llvm.x86.'):
        f = X86.get(name[len('llvm.x86.'):])
        if f is not None:
            env[I.idx] = f(self, args, I)
            return st
    if name == 'llvm.trap' or name == 'llvm.ubsantrap':
        self.oblige(st, FALSE, 'trap not reached', 'unreachable', I)
        return None
    raise Unsupported('intrinsic ' + name)


def lanes(f):
    def g(self, fr, I, st, args):
        if isinstance(args[0], VV):
            n = len(args[0].l)
            return VV([f(self, *[a.l[i] if isinstance(a, VV) else a for a in args]) for i in range(n)])
        return f(self, *args)
    return g


def _minmax(pred):
    def f(self, a, b):
        c = self.icmp(pred, a, b)
        r = self.sel(c, a, b)
        if isinstance(r, IV) and r.c is None and pred[0] == 's':
            if pred == 'slt': lo, hi = min(a.lo, b.lo), min(a.hi, b.hi)
            else: lo, hi = max(a.lo, b.lo), max(a.hi, b.hi)
            r.lo, r.hi = max(r.lo, lo), min(r.hi, hi)
        return r
    return f


def _abs(self, a, isp):
    n = a.bits
    if a.c is not None: return IV(n, abs(a.lo))
    if a.lo >= 0: return a
    neg = self.binop('sub', IV(n, 0), a, False, False, False)
    r = self.ite((a.t() < 0), neg, a)
    hi = max(abs(a.lo), abs(a.hi))
    p = a.p
    if isp.c:
        if a.lo == smin(n): p = por(p, a.t() == z3.BitVecVal(smin(n), n))
        return IV(n, t=r.t(), p=p, lo=0, hi=min(hi, smax(n)))
    if hi <= smax(n): return IV(n, t=r.t(), p=p, lo=0, hi=hi)
    return IV(n, t=r.t(), p=p)


def _ctpop(self, a):
    n = a.bits
    if a.c is not None: return IV(n, bin(a.c).count('1'))
    t = a.t()
    w = max(2, n.bit_length() + 1)
    w = min(w, n)
    # balanced adder tree
    xs = [z3.ZeroExt(w - 1, extract(i, i, t)) for i in range(n)]
    while len(xs) > 1:
        xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    r = xs[0]
    t0 = z3.simplify(t)
    c = self.ctpops.get(t0.get_id())
    if c is None:
        # named result: bounds for reasoning without the definition, definition as a separate fact
        v = z3.BitVec('ctpop_%d_%d' % (n, len(self.ctpops)), w)
        self.ctpops[t0.get_id()] = c = (v, t0)
        self.gfacts.append(z3.ULE(v, z3.BitVecVal(n, w)))
        self.deffacts.append(v == r)
    r = c[0]
    return IV(n, t=z3.ZeroExt(n - w, r) if n > w else r, lo=0, hi=n, p=a.p)


def _ctlz(self, a, z):
    n = a.bits
    if a.c is not None: return IV(n, n - a.c.bit_length())
    t = z3.BitVecVal(n, n)
    for i in range(n): t = z3.If(extract(i, i, a.t()) == 1, z3.BitVecVal(n - 1 - i, n), t)
    return IV(n, t=t, lo=0, hi=n, p=a.p)


def _cttz(self, a, z):
    n = a.bits
    if a.c is not None: return IV(n, (a.c & -a.c).bit_length() - 1 if a.c else n)
    t = z3.BitVecVal(n, n)
    for i in reversed(range(n)): t = z3.If(extract(i, i, a.t()) == 1, z3.BitVecVal(i, n), t)
    return IV(n, t=t, lo=0, hi=n, p=a.p)


def _sat(op):
    def f(self, a, b):
        n = a.bits
        if op[0] == 'u':
            w = n + 1
            x, y = z3.ZeroExt(1, a.t()), z3.ZeroExt(1, b.t())
            if op == 'uadd':
                r = x + y
                return fromterm(n, z3.If(z3.UGT(r, z3.BitVecVal((1 << n) - 1, w)), z3.BitVecVal((1 << n) - 1, n), extract(n - 1, 0, r)))
            return fromterm(n, z3.If(z3.ULT(x, y), z3.BitVecVal(0, n), a.t() - b.t()))
        w = n + 1
        x, y = z3.SignExt(1, a.t()), z3.SignExt(1, b.t())
        r = x + y if op == 'sadd' else x - y
        return fromterm(n, z3.If(r > z3.BitVecVal(smax(n), w), z3.BitVecVal(smax(n), n), z3.If(r < z3.BitVecVal(smin(n), w), z3.BitVecVal(smin(n), n), extract(n - 1, 0, r))))
    return f


@mixin
def memcpy(self, st, d, s, n, I, move=False):
    """n: IV"""
    if isinstance(d, IV): d = self.inttoptr(d)
    if isinstance(s, IV): s = self.inttoptr(s)
    n = self.unpoison(st, n, I)
    if n.c == 0: return
    ds, ss = d.single(), s.single()
    if ds is None or ss is None:
        if len(d.e) * len(s.e) <= 4:
            sts = []
            for g1, o1, f1 in d.e:
                for g2, o2, f2 in s.e:
                    s2 = st.copy(); s2.pc = s2.pc + (And(g1, g2),)
                    self.memcpy(s2, PV([(TRUE, o1, f1)]), PV([(TRUE, o2, f2)]), n, I); sts.append(s2)
            m, _ = self.merge_states(sts)
            st.mem = dict(m.mem); st.freed = dict(m.freed)
            return
        raise Unsupported('memcpy with several targets')
    do, df = ds; so, sf = ss
    N = n.sx()
    if n.c is None and not self.ghost:
        # a zero-length copy touches nothing
        g = n.t() != 0
    else: g = TRUE
    if do is None or so is None:
        self.oblige(st, Not(g), 'no copy through a null pointer', 'memory', I); return
    if not self.ghost:
        for o, f, w in ((do, df, 'store'), (so, sf, 'load')):
            fz = st.freed.get(o)
            if fz is not None: self.oblige(st, Implies(g, Not(fz)), 'copy of freed memory', 'memory', I)
            c = self.inbounds(o, f, N)
            if w == 'store' and o.const: c = FALSE
            self.oblige(st, Implies(g, And(c, self.cmp64('sle', P0, N))), '%s range in bounds of %s' % (w, self.objdesc(o)), 'memory', I)
    sst = self.objstate(st, so)
    dst = self.objstate(st, do)
    if n.c is not None and df.isconst() and sf.isconst() and isinstance(dst, FieldState) and isinstance(sst, FieldState):
        a, b, L = df.cval(), sf.cval(), n.c
        cur = dst
        items = sorted((k, m, v) for k, (m, v) in sst.f.items() if k < b + L and k + m > b)
        # clear destination range
        f = dict(cur.f)
        tmp = FieldState(f, cur.default)
        for k in [k for k, (m, v) in f.items() if k < a + L and k + m > a]:
            m, v = f[k]
            if k >= a and k + m <= a + L: del f[k]
            else:
                bs = self.split_bytes(v, m, 1); del f[k]
                for i, x in enumerate(bs):
                    if not (a <= k + i < a + L): f[k + i] = (1, x)
        if sst.default == 'zero' or cur.default == 'zero':
            # uncovered source bytes must be materialised
            cov = b
            for k, m, v in items + [(b + L, 0, None)]:
                if k > cov:
                    for q in range(cov, k): f[a + q - b] = (1, self.default_val(so, q, 1, sst.default))
                cov = max(cov, k + m)
        for k, m, v in items:
            if k >= b and k + m <= b + L: f[a + k - b] = (m, v)
            else:
                bs = self.split_bytes(v, m, 1)
                for i, x in enumerate(bs):
                    if b <= k + i < b + L: f[a + k + i - b] = (1, x)
        st.mem[do] = FieldState(f, cur.default)
        return
    if n.c is not None and df.isconst() and isinstance(dst, FieldState) and not isinstance(sst, FieldState) and so.g and n.c % so.g == 0 and n.c // so.g <= 64 and do is not so:
        # a record out of an array into a local object: cell by cell
        cur = dst
        for i in range(0, n.c, so.g):
            cur = self.field_store(cur, df.cval() + i, so.g, self.node_load(so, sst, self.okey(so, sf + Poly.const(i)), so.g))
        st.mem[do] = cur
        return
    gran = so.g or do.g or (n.c if n.c is not None and n.c in (1, 2, 4, 8) else 1)
    snode = self.to_node(so, sst, gran)
    dnode = self.to_node(do, dst, gran)
    st.mem[so] = snode
    if do.g is None: do.g = gran
    if n.c is not None and n.c <= 64 and n.c % gran == 0 and not do.strides and not so.strides:
        vals = [self.node_load(so, snode, self.okey(so, sf + Poly.const(i)), gran) for i in range(0, n.c, gran)]
        x = dnode if do is not so else snode
        for i, v in enumerate(vals): x = Node('store', x, self.okey(do, df + Poly.const(i * gran)), gran, v)
        st.mem[do] = x
        return
    if n.c is not None and n.c == gran:
        v = self.node_load(so, snode, self.okey(so, sf), gran)
        st.mem[do] = Node('store', dnode, self.okey(do, df), gran, v)
        return
    st.mem[do] = Node('copy', dnode if do is not so else snode, self.okey(do, df), N, so, snode, self.okey(so, sf))


@mixin
def memset(self, st, d, b, n, I):
    n = self.unpoison(st, n, I)
    if n.c == 0: return
    s = d.single()
    if s is None: raise Unsupported('memset several targets')
    o, f = s
    N = n.sx()
    g = n.t() != 0 if n.c is None else TRUE
    if o is None:
        self.oblige(st, Not(g), 'no memset through a null pointer', 'memory', I); return
    if not self.ghost:
        fz = st.freed.get(o)
        if fz is not None: self.oblige(st, Implies(g, Not(fz)), 'memset of freed memory', 'memory', I)
        self.oblige(st, Implies(g, And(self.inbounds(o, f, N), self.cmp64('sle', P0, N))), 'memset range in bounds of %s' % self.objdesc(o), 'memory', I)
    cur = self.objstate(st, o)
    if n.c is not None and f.isconst() and isinstance(cur, FieldState) and n.c <= 8192:
        a, L = f.cval(), n.c
        if a == 0 and o.size is not None and o.size.isconst() and o.size.cval() == L and b.c == 0:
            st.mem[o] = FieldState({}, 'zero'); return
        x = cur
        q = 8 if a % 8 == 0 and L % 8 == 0 else 4 if a % 4 == 0 and L % 4 == 0 else 1
        fd = dict(x.f)
        for k in [k for k, (m, v) in fd.items() if k < a + L and k + m > a]:
            m, v = fd[k]
            if k >= a and k + m <= a + L: del fd[k]
            else:
                bs = self.split_bytes(v, m, 1); del fd[k]
                for i, y in enumerate(bs):
                    if not (a <= k + i < a + L): fd[k + i] = (1, y)
        v = self.join_bytes([b] * q)
        for i in range(0, L, q): fd[a + i] = (q, v)
        st.mem[o] = FieldState(fd, x.default)
        return
    nd = self.to_node(o, cur, 1)
    st.mem[o] = Node('set', nd, self.okey(o, f), N, b)


def _memcpy(self, fr, I, st, args):
    self.memcpy(st, args[0], args[1], args[2], I)
    return args[0]


def _memset(self, fr, I, st, args):
    self.memset(st, args[0], self.trunc(args[1], 8) if args[1].bits > 8 else args[1], args[2], I)
    return args[0]


def _fma(self, a, b, c): return self.fop('fadd', self.fop('fmul', a, b), c)


def _reduce(op):
    def f(self, fr, I, st, args):
        l = args[0].l
        r = l[0]
        for x in l[1:]: r = self.binop(op, r, x, False, False, False)
        return r
    return f


def _fshl(self, a, b, c):
    n = a.bits
    if c.c is None: raise Unsupported('fshl')
    s = c.c % n
    if s == 0: return a
    if a.c is not None and b.c is not None: return IV(n, (a.c << s) | (b.c >> (n - s)))
    return fromterm(n, concat([extract(n - s - 1, 0, a.t()), extract(n - 1, n - s, b.t())]))


def _fshr(self, a, b, c):
    n = a.bits
    if c.c is None: raise Unsupported('fshr')
    return _fshl(self, a, b, IV(n, (n - c.c % n) % n)) if c.c % n else b


INTR = {
    'llvm.memcpy': _memcpy, 'llvm.memmove': _memcpy, 'llvm.memset': _memset, 'llvm.memcpy.inline': _memcpy,
    'llvm.smin': lanes(_minmax('slt')), 'llvm.smax': lanes(_minmax('sgt')), 'llvm.umin': lanes(_minmax('ult')), 'llvm.umax': lanes(_minmax('ugt')),
    'llvm.abs': lanes(_abs), 'llvm.ctpop': lanes(_ctpop), 'llvm.ctlz': lanes(_ctlz), 'llvm.cttz': lanes(_cttz),
    'llvm.uadd.sat': lanes(_sat('uadd')), 'llvm.usub.sat': lanes(_sat('usub')), 'llvm.sadd.sat': lanes(_sat('sadd')), 'llvm.ssub.sat': lanes(_sat('ssub')),
    'llvm.fabs': lanes(lambda s, a: s.fop('fabs', a)), 'llvm.sqrt': lanes(lambda s, a: s.fop('sqrt', a)),
    'llvm.floor': lanes(lambda s, a: s.fop('floor', a)), 'llvm.ceil': lanes(lambda s, a: s.fop('ceil', a)), 'llvm.trunc': lanes(lambda s, a: s.fop('trunc', a)),
    'llvm.round': lanes(lambda s, a: s.fop('round', a)), 'llvm.rint': lanes(lambda s, a: s.fop('rint', a)), 'llvm.nearbyint': lanes(lambda s, a: s.fop('rint', a)),
    'llvm.fmuladd': lanes(_fma), 'llvm.fma': lanes(lambda s, a, b, c: s.fop('fma2', s.fop('fma1', a, b), c)),
    'llvm.exp': lanes(lambda s, a: s.fop('exp', a)), 'llvm.log': lanes(lambda s, a: s.fop('log', a)), 'llvm.pow': lanes(lambda s, a, b: s.fop('pow', a, b)),
    'llvm.cos': lanes(lambda s, a: s.fop('cos', a)), 'llvm.sin': lanes(lambda s, a: s.fop('sin', a)), 'llvm.log2': lanes(lambda s, a: s.fop('log2', a)),
    'llvm.copysign': lanes(lambda s, a, b: fromterm(a.bits, concat([extract(a.bits - 1, a.bits - 1, b.t()), extract(a.bits - 2, 0, a.t())]))),
    'llvm.expect': lambda s, fr, I, st, a: a[0], 'llvm.is.constant': lambda s, fr, I, st, a: IV(1, 0),
    'llvm.objectsize': lambda s, fr, I, st, a: IV(I.ty.bits, -1), 'llvm.vector.reduce.add': _reduce('add'), 'llvm.vector.reduce.or': _reduce('or'), 'llvm.vector.reduce.and': _reduce('and'),
    'llvm.fshl': lanes(_fshl), 'llvm.fshr': lanes(_fshr), 'llvm.launder.invariant.group': lambda s, fr, I, st, a: a[0], 'llvm.strip.invariant.group': lambda s, fr, I, st, a: a[0],
    'llvm.eh.typeid.for': lambda s, fr, I, st, a: IV(32, 0), 'llvm.bswap': lanes(lambda s, a: s.join_bytes(list(reversed(s.split_bytes(a, a.bits // 8, 1))))),
    'llvm.maxnum': lanes(lambda s, a, b: s.fop('fmax', a, b)), 'llvm.minnum': lanes(lambda s, a, b: s.fop('fmin', a, b)),
}


# --- x86 vector intrinsics ------------------------------------------------
def x86lane(f): return lambda self, args, I: VV([f(self, x, y) for x, y in zip(args[0].l, args[1].l)])


def _psadbw(self, args, I):
    a, b = args[0].l, args[1].l
    out = []
    for blk in range(len(a) // 8):
        s = None
        for i in range(8):
            x, y = a[blk * 8 + i], b[blk * 8 + i]
            if y.c == 0: d = self.zext(x, 64)
            elif x.c == 0: d = self.zext(y, 64)
            else:
                x, y = self.zext(x, 16), self.zext(y, 16)
                d = self.ite(self.icmp('ult', x, y).t(), self.binop('sub', y, x, 0, 0, 0), self.binop('sub', x, y, 0, 0, 0))
                d = IV(16, d.c, d._t, lo=0, hi=255) if d.c is None else d
                d = self.zext(d, 64)
            s = d if s is None else self.binop('add', s, d, 0, 0, 0)
        if s.c is None: s = IV(64, sx=s.sx(), lo=0, hi=2040)
        out.append(s)
    return VV(out)


def _phminpos(self, args, I):
    l = args[0].l
    m, k = l[0], IV(16, 0)
    for i in range(1, 8):
        c = self.icmp('ult', l[i], m).t()
        m, k = self.ite(c, l[i], m), self.ite(c, IV(16, i), k)
    return VV([m, k] + [IV(16, 0)] * 6)


def _movmsk(self, args, I):
    l = args[0].l
    bits = [self.bits_extract(x, x.bits - 1, 1) for x in l]
    r = self.join_bits(bits)
    return self.zext(r, 32)


def _pack(nb, signed_out):
    def f(self, args, I):
        out = []
        for v in args[0].l + args[1].l:
            n = v.bits
            lo, hi = (smin(nb), smax(nb)) if signed_out else (0, (1 << nb) - 1)
            t = v.t()
            r = z3.If(t > z3.BitVecVal(hi, n), z3.BitVecVal(hi, nb), z3.If(t < z3.BitVecVal(lo, n), z3.BitVecVal(lo, nb), extract(nb - 1, 0, t)))
            out.append(fromterm(nb, z3.simplify(r)))
        return VV(out)
    return f


def _pmadd(self, args, I):
    a, b = args[0].l, args[1].l
    out = []
    for i in range(0, len(a), 2):
        p = self.binop('mul', self.sext(a[i], 32), self.sext(b[i], 32), 0, 0, 0)
        q = self.binop('mul', self.sext(a[i + 1], 32), self.sext(b[i + 1], 32), 0, 0, 0)
        out.append(self.binop('add', p, q, 0, 0, 0))
    return VV(out)


def _pmaddubs(self, args, I):
    a, b = args[0].l, args[1].l
    out = []
    for i in range(0, len(a), 2):
        s = []
        for j in (i, i + 1):
            s.append(z3.SignExt(2, z3.ZeroExt(8, a[j].t()) * z3.SignExt(8, b[j].t())))
        r = s[0] + s[1]
        out.append(fromterm(16, z3.If(r > 32767, z3.BitVecVal(32767, 16), z3.If(r < -32768, z3.BitVecVal(-32768, 16), extract(15, 0, r)))))
    return VV(out)


def _pshufb(self, args, I):
    a, m = args[0].l, args[1].l
    out = []
    for x in m:
        if x.c is None: raise Unsupported('pshufb dynamic')
        out.append(IV(8, 0) if x.c & 0x80 else a[x.c & 15])
    return VV(out)


def _phadd(self, args, I):
    r = []
    for v in args[:2]:
        for i in range(0, len(v.l), 2): r.append(self.binop('add', v.l[i], v.l[i + 1], 0, 0, 0))
    return VV(r)


def _shi(op):
    def f(self, args, I):
        n = args[0].l[0].bits
        c = args[1]
        if isinstance(c, VV):
            c = self.tobits(c); c = self.bits_extract(c, 0, 64)
        if c.c is None: raise Unsupported('dynamic shift')
        if c.c >= n:
            if op == 'ashr': return VV([self.binop('ashr', x, IV(n, n - 1), 0, 0, 0) for x in args[0].l])
            return VV([IV(n, 0) for _ in args[0].l])
        return VV([self.binop(op, x, IV(n, c.c), 0, 0, 0) for x in args[0].l])
    return f


def _ptest(kind):
    def f(self, args, I):
        a, b = self.tobits(args[0]), self.tobits(args[1])
        if kind == 'z': t = (a.t() & b.t()) == 0
        elif kind == 'c': t = (~a.t() & b.t()) == 0
        return self.zext(fromterm(1, t), 32)
    return f


def _pblendv(self, args, I):
    return VV([self.sel(self.bits_extract(m, m.bits - 1, 1), b, a) for a, b, m in zip(args[0].l, args[1].l, args[2].l)])


X86 = {'sse2.cvtsd2si': lambda self, args, I: cvt_round(self, args[0].l[0], 32), 'sse.cvtss2si': lambda self, args, I: cvt_round(self, args[0].l[0], 32), 'sse2.cvtsd2si64': lambda self, args, I: cvt_round(self, args[0].l[0], 64), 'sse41.phminposuw': _phminpos, 'sse2.psad.bw': _psadbw, 'avx2.psad.bw': _psadbw, 'sse2.pmovmskb.128': _movmsk, 'avx2.pmovmskb': _movmsk, 'sse.movmsk.ps': _movmsk, 'sse2.movmsk.pd': _movmsk,
       'sse2.packuswb.128': _pack(8, False), 'sse2.packsswb.128': _pack(8, True), 'sse2.packssdw.128': _pack(16, True), 'sse41.packusdw': _pack(16, False),
       'sse2.pmadd.wd': _pmadd, 'ssse3.pmadd.ub.sw.128': _pmaddubs, 'ssse3.pshuf.b.128': _pshufb, 'ssse3.phadd.w.128': _phadd, 'ssse3.phadd.d.128': _phadd,
       'sse2.pslli.d': _shi('shl'), 'sse2.psrli.d': _shi('lshr'), 'sse2.psrai.d': _shi('ashr'), 'sse2.pslli.w': _shi('shl'), 'sse2.psrli.w': _shi('lshr'), 'sse2.psrai.w': _shi('ashr'),
       'sse2.pslli.q': _shi('shl'), 'sse2.psrli.q': _shi('lshr'), 'sse41.ptestz': _ptest('z'), 'sse41.ptestc': _ptest('c'), 'sse41.pblendvb': _pblendv,
       'sse2.psra.d': _shi('ashr'), 'sse2.psrl.d': _shi('lshr'), 'sse2.psll.d': _shi('shl'),
       'sse2.pmulhu.w': x86lane(lambda s, a, b: fromterm(16, extract(31, 16, z3.ZeroExt(16, a.t()) * z3.ZeroExt(16, b.t())))),
       'sse2.pmulh.w': x86lane(lambda s, a, b: fromterm(16, extract(31, 16, z3.SignExt(16, a.t()) * z3.SignExt(16, b.t())))),
       'sse2.pavg.b': x86lane(lambda s, a, b: fromterm(8, extract(8, 1, z3.ZeroExt(1, a.t()) + z3.ZeroExt(1, b.t()) + 1))),
       }


# --------------------------------------------------- external library models
def alloc(self, fr, I, st, size, name, align):
    if size.c is not None: sz = Poly.const(size.c)
    else: sz = size.sx()
    nm = '%s' % name
    o = self.newobj(nm, sz, 'heap', align=align)
    if size.c is not None and size.c <= 65536: st.mem[o] = FieldState({}, 'undef')
    else: st.mem[o] = Node('base', None, 'uninit')
    st.freed[o] = FALSE
    fr.env[I.idx] = PV([(TRUE, o, P0)])
    return st


def x_new(self, fr, I, st, args, F): return alloc(self, fr, I, st, self.unpoison(st, args[0], I), 'heap', 16)


def x_newal(self, fr, I, st, args, F): return alloc(self, fr, I, st, args[0], 'heap', args[1].c or 16)


def x_aligned_alloc(self, fr, I, st, args, F):
    if args[0].c is None: raise Unsupported('aligned_alloc with symbolic alignment')
    return alloc(self, fr, I, st, args[1], 'heap', args[0].c)


def x_posix_memalign(self, fr, I, st, args, F):
    if args[1].c is None: raise Unsupported('posix_memalign with symbolic alignment')
    sz = args[2].sx()
    o = self.newobj('heap', sz, 'heap', align=args[1].c)
    st.mem[o] = FieldState({}, 'undef') if args[2].c is not None and args[2].c <= 65536 else Node('base', None, 'uninit')
    st.freed[o] = FALSE
    # may fail: returns nonzero and leaves *memptr untouched
    ok = self.fresh(1, 'memalign_ok')
    old = self.load(st, args[0], PTRT(self), I)
    self.store(st, args[0], self.ite(ok, PV([(TRUE, o, P0)]), old), PTRT(self), I)
    fr.env[I.idx] = IV(32, t=z3.If(ok, z3.BitVecVal(0, 32), z3.BitVecVal(12, 32)))
    return st


def x_free(self, fr, I, st, args, F):
    p = self.unpoison(st, args[0], I)
    for g, o, f in p.e:
        if o is None: continue
        if o.kind not in ('heap',):
            self.oblige(st, Not(g), 'free of a non-heap object', 'memory', I); continue
        fz = st.freed.get(o, FALSE)
        self.oblige(st, Implies(g, And(Not(fz), self.cmp64('eq', f, P0))), 'valid single free', 'memory', I)
        st.freed[o] = Or(fz, g)
    return st


def x_zero(bits):
    def f(self, fr, I, st, args, F):
        if I.ty.kind != 'void': fr.env[I.idx] = self.zero(I.ty)
        return st
    return f


def x_void(self, fr, I, st, args, F):
    if I.ty.kind != 'void': fr.env[I.idx] = args[0] if I.ty.kind == 'ptr' and args else self.undef(I.ty)
    return st


def x_one(self, fr, I, st, args, F):
    fr.env[I.idx] = IV(I.ty.bits, 1)
    return st


def x_fp1(op):
    def f(self, fr, I, st, args, F):
        fr.env[I.idx] = self.fop(op, args[0])
        return st
    return f


def x_fp2(op):
    def f(self, fr, I, st, args, F):
        fr.env[I.idx] = self.fop(op, args[0], args[1])
        return st
    return f


def x_iabs(self, fr, I, st, args, F):
    fr.env[I.idx] = _abs(self, args[0], IV(1, 1))
    return st


def x_memcpy(self, fr, I, st, args, F):
    self.memcpy(st, args[0], args[1], args[2], I); fr.env[I.idx] = args[0]
    return st


def x_memset(self, fr, I, st, args, F):
    self.memset(st, args[0], self.trunc(args[1], 8), args[2], I); fr.env[I.idx] = args[0]
    return st


def x_memcmp(self, fr, I, st, args, F):
    n = args[2]
    if n.c is None or n.c > 64: raise Unsupported('memcmp')
    t8 = INTT(self, 8)
    r = IV(32, 0)
    for i in reversed(range(n.c)):
        a = self.zext(self.load(st, args[0].add(Poly.const(i)), t8, I), 32); b = self.zext(self.load(st, args[1].add(Poly.const(i)), t8, I), 32)
        d = self.binop('sub', a, b, 0, 0, 0)
        r = self.ite(self.icmp('ne', a, b).t(), d, r)
    fr.env[I.idx] = r
    return st


def x_lrint(self, fr, I, st, args, F):
    fr.env[I.idx] = cvt_round(self, args[0], I.ty.bits)
    return st


def x_dynamic_cast(self, fr, I, st, args, F):
    """Itanium ABI run-time type search over the constant type information (public bases only)"""
    p = args[0]; PT = PTRT(self); I64 = INTT(self, 64)
    if p.single() is None: raise Unsupported('dynamic_cast of an undetermined pointer')
    dst = args[2].single()
    def ld(q, d, ty): return self.load(st, q.add(Poly.const(d)), ty, I)
    vp = ld(p, 0, PT)
    if vp.single() is None or dst is None: raise Unsupported('dynamic_cast: undetermined dynamic type')
    off = ld(vp, -16, I64)
    ti = ld(vp, -8, PT)
    top = p.add(Poly.const(off.c - (1 << 64) if off.c >> 63 else off.c))
    def find(ti, q):
        s = ti.single()
        if s is None or s[0] is None: raise Unsupported('dynamic_cast: type information')
        if s[0] is dst[0]: return q
        k = ld(ti, 0, PT).single()
        nm = k[0].name if k and k[0] is not None else ''
        if '__si_class_type_info' in nm: return find(ld(ti, 16, PT), q)
        if '__vmi_class_type_info' in nm:
            for i in range(ld(ti, 20, INTT(self, 32)).c):
                fl = ld(ti, 32 + 16 * i, I64).c
                o = (fl >> 8) | (-1 << 56 if fl >> 63 else 0)
                if fl & 1:
                    v = ld(ld(q, 0, PT), o, I64).c
                    o = v - (1 << 64) if v >> 63 else v
                r = find(ld(ti, 24 + 16 * i, PT), q.add(Poly.const(o)))
                if r is not None: return r
            return None
        if '__class_type_info' in nm: return None
        raise Unsupported('dynamic_cast: type information of ' + nm)
    r = find(ti, top)
    fr.env[I.idx] = r if r is not None else PV([(TRUE, None, P0)])
    return st


EXTERN = {
    '__dynamic_cast': x_dynamic_cast,
    '_Znwm': x_new, '_Znam': x_new, 'malloc': x_new, '_ZnwmSt11align_val_t': x_newal, '_ZnamSt11align_val_t': x_newal, 'aligned_alloc': x_aligned_alloc,
    'posix_memalign': x_posix_memalign, 'free': x_free, '_ZdlPv': x_free, '_ZdaPv': x_free, '_ZdlPvm': x_free, '_ZdaPvm': x_free, '_ZdlPvSt11align_val_t': x_free, '_ZdlPvmSt11align_val_t': x_free,
    'sqrt': x_fp1('sqrt'), 'sqrtf': x_fp1('sqrt'), 'fabs': x_fp1('fabs'), 'fabsf': x_fp1('fabs'), 'floor': x_fp1('floor'), 'floorf': x_fp1('floor'), 'ceil': x_fp1('ceil'), 'ceilf': x_fp1('ceil'),
    'round': x_fp1('round'), 'roundf': x_fp1('round'), 'exp': x_fp1('exp'), 'expf': x_fp1('exp'), 'log': x_fp1('log'), 'logf': x_fp1('log'), 'log2': x_fp1('log2'), 'log2f': x_fp1('log2'), 'pow': x_fp2('pow'), 'powf': x_fp2('pow'),
    'atan': x_fp1('atan'), 'atan2': x_fp2('atan2'), 'sin': x_fp1('sin'), 'cos': x_fp1('cos'), 'tan': x_fp1('tan'), 'fmax': x_fp2('fmax'), 'fmin': x_fp2('fmin'), 'fmod': x_fp2('fmod'), 'lrint': x_lrint, 'lrintf': x_lrint,
    'abs': x_iabs, 'labs': x_iabs, 'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'bcmp': x_memcmp,
    '__cxa_guard_acquire': x_one, '__cxa_guard_release': x_void, '__cxa_atexit': x_zero(32), '__cxa_thread_atexit': x_zero(32), '__cxa_guard_abort': x_void,
    'pthread_mutex_lock': x_zero(32), 'pthread_mutex_unlock': x_zero(32), '__cxa_pure_virtual': x_void,
}
EXTERN_RX = []


# ------------------------------------------------------- contract primitives
@mixin
def vc_call(self, fr, I, st, name, args):
    env = fr.env
    if name == 'vc_int':
        nm = self.input_name(args[0], st); bits = args[1].c; lo, hi = args[2], args[3]
        t = z3.BitVec('in_' + nm, 64)
        self.inputs[nm] = (64, t)
        a, b = lo.sx(), hi.sx()
        st.pc = st.pc + (And(a.term() <= t, t <= b.term()),) if not is_true(And(a.term() <= t, t <= b.term())) else st.pc
        env[I.idx] = IV(64, sx=Poly.atom(t), lo=lo.lo, hi=hi.hi)
        return st
    if name == 'vc_bits':
        nm = self.input_name(args[0], st); bits = args[1].c
        t = z3.BitVec('in_' + nm, bits)
        self.inputs[nm] = (bits, t)
        v = IV(bits, t=t)
        env[I.idx] = self.zext(v, 64)
        return st
    if name == 'vc_assume':
        c = self.truth(args[0])
        if c.c == 1: return st
        if c.c == 0: return None
        st.pc = st.pc + (c.t(),)
        return st
    if name == 'vc_assert':
        c = self.unpoison(st, self.truth(args[0]), I)
        self.oblige(st, c.t(), self.cstr(args[1]), 'assert', I)
        return st
    if name == 'vc_cover':
        self.covers.append((st.pc, self.cstr(args[0]), len(self.facts)))
        return st
    if name == 'vc_option':
        self.opts[self.cstr(args[0])] = args[1].c
        return st
    if name == 'vc_allow_throw':
        self.allow_throw = bool(args[0].c)
        return st
    if name == 'vc_fp_ieee':
        self.opts['fp'] = 'ieee' if args[0].c else 'uf'
        return st
    if name in ('vc_array', 'vc_array2d'):
        # (name, elemsize, count) / (name, elemsize, rows, rowelems, step_bytes)
        nm = self.input_name(args[0], st); es = args[1].c
        o = self.newobj(nm, None, 'sym', g=es, base=nm, align=64 if name == 'vc_array' else 16)
        if name == 'vc_array':
            o.size = args[2].sx().scale(es)
        else:
            o.rows = args[2].sx(); o.rowbytes = args[3].sx().scale(es)
            sp = args[4].sx()
            if sp.isconst():
                o.strides = None
                o.size = o.rows * sp
            else:
                if len(sp.m) != 1: raise Unsupported('stride must be a single symbol')
                (k, c), = sp.m.items()
                if len(k) != 1: raise Unsupported('stride must be a single symbol')
                o.strides = (k[0], sgn(c))
        st.mem[o] = Node('base', None, 'sym')
        env[I.idx] = PV([(TRUE, o, P0)])
        return st
    if name == 'vc_array3d':    # (name, elemsize, planes, rows, rowelems, step_bytes, plane_bytes); strides are symbols
        nm = self.input_name(args[0], st) if args[0].single()[0] is not None else None
        es = args[1].c
        o = self.newobj(nm or 'planes', None, 'sym' if nm else 'heap', g=es, base=nm, align=16)
        o.rows = args[3].sx(); o.rowbytes = args[4].sx().scale(es)
        ss = []
        for a in (args[5], args[6]):
            sp = a.sx()
            if len(sp.m) != 1 or len(next(iter(sp.m))) != 1: raise Unsupported('stride must be a single symbol')
            (k, c), = sp.m.items()
            ss.append((k[0], sgn(c)))
        if ss[0][0] == ss[1][0]: raise Unsupported('plane and row stride must be different symbols')
        o.strides = ss[0]; o.planes = ss[1] + (args[2].sx(),)
        st.mem[o] = Node('base', None, 'sym' if nm else 'uninit')
        if not nm: st.freed[o] = FALSE
        env[I.idx] = PV([(TRUE, o, P0)])
        return st
    if name == 'vc_fill_plane':  # (ptr to the start of a plane, value, elemsize)
        o, off = args[0].single()
        key = self.okey(o, off)
        if not o.planes or key[1].m or key[2].m: raise Unsupported('vc_fill_plane')
        st.mem[o] = Node('fillplane', self.to_node(o, self.objstate(st, o)), key[0], self.trunc(args[1], 8 * args[2].c) if args[2].c < 8 else args[1])
        return st
    if name == 'vc_records':    # (record size, count): read-only array of records, fields given by vc_record_*
        o = self.newobj('records', None, 'heap', g=1, align=16)
        o.size = args[1].sx().scale(args[0].c)
        st.mem[o] = RecState(args[0].c, {})
        env[I.idx] = PV([(TRUE, o, P0)])
        return st
    if name in ('vc_record_val', 'vc_record_ptr', 'vc_record_self'):
        o, _ = args[0].single()
        r = st.mem[o]; f = dict(r.f); off = args[1].c
        if name == 'vc_record_val': f[off] = (args[3].c, 'val', self.trunc(args[2], 8 * args[3].c) if args[3].c < 8 else args[2])   # (p, off, value, bytes)
        elif name == 'vc_record_self': f[off] = (8, 'self', args[2].c)                                                           # (p, off, delta)
        else:                                                                                                                      # (p, off, target, bytes per record)
            t, b = args[2].single()
            f[off] = (8, 'ptr', (t, b, args[3].sx()))
        st.mem[o] = RecState(r.size, f)
        return st
    if name == 'vc_elem_range':
        o, _ = args[0].single()
        o.constraint = (o.constraint[0] if o.constraint else None, o.constraint[1] if o.constraint else None, args[1].lo, args[2].lo, o.constraint[4] if o.constraint else None, o.constraint[5] if o.constraint else 0)
        return st
    if name == 'vc_elem_pred':
        o, _ = args[0].single()
        f, _ = args[1].single()
        o.constraint = (f.fn, args[2], o.constraint[2] if o.constraint else None, o.constraint[3] if o.constraint else None, st.copy(), args[3].c)
        return st
    if name == 'vc_new2d':      # uninitialised strided allocation: (elemsize, rows, rowelems, step)
        es = args[0].c
        o = self.newobj('mat', None, 'heap', g=es, align=16)
        o.rows = args[1].sx(); o.rowbytes = args[2].sx().scale(es)
        sp = args[3].sx()
        if sp.isconst():
            o.size = o.rows * sp
        else:
            if len(sp.m) != 1: raise Unsupported('stride must be a single symbol')
            (k, c), = sp.m.items()
            o.strides = (k[0], sgn(c))
        st.mem[o] = Node('base', None, 'uninit')
        st.freed[o] = FALSE
        env[I.idx] = PV([(TRUE, o, P0)])
        return st
    if name == 'vc_lemma':
        c = args[0].t() != 0 if args[0].bits > 1 else args[0].t()
        self.gfact(Implies(And(*st.pc), c) if self.ghost == 0 else c)
        return st
    if name == 'vc_fresh':      # fresh 64-bit value in a range: (lo, hi), not an input
        t = self.fresh(64, 'any')
        lo, hi = args[0], args[1]
        st.pc = st.pc + (And(lo.t() <= t, t <= hi.t()),)
        env[I.idx] = IV(64, sx=Poly.atom(t), lo=lo.lo, hi=hi.hi)
        return st
    if name == 'vc_symbol':     # a symbol standing for the value of an expression (strides must be symbols)
        sp = args[0].sx()
        if sp.isconst() or (len(sp.m) == 1 and len(next(iter(sp.m))) == 1):
            env[I.idx] = args[0]
            return st
        key = ('vc_symbol', frozenset(sp.m.items()))
        t = self.symmemo.get(key)
        if t is None:
            t = self.symmemo[key] = self.fresh(64, 'sym')
            self.gfact(t == sp.term(), t)
        env[I.idx] = IV(64, sx=Poly.atom(t), lo=args[0].lo, hi=args[0].hi)
        return st
    if name == 'vc_fresh_bits':
        env[I.idx] = self.zext(IV(args[0].c, t=self.fresh(args[0].c, 'any')), 64)
        return st
    if name == 'vc_havoc_obj':
        for g, o, f in args[0].e:
            if o is None: continue
            self.to_node(o, self.objstate(st, o), 1)
            self.nfresh += 1
            st.mem[o] = Node('base', None, 'havoc', self.nfresh)
        return st
    if name == 'vc_copy_obj':    # whole-object copy: (dst, src), same shape
        (do, df), (so, sf) = args[0].single(), args[1].single()
        sn = self.to_node(so, self.objstate(st, so))
        if do.g is None: do.g = so.g
        if (do.strides is None) != (so.strides is None) or df.m or sf.m: raise Unsupported('vc_copy_obj shape')
        st.mem[so] = sn
        st.mem[do] = Node('copyall', None, so, sn)
        return st
    if name == 'vc_fill_obj':    # (ptr, value, elemsize)
        o, f = args[0].single()
        st.mem[o] = Node('fill', None, self.trunc(args[1], 8 * args[2].c) if args[2].c < 8 else args[1])
        if o.g is None: o.g = args[2].c
        return st
    if name == 'vc_lazy_obj':    # (ptr, fn, ctx, elemsize): contents given by fn(ctx,row,col) over the current state
        o, f = args[0].single()
        fn, _ = args[1].single()
        if o.g is None: o.g = args[3].c
        if o.g != args[3].c: raise Unsupported('vc_lazy_obj element size %s of %s (%s)' % (args[3].c, o.name, o.g))
        st.mem[o] = Node('lazy', None, fn.fn, args[2], st.copy(), o.g)
        return st
    if name == 'vc_candidate':
        f, _ = args[0].single()
        self.cands.append((f.fn, args[1], self.cstr(args[2])))
        return st
    if name == 'vc_candidate_alt':
        self.n_alt += 1
        if self.use_alt:
            f, _ = args[0].single()
            self.cands.append((f.fn, args[1], self.cstr(args[2])))
        return st
    if name == 'vc_clear_candidates':
        self.cands = []
        return st
    if name == 'vc_replace':
        f, _ = args[1].single()
        self.replace.append((re.compile(self.cstr(args[0])), f.fn)); self.replcache = {}
        return st
    if name == 'vc_fold_def':   # (id, fn, ctx, init, rows, cols)
        f, _ = args[1].single()
        snap = st.copy()
        self.folds[args[0].c] = Fold(args[0].c, f.fn, args[2], args[3], args[4], args[5], snap)
        return st
    if name == 'vc_fold':       # (id, i, j)
        env[I.idx] = self.fold(self.folds[args[0].c], args[1].sx(), args[2].sx(), 1)
        return st
    if name == 'vc_throw':
        self.throw(st, 'library', I)
        return None
    if name == 'vc_is_vc':
        env[I.idx] = IV(32, 1)
        return st
    if name == 'vc_heap_of':
        r = None
        for o in st.mem:
            if o.kind == 'heap' and o.size is not None and o.size.isconst() and o.size == args[0].sx() and is_false(st.freed.get(o, FALSE)) and (r is None or o.id > r.id): r = o
        if r is None: raise Unsupported('no heap block of this size')
        env[I.idx] = PV([(TRUE, r, P0)])
        return st
    if name in ('vc_uf', 'vc_uf1', 'vc_uf2'):         # uninterpreted function of up to 3 64-bit args: (name, a, b, c)
        nm = self.cstr(args[0])
        f = self.uf('uf_' + nm, *([z3.BitVecSort(64)] * (len(args))))
        env[I.idx] = IV(64, sx=Poly.atom(f(*[a.sx().term() for a in args[1:]])))
        return st
    if name == 'vc_live_heap':
        # 1 iff some heap object allocated on this path is not freed
        r = FALSE
        for o in st.mem:
            if o.kind == 'heap': r = Or(r, Not(st.freed.get(o, FALSE)))
        env[I.idx] = self.zext(fromterm(1, r), 32)
        return st
    if name == 'vc_isalive':
        r = TRUE
        for g, o, f in args[0].e:
            if o is None: r = And(r, Not(g))
            elif o in st.freed: r = And(r, Implies(g, Not(st.freed[o])))
        env[I.idx] = self.zext(fromterm(1, r), 32)
        return st
    if name == 'vc_extent_ok':   # (ptr, nbytes): [ptr, ptr+n) inside one live object
        r = FALSE
        for g, o, f in args[0].e:
            if o is None or o.kind == 'func': continue
            r = Or(r, And(g, self.inbounds(o, f, args[1].sx()), Not(st.freed.get(o, FALSE))))
        env[I.idx] = self.zext(fromterm(1, r), 32)
        return st
    raise Unsupported('contract primitive ' + name)


@mixin
def truth(self, v):
    if v.bits == 1: return v
    return self.icmp('ne', v, IV(v.bits, 0))


@mixin
def fold(self, F, i, j, depth):
    t = F.uf(i.term(), j.term())
    key = (i, j)
    r = IV(64, t=t)
    if key not in F.seen and depth > 0:
        F.seen.add(key)
        # one unfolding:  S(i,j) = j==0 ? (i==0 ? init : S(i-1,cols)) : step(S(i,j-1), i, j-1)
        one = Poly.const(1)
        if j.isconst() and j.cval() == 0: jz = TRUE
        elif j.isconst(): jz = FALSE
        else: jz = j.term() == 0
        iz = z3.BoolVal(i.cval() == 0) if i.isconst() else i.term() == 0
        body = None
        if not is_false(jz):
            prev = self.fold(F, i - one, F.cols.sx(), 0)
            b0 = Ite(iz, F.init.t(), prev.t())
            body = b0
        if not is_true(jz):
            pj = j - one
            acc = self.fold(F, i, pj, 0)
            step = self.ghost_call(F.fn, [F.ctx, acc, IV(64, sx=i) if not i.isconst() else IV(64, i.cval()), IV(64, sx=pj) if not pj.isconst() else IV(64, pj.cval())], F.st)
            b1 = step.t()
            body = b1 if body is None else Ite(jz, body, b1)
        self.gfact(t == body, t)
    return r
