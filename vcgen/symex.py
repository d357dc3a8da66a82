"""Verification-condition generator: symbolic execution of LLVM IR with state
merging; loops are cut with inductive candidate invariants (see houdini.py)."""
import z3, heapq, subprocess, re, sys, itertools, math
import llvmc
from llvmc import Unsupported, Const, Instr, Function, line_of
from vals import *

sys.setrecursionlimit(20000)


class Obj:
    _n = 0
    __slots__ = ('id', 'name', 'size', 'kind', 'g', 'strides', 'rows', 'rowbytes', 'base', 'const', 'align', '_addr',
                 'constraint', 'init', 'fn', 'seq', 'planes')

    def __init__(self, name, size, kind, g=None, base=None, align=1):
        Obj._n += 1
        self.id = Obj._n; self.name = name; self.size = size; self.kind = kind; self.g = g
        self.strides = None; self.rows = self.rowbytes = None; self.base = base; self.const = False; self.planes = None
        self.align = align; self._addr = None; self.constraint = None; self.init = None; self.fn = None

    def __repr__(self): return '<%s#%d>' % (self.name, self.id)


class FieldState:
    """concrete-offset memory: {off: (nbytes, value)}"""
    __slots__ = ('f', 'default')

    def __init__(self, f, default): self.f = f; self.default = default


class RecState:
    """read-only array of records: {field offset: (nbytes, kind, payload)}"""
    __slots__ = ('size', 'f')

    def __init__(self, size, f): self.size = size; self.f = f


class Node:
    __slots__ = ('k', 'a', 'prev', 'memo', 'depth')

    def __init__(self, k, prev, *a):
        self.k = k; self.a = a; self.prev = prev; self.memo = {}
        self.depth = 0


class State:
    __slots__ = ('pc', 'mem', 'freed')

    def __init__(self, pc=(), mem=None, freed=None):
        self.pc = pc; self.mem = mem if mem is not None else {}; self.freed = freed if freed is not None else {}

    def copy(self): return State(self.pc, dict(self.mem), dict(self.freed))


class Edge:
    __slots__ = ('pred', 'succ', 'st', 'phis')

    def __init__(self, pred, succ, st, phis): self.pred, self.succ, self.st, self.phis = pred, succ, st, phis


class Frame:
    def __init__(self, fn, args, path):
        self.fn, self.args, self.path = fn, args, path
        self.env = {}
        self.rets = []
        self.conc = set()
        self.allocas = []


class Oblig:
    __slots__ = ('label', 'kind', 'pc', 'cond', 'n', 'loc', 'fn')

    def __init__(self, label, kind, pc, cond, n, loc, fn):
        self.label, self.kind, self.pc, self.cond, self.n, self.loc, self.fn = label, kind, pc, cond, n, loc, fn


class CandGroup:
    """candidate invariants of one loop"""
    def __init__(self, name):
        self.name = name
        self.cands = []      # [sel, desc, H formula, E formula, B formula, active]
        self.pcE = self.pcB = ()
        self.nE = self.nB = 0


class Fold:
    def __init__(self, id, fn, ctx, init, rows, cols, st):
        self.id, self.fn, self.ctx, self.init, self.rows, self.cols, self.st = id, fn, ctx, init, rows, cols, st
        self.uf = z3.Function('fold_%d' % id, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        self.seen = set()


class Executor:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = dict(fp='uf', overflow=1, unroll=0, maxunroll=4200, uninit=0)
        if opts: self.opts.update(opts)
        self.facts = []          # ordered: z3 terms or CandGroup
        self.gfacts = []
        self.partmap = {}
        self.gtrig = {}; self.canons = {}; self.dry = 0; self.innames = []; self.concloops = set(); self.loopcls = {}          # fact id -> the term it defines or constrains
        self.deffacts = []       # definitions of named terms; used in full queries only
        self.ctpops = {}
        self.gseen = set()
        self.obls = []
        self.groups = []
        self.elem_inv = {}
        self.nfresh = 0
        self.fresh_at = {}       # decl name -> creation index
        self.inputs = {}         # name -> (bits, term)
        self.reads = {}          # array name -> {key: (idx terms, value term, gbytes)}
        self.symmemo = {}
        self.ghost = 0
        self.stack = []
        self.globals = {}
        self.replace = []
        self.replcache = {}
        self.cands = []; self.use_alt = False; self.n_alt = 0
        self.folds = {}
        self.symloops = {}
        self.cmpcap = None
        self.loopctx = []
        self.throws = []
        self.allow_throw = False
        self.funcs_used = {}
        self.externs_used = {}
        self.demangled = None
        self.covers = []
        self.allocseq = {}
        self.leakobjs = []
        self.ufs = {}
        self.nloops = 0
        self.recording = True
        self.endpc = None
        self.funcobjs = {}
        self.sites = set()

    # ------------------------------------------------------------ utilities
    def fresh(self, bits, name='v'):
        self.nfresh += 1
        n = '%s!%d' % (name, self.nfresh)
        self.fresh_at[n] = self.nfresh
        return z3.Bool(n) if bits == 1 else z3.BitVec(n, bits)

    def uf(self, name, *sorts):
        f = self.ufs.get(name)
        if f is None:
            f = z3.Function(name, *sorts); self.ufs[name] = f
        return f

    def loc(self, I=None):
        fr = self.stack[-1] if self.stack else None
        s = line_of(I) if I is not None else '?'
        return s

    def fnname(self):
        # innermost function that is not a standard library / stub
        return self.stack[-1].fn.name if self.stack else '?'

    def pcand(self, pc): return And(*pc)

    def oblige(self, st, cond, label, kind, I=None):
        """prove cond on the current path, then assume it"""
        if is_true(cond): 
            if not self.ghost: self.sites.add((kind, label, self.loc(I)))
            return
        if self.ghost: return
        self.obls.append(Oblig(label, kind, st.pc, cond, len(self.facts), self.loc(I), self.fnname()))
        # proved obligations may be used later; user assertions only when marked as lemmas
        if kind != 'assert' or label.startswith('lemma'): self.facts.append(Implies(And(*st.pc), cond))

    def unpoison(self, st, v, I=None):
        if isinstance(v, IV):
            if v.p is not None:
                if self.opts['overflow']:
                    self.oblige(st, Not(v.p), 'no signed overflow', 'overflow', I)
                r = IV(v.bits, v.c, v._t, v._sx, v._zx, None, v.lo, v.hi, v.org)
                return r
        elif isinstance(v, PV):
            if v.p is not None:
                if self.opts['overflow']:
                    self.oblige(st, Not(v.p), 'no signed overflow', 'overflow', I)
                return PV(v.e)
        elif isinstance(v, VV): return VV([self.unpoison(st, x, I) for x in v.l])
        elif isinstance(v, AV): return AV([self.unpoison(st, x, I) for x in v.l])
        return v

    # ----------------------------------------------------------- constants
    def cval(self, c):
        k = c.k
        if k == 'int': return IV(c.ty.bits, c.v)
        if k == 'null': return NULL
        if k in ('undef', 'poison'): return self.undef(c.ty)
        if k == 'zero': return self.zero(c.ty)
        if k == 'agg':
            l = [self.cval(x) for x in c.v]
            return VV(l) if c.ty.kind == 'vec' else AV(l)
        if k == 'func': return PV([(TRUE, self.funcobj(c.v), P0)])
        if k == 'global': return PV([(TRUE, self.globobj(c.v), P0)])
        if k == 'expr':
            op, ops, x = c.v
            if op == 'gep':
                return self.gep(x, self.cval(ops[0]), [self.cval(o) for o in ops[1:]], None)
            if op in ('bitcast', 'addrspacecast'): return self.cval(ops[0])
            if op == 'ptrtoint':
                return self.ptrtoint(self.cval(ops[0]), c.ty.bits)
            if op == 'inttoptr': return self.inttoptr(self.cval(ops[0]))
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return self.binop(op, self.cval(ops[0]), self.cval(ops[1]), False, False, False)
            if op == 'trunc': return self.trunc(self.cval(ops[0]), c.ty.bits)
            if op == 'icmp': return self.icmp(x, self.cval(ops[0]), self.cval(ops[1]))
        raise Unsupported('constant %r' % c)

    def undef(self, ty):
        if ty.kind in ('int', 'float'): return IV(ty.bits, t=self.fresh(ty.bits, 'undef'))
        if ty.kind == 'ptr': return PV([(TRUE, None, Poly.atom(self.fresh(64, 'undefptr')))])
        if ty.kind == 'vec': return VV([self.undef(ty.elem) for _ in range(ty.n)])
        if ty.kind == 'array': return AV([self.undef(ty.elem) for _ in range(ty.n)])
        if ty.kind == 'struct': return AV([self.undef(e) for e in ty.elems])
        raise Unsupported('undef ' + ty.kind)

    def zero(self, ty):
        if ty.kind in ('int', 'float'): return IV(ty.bits, 0)
        if ty.kind == 'ptr': return NULL
        if ty.kind == 'vec': return VV([self.zero(ty.elem) for _ in range(ty.n)])
        if ty.kind == 'array': return AV([self.zero(ty.elem) for _ in range(ty.n)])
        if ty.kind == 'struct': return AV([self.zero(e) for e in ty.elems])
        raise Unsupported('zero ' + ty.kind)

    def funcobj(self, F):
        o = self.funcobjs.get(F.name)
        if o is None:
            o = Obj('@' + F.name, Poly.const(1), 'func'); o.fn = F
            self.funcobjs[F.name] = o
        return o

    def globobj(self, g):
        o = self.globals.get(g.name)
        if o is None:
            o = Obj('@' + g.name, Poly.const(g.ty.size), 'global', align=max(1, g.align)); o.const = g.const
            o.init = g
            self.globals[g.name] = o
        return o

    def objstate(self, st, o):
        s = st.mem.get(o)
        if s is None:
            if o.kind == 'global':
                g = o.init
                if g.init_ref and (g.const or self.opts.get('globals_init', 1)):
                    f = {}
                    self.flatten(self.mod.const(g.init_ref), g.ty, 0, f)
                    s = FieldState(f, 'zero')
                else:
                    s = FieldState({}, 'undef')
                st.mem[o] = s
            elif o.kind == 'func':
                raise Unsupported('memory access to function')
            else:
                raise Unsupported('object %r not in state' % o)
        return s

    def flatten(self, c, ty, off, f):
        if c.k in ('zero', 'undef', 'poison'): return
        if c.k == 'agg':
            if ty.kind == 'struct':
                for i, e in enumerate(ty.elems): self.flatten(c.v[i], e, off + ty.offs[i], f)
            else:
                for i in range(ty.n): self.flatten(c.v[i], ty.elem, off + i * ty.elem.size, f)
            return
        f[off] = (ty.ssize, self.cval(c))

    # ------------------------------------------------------------ pointers
    def addr(self, o):
        if o is None: return P0
        if o._addr is None:
            b = z3.BitVec('addr_%s_%d' % (re.sub(r'[^A-Za-z0-9_]', '_', o.name)[:40], o.id), 64)
            al = max(1, o.align)
            if al > 1:
                # aligned base: addr = al * q
                q = b
                o._addr = Poly.atom(q).scale(al)
                self.gfacts.append(z3.ULT(q, z3.BitVecVal((1 << 47) // al, 64)))
                self.gfacts.append(z3.UGT(q, z3.BitVecVal(0, 64)))
            else:
                o._addr = Poly.atom(b)
                self.gfacts.append(z3.ULT(b, z3.BitVecVal(1 << 47, 64)))
                self.gfacts.append(z3.UGT(b, z3.BitVecVal(0, 64)))
        return o._addr

    def ptrtoint(self, v, bits=64):
        if isinstance(v, IV): return v
        s = v.single()
        if s:
            r = fromsx(64, self.addr(s[0]) + s[1]); r.p = v.p
        else:
            t = None
            for g, o, f in reversed(v.e):
                x = (self.addr(o) + f).term()
                t = x if t is None else Ite(g, x, t)
            r = IV(64, t=t, p=v.p)
        if bits != 64: r = self.trunc(r, bits)
        return r

    def inttoptr(self, v):
        if isinstance(v, PV): return v
        if v.bits < 64: v = self.zext(v, 64)
        p = v.sx()
        # find an object whose address symbol occurs with the right coefficient
        for o in list(self.addrobjs()):
            a = o._addr
            (k, c), = [(k, c) for k, c in a.m.items()]
            if p.m.get(k, 0) == c:
                return PV([(TRUE, o, p - a)], v.p)
        return PV([(TRUE, None, p)], v.p)

    def addrobjs(self):
        return [o for o in self.allobjs if o._addr is not None]

    allobjs = None
    elem_inv = None
    arrs = ()

    def newobj(self, *a, **k):
        if self.allobjs is None: self.allobjs = []
        o = Obj(*a, **k)
        self.allobjs.append(o)
        return o

    def gep(self, ty, base, idx, I):
        if isinstance(base, VV): raise Unsupported('vector gep')
        if isinstance(base, IV): base = self.inttoptr(base)
        off = P0
        p = base.p
        first = True
        cur = ty
        for ix in idx:
            if isinstance(ix, VV): raise Unsupported('vector gep')
            if first:
                off = off + ix.peek_sx().scale(cur.size); first = False
            elif cur.kind == 'struct':
                off = off + Poly.const(cur.offs[ix.c]); cur = cur.elems[ix.c]
            else:
                off = off + ix.peek_sx().scale(cur.elem.size); cur = cur.elem
            p = por(p, ix.p)
        r = base.add(off)
        return PV(r.e, p)

    def merge_ptr(self, c, a, b):
        es = []
        for g, o, f in a.e: es.append([And(c, g), o, f])
        for g, o, f in b.e: es.append([And(Not(c), g), o, f])
        out = []
        for g, o, f in es:
            if is_false(g): continue
            for q in out:
                if q[1] is o:
                    if q[2] == f: q[0] = Or(q[0], g)
                    else:
                        q[2] = Poly.atom(Ite(q[0], q[2].term(), f.term())); q[0] = Or(q[0], g)
                    break
            else:
                out.append([g, o, f])
        p = por(None if a.p is None else And(c, a.p), None if b.p is None else And(Not(c), b.p))
        if len(out) == 1: return PV([(TRUE, out[0][1], out[0][2])], p)
        return PV([tuple(x) for x in out], p)

    def ite(self, c, a, b):
        if a is b: return a
        if is_true(c): return a
        if is_false(c): return b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, PV) or isinstance(b, PV):
            if isinstance(a, IV): a = self.inttoptr(a)
            if isinstance(b, IV): b = self.inttoptr(b)
            return self.merge_ptr(c, a, b)
        if isinstance(a, VV): return VV([self.ite(c, x, y) for x, y in zip(a.l, b.l)])
        if isinstance(a, AV): return AV([self.ite(c, x, y) for x, y in zip(a.l, b.l)])
        if a.bits != b.bits: raise Unsupported('ite width mismatch')
        p = None
        if a.p is not None or b.p is not None:
            p = Or(And(c, a.p) if a.p is not None else FALSE, And(Not(c), b.p) if b.p is not None else FALSE)
        if a.c is not None and a.c == b.c: return IV(a.bits, a.c, p=p)
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        if a.bits > 1 and (a.idx or b.idx) and (a.bits == 64 or (a.idx or a.c is not None) and (b.idx or b.c is not None)):
            sa, sb = a.peek_sx(), b.peek_sx()
            if sa == sb: return IV(a.bits, sx=sa, p=p, lo=lo, hi=hi)
            return IV(a.bits, sx=Poly.atom(Ite(c, sa.term(), sb.term())), p=p, lo=lo, hi=hi)
        if a.bits == 1:
            return fromterm(1, Ite(c, a.t(), b.t()), p=p)
        return IV(a.bits, t=(lambda a=a, b=b, c=c: Ite(c, a.t(), b.t())), lo=lo, hi=hi, p=p)

    # -------------------------------------------------------------- memory
    def split_bytes(self, v, n, g):
        """split integer value into n/g pieces of g bytes, little endian"""
        if isinstance(v, PV): v = self.ptrtoint(v)
        if v.bits == 1: v = self.zext(v, 8)
        bits = v.bits
        if bits != 8 * n:
            v = self.zext(v, 8 * n)
        if g == n: return [v]
        out = []
        for i in range(n // g):
            if v.c is not None: out.append(IV(8 * g, v.c >> (8 * g * i)))
            else:
                out.append(self.recall(8 * g, extract(8 * g * (i + 1) - 1, 8 * g * i, v.t()), v.p))
        return out

    def remember(self, parts):
        """parts of a packed value keep their index form when they are unpacked again"""
        for x in parts:
            if x.c is None and 8 < x.bits < 64 and x.idx:
                b = x.bv(); self.partmap[b.get_id()] = (b, x)

    def recall(self, bits, t, p):
        r = self.partmap.get(t.get_id())
        if r is not None and r[1].bits == bits:
            x = r[1]
            return IV(x.bits, x.c, x._t, x._sx, x._zx, p, x.lo, x.hi, x.org)
        return fromterm(bits, t, p=p)

    def join_bytes(self, parts):
        """little endian parts -> one IV"""
        if len(parts) == 1: return parts[0]
        if all(x.c is not None for x in parts):
            c = 0; s = 0
            for x in parts: c |= x.c << s; s += x.bits
            return IV(s, c)
        n = sum(x.bits for x in parts)
        self.remember(parts)
        return fromterm(n, concat([x.bv() for x in reversed(parts)]), p=por(*[x.p for x in parts]))

    def default_val(self, o, off, n, default):
        if default == 'zero': return IV(8 * n, 0)
        nm = 'uninit_%d_%s_%d' % (o.id, off, n)
        return IV(8 * n, t=z3.BitVec(nm, 8 * n))

    def field_load(self, o, fs, off, n):
        e = fs.f.get(off)
        if e is not None and e[0] == n: return e[1]
        over = sorted((k, m, v) for k, (m, v) in fs.f.items() if k < off + n and k + m > off) if fs.f else []
        if not over: return self.default_val(o, off, n, fs.default)
        parts = []
        cur = off
        for k, m, v in over:
            if isinstance(v, PV):
                v = self.ptrtoint(v)
            if k > cur:
                parts.append(self.default_val(o, cur, k - cur, fs.default)); cur = k
            lo = cur - k; hi = min(k + m, off + n) - k
            if v.bits == 1: v = self.zext(v, 8)
            if lo == 0 and hi == m: parts.append(v)
            elif v.c is not None: parts.append(IV(8 * (hi - lo), v.c >> (8 * lo)))
            else: parts.append(fromterm(8 * (hi - lo), extract(8 * hi - 1, 8 * lo, v.t()), p=v.p))
            cur = k + hi
        if cur < off + n: parts.append(self.default_val(o, cur, off + n - cur, fs.default))
        return self.join_bytes(parts)

    def field_store(self, fs, off, n, v, o=None):
        f = dict(fs.f)
        if off in f and f[off][0] == n:
            f[off] = (n, v); return FieldState(f, fs.default)
        for k, (m, w) in list(f.items()):
            if k < off + n and k + m > off:
                del f[k]
                if k < off or k + m > off + n:
                    bs = self.split_bytes(w, m, 1)
                    if k < off: f[k] = (off - k, self.join_bytes(bs[:off - k]))
                    if k + m > off + n: f[off + n] = (k + m - off - n, self.join_bytes(bs[off + n - k:]))
        f[off] = (n, v)
        return FieldState(f, fs.default)

    def to_node(self, o, s, g=None):
        if isinstance(s, Node): return s
        if isinstance(s, RecState): raise Unsupported('records as bytes')
        if o.g is None:
            sizes = [m for m, v in s.f.values()]
            gg = g or 1
            for m in sizes: gg = math.gcd(gg, m)
            for k in s.f: gg = math.gcd(gg, k)
            # pointers must stay whole
            o.g = gg
        gg = o.g
        n = Node('base', None, ('zero' if s.default == 'zero' else 'uninit'))
        for k in sorted(s.f):
            m, v = s.f[k]
            if isinstance(v, PV): n = Node('store', n, (Poly.const(k),), m, v); continue
            if m % gg == 0 and k % gg == 0:
                for i, b in enumerate(self.split_bytes(v, m, gg)): n = Node('store', n, (Poly.const(k + i * gg),), gg, b)
            else:
                for i, b in enumerate(self.split_bytes(v, m, 1)): n = Node('store', n, (Poly.const(k + i),), 1, b)
        return n

    def okey(self, o, off):
        """address key inside an object: (off,) or (row, col) for strided objects"""
        if not o.strides: return (off,)
        pl = ()
        if o.planes:
            Pq, off = self.divide_by(off, *o.planes[:2])
            pl = (Pq,)
        return pl + self.divide_by(off, *o.strides)

    def divide_by(self, off, aid, f):
        """quotient and remainder of an offset by a symbolic stride"""
        R = {}; Cc = {}
        for k, c in off.m.items():
            if aid in k:
                kk = list(k); kk.remove(aid); kk = tuple(kk)
                cs = sgn(c)
                if cs % f == 0:
                    x = (R.get(kk, 0) + cs // f) & M64
                    if x: R[kk] = x
                    else: R.pop(kk, None)
                    continue
            x = (Cc.get(k, 0) + c) & M64
            if x: Cc[k] = x
            else: Cc.pop(k, None)
        return (Poly(R), Poly(Cc))

    def inbounds(self, o, off, n):
        """z3 condition: [off, off+n) lies inside o (n: int or Poly)"""
        N = Poly.const(n) if isinstance(n, int) else n
        if o.strides:
            *Pq, R, Cc = self.okey(o, off)
            cp = And(*[And(self.cmp64('sle', P0, x), self.cmp64('slt', x, o.planes[2])) for x in Pq])
            c1 = self.cmp64('slt', R, o.rows)
            c0 = self.cmp64('sle', P0, R)
            c2 = self.cmp64('sle', P0, Cc)
            c3 = self.cmp64('sle', Cc + N, o.rowbytes)
            return And(cp, c0, c1, c2, c3)
        if o.size is None: return FALSE
        return And(self.cmp64('sle', P0, off), self.cmp64('sle', off + N, o.size))

    def cmp64(self, pred, a, b):
        if a.isconst() and b.isconst():
            x, y = a.cval(), b.cval()
            return z3.BoolVal({'slt': x < y, 'sle': x <= y, 'eq': x == y, 'ult': (x & M64) < (y & M64), 'ule': (x & M64) <= (y & M64)}[pred])
        if a == b: return z3.BoolVal(pred in ('sle', 'eq', 'ule'))
        if pred == 'eq':
            d = a - b
            if d.isconst(): return FALSE
            r = a.term() == b.term()
            self.scaled_eq(d, r)
            return r
        ta, tb = a.term(), b.term()
        return {'slt': lambda: ta < tb, 'sle': lambda: ta <= tb, 'eq': lambda: ta == tb,
                'ult': lambda: z3.ULT(ta, tb), 'ule': lambda: z3.ULE(ta, tb)}[pred]()

    def scaled_eq(self, d, r):
        """lemma for the index equality r: d == 0 where d = D*P + c: for |P| <= 2^40 nothing wraps, so it means P == -c/D (or false)"""
        c = 0; D = 0
        for m, k in d.m.items():
            if m == (): c = sgn(k)
            else: D = math.gcd(D, abs(sgn(k)))
        if D <= 1 or D >= 1 << 20 or abs(c) >= 1 << 60: return
        P = (d - Poly.const(c)).divexact(D)
        if P is None: return
        pt = P.term()
        L = z3.BitVecVal(1 << 40, 64)
        self.gfact(Implies(And(-L <= pt, pt <= L), r == (pt == z3.BitVecVal(-c // D, 64)) if c % D == 0 else Not(r)), r)

    def base_read(self, o, node, key, n):
        """read n bytes at key from the base contents of object o"""
        kind = node.a[0]
        if kind == 'zero': return IV(8 * n, 0)
        g = o.g or n
        lastoff = key[-1]
        m = lastoff.modconst(g)
        if m is not None and n % g == 0 and m == 0:
            parts = []
            for i in range(n // g):
                kk = key[:-1] + ((lastoff + Poly.const(i * g)).divexact(g),)
                parts.append(self.base_elem(o, node, kk, g))
            return self.join_bytes(parts)
        if m is not None and m + n <= g:
            kk = key[:-1] + ((lastoff - Poly.const(m)).divexact(g),)
            e = self.base_elem(o, node, kk, g)
            return fromterm(8 * n, extract(8 * (m + n) - 1, 8 * m, e.t()))
        if m is not None:
            parts = [self.base_read(o, node, key[:-1] + (lastoff + Poly.const(i),), 1) for i in range(n)]
            return self.join_bytes(parts)
        # unknown alignment: independent over-approximation by byte offset
        nm = self.base_name(o, node) + '_u%d' % n
        f = self.uf(nm, *([z3.BitVecSort(64)] * len(key) + [z3.BitVecSort(8 * n)]))
        return IV(8 * n, t=f(*[k.term() for k in key]))

    def base_name(self, o, node):
        kind = node.a[0]
        if kind == 'sym': return 'arr_' + o.base
        if kind == 'havoc': return 'havoc!%d' % node.a[1]
        return 'uninit_%d' % o.id

    def base_elem(self, o, node, key, g):
        mk = ('be', key)
        r = node.memo.get(mk)
        if r is not None: return r
        nm = self.base_name(o, node)
        f = self.uf(nm + '_%d' % g, *([z3.BitVecSort(64)] * len(key) + [z3.BitVecSort(8 * g)]))
        args = [k.term() for k in key]
        t = f(*args)
        r = IV(8 * g, t=t)
        if node.a[0] == 'sym':
            d = self.reads.setdefault(o.base, {})
            if t.get_id() not in d:
                d[t.get_id()] = (args, t, g)
            con = o.constraint
            if con is not None:
                fn, ctx, lo, hi = con[:4]
                if lo is not None:
                    r = IV(8 * g, t=t, lo=lo, hi=hi)
                    self.gfact(And(t >= z3.BitVecVal(lo, 8 * g) if lo < 0 else z3.UGE(t, z3.BitVecVal(lo, 8 * g)),
                                   t <= z3.BitVecVal(hi, 8 * g) if lo < 0 else z3.ULE(t, z3.BitVecVal(hi, 8 * g))), t)
                if fn is not None:
                    iv = lambda p: IV(64, p.cval()) if p.isconst() else IV(64, sx=p)
                    v = self.ghost_call(fn, [ctx, self.zext(r, 64) if r.bits < 64 else r, *self.elem_rc(key, con[5], iv)], con[4])
                    self.gfact(v.t() if v.bits == 1 else v.t() != 0, t)
        node.memo[mk] = r
        if node.a[0] == 'havoc':
            for inv in self.elem_inv.get(node.a[1], ()): self.elem_fact(inv, key, r)
        return r

    def elem_fact(self, inv, key, r):
        """instance of an invariant over all cells of an array, for one cell read"""
        hold, fn, ctx, args, st, g = inv
        if r.bits != 8 * g: return
        try: v = self.elem_eval(fn, ctx, key, r, args, st)
        except Unsupported: return
        self.gfact(z3.Implies(hold, v), r.t())

    def elem_eval(self, fn, ctx, key, r, args, st):
        iv = lambda p: IV(64, p.cval()) if p.isconst() else IV(64, sx=p)
        rc = self.elem_rc(key, 0, iv)
        v = self.ghost_call(fn, [ctx, self.zext(r, 64) if r.bits < 64 else r, *rc, *args], st)
        return v.t() if v.bits == 1 else v.t() != 0

    def elem_rc(self, key, stride, iv):
        """(row, column) of an element; arrays of records: (record, field)"""
        if len(key) >= 2: return tuple(iv(k) for k in key)
        if stride <= 1: return IV(64, 0), iv(key[0])
        m = key[0].modconst(stride)
        if m is None: raise Unsupported('record field of an element')
        return iv((key[0] - Poly.const(m)).divexact(stride)), IV(64, m)

    def gfact(self, t, trig=None):
        if is_true(t): return
        i = t.get_id()
        if i in self.gseen: return
        self.gseen.add(i)
        self.gfacts.append(t)
        if trig is not None: self.gtrig[i] = trig

    def relevant(self, asserts):
        """the global facts whose defined term occurs (transitively) in the query"""
        seen = set()

        def visit(t):
            wl = [t]
            while wl:
                x = wl.pop()
                i = x.get_id()
                if i in seen: continue
                ch = x.children()
                seen.add(i); wl.extend(ch)
                if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: seen.add(self.canon(x).get_id())
        for a in asserts: visit(a)
        out, rest = [], []
        for f in self.gfacts:
            tr = self.gtrig.get(f.get_id())
            if tr is None: out.append(f); visit(f)
            else: rest.append((tr.get_id(), self.canon(tr).get_id(), f))
        ch = True
        while ch:
            ch = False; nr = []
            for t, u, f in rest:
                if t in seen or u in seen: out.append(f); visit(f); ch = True
                else: nr.append((t, u, f))
            rest = nr
        return out

    def canon(self, x):
        r = self.canons.get(x.get_id())
        if r is None:
            r = (x, z3.simplify(x))
            self.canons[x.get_id()] = r
        return r[1]

    def keyeq(self, a, b):
        return And(*[self.cmp64('eq', x, y) for x, y in zip(a, b)])

    def node_load(self, o, node, key, n):
        """value (IV or PV) of n bytes at key"""
        mk = (key, n)
        # iterative walk to avoid deep recursion
        pend = []     # (cond, value) stack
        cur = node
        visited = []
        while True:
            r = cur.memo.get(mk)
            if r is not None: res = r; break
            k = cur.k
            if k == 'base':
                res = self.base_read(o, cur, key, n); cur.memo[mk] = res; break
            if k == 'ite':
                c, n1, n2 = cur.a
                v1 = self.node_load(o, n1, key, n); v2 = self.node_load(o, n2, key, n)
                res = self.ite(c, v1, v2); cur.memo[mk] = res; break
            if k == 'store':
                skey, sn, v = cur.a
                rd = [x - y for x, y in zip(key, skey)]
                if all(d.isconst() for d in rd[:-1]) and any(d.cval() != 0 for d in rd[:-1]):
                    visited.append(cur); cur = cur.prev; continue
                d = rd[-1]
                rowsame = all(x.isconst() for x in rd[:-1])
                if d.isconst() and rowsame:
                    c = d.cval()
                    if c == 0 and sn == n: res = v; cur.memo[mk] = res; break
                    if c >= sn or c + n <= 0: visited.append(cur); cur = cur.prev; continue
                    if n == 1:
                        bs = self.split_bytes(v, sn, 1); res = bs[c]; cur.memo[mk] = res; break
                    res = self.bytewise(o, cur, key, n); cur.memo[mk] = res; break
                if sn == n and d.modconst(n) == 0 or (sn == n and n == 1):
                    cond = self.keyeq(key, skey)
                    pend.append((cur, cond, v)); cur = cur.prev; continue
                mm = d.modconst(math.gcd(sn, n)) if sn != n else None
                if sn != n and mm == 0 and sn < n and n % sn == 0:
                    # wide load over narrow store
                    res = self.piecewise(o, cur, key, n, sn); cur.memo[mk] = res; break
                if sn != n and mm == 0 and n < sn:
                    # narrow load from a wide store: split store
                    bs = self.split_bytes(v, sn, n)
                    x = cur.prev
                    for i, b in enumerate(bs): x = Node('store', x, skey[:-1] + (skey[-1] + Poly.const(i * n),), n, b)
                    res = self.node_load(o, x, key, n); cur.memo[mk] = res; break
                if n == 1:
                    bs = self.split_bytes(v, sn, 1)
                    x = cur.prev
                    for i, b in enumerate(bs): x = Node('store', x, skey[:-1] + (skey[-1] + Poly.const(i),), 1, b)
                    res = self.node_load(o, x, key, 1); cur.memo[mk] = res; break
                res = self.bytewise(o, cur, key, n); cur.memo[mk] = res; break
            if k == 'set':
                lo, ln, b = cur.a
                if len(key) == 2 and (key[0] - lo[0]).isconst() and (key[0] - lo[0]).cval() != 0:
                    visited.append(cur); cur = cur.prev; continue
                inr = And(self.cmp64('sle', lo[-1], key[-1]), self.cmp64('slt', key[-1], lo[-1] + ln),
                          *[self.cmp64('eq', x, y) for x, y in zip(key[:-1], lo[:-1])])
                if is_false(inr): visited.append(cur); cur = cur.prev; continue
                v = self.join_bytes([b] * n)
                pend.append((cur, inr, v)); cur = cur.prev; continue
            if k == 'fillplane':
                c = self.cmp64('eq', key[0], cur.a[0])
                if is_false(c): visited.append(cur); cur = cur.prev; continue
                v = cur.a[1]
                if v.bits != 8 * n: raise Unsupported('fill read of another size')
                pend.append((cur, c, v)); cur = cur.prev; continue
            if k == 'fill':     # whole object
                v = cur.a[0]
                if v.bits == 8 * n: res = v
                else:
                    reps = v.bits // 8
                    m = key[-1].modconst(reps)
                    if m is None: raise Unsupported('misaligned fill read')
                    bs = self.split_bytes(v, reps, 1)
                    res = self.join_bytes([bs[(m + i) % reps] for i in range(n)])
                cur.memo[mk] = res; break
            if k == 'copy':
                lo, ln, so, snode, slo = cur.a
                inr = And(self.cmp64('sle', lo[-1], key[-1]), self.cmp64('slt', key[-1], lo[-1] + ln),
                          *[self.cmp64('eq', x, y) for x, y in zip(key[:-1], lo[:-1])])
                if is_false(inr): visited.append(cur); cur = cur.prev; continue
                soff = slo[-1] + (key[-1] - lo[-1])
                skey = slo[:-1] + (soff,)
                if isinstance(snode, FieldState): snode = self.to_node(so, snode, n)
                v = self.node_load(so, snode, skey, n)
                pend.append((cur, inr, v)); cur = cur.prev; continue
            if k == 'copyall':   # whole-object copy of same shape
                so, snode = cur.a
                res = self.node_load(so, snode, key, n); cur.memo[mk] = res; break
            if k == 'lazy':      # contents defined cell by cell by a specification function over an earlier state
                fn, ctx, snap, g = cur.a
                m = key[-1].modconst(g)
                if m is None or (m and m + n > g) or (not m and n % g and n > g): raise Unsupported('misaligned read of a defined object')
                def cell(off):
                    mk2 = ('cell', key[:-1], off)
                    if mk2 not in cur.memo:
                        col = off.divexact(g); row = key[0] if len(key) == 2 else P0
                        iv = lambda p: IV(64, p.cval()) if p.isconst() else IV(64, sx=p)
                        v = self.ghost_call(fn, [ctx, iv(row), iv(col)], snap)
                        cur.memo[mk2] = self.trunc(v, 8 * g) if g < 8 else v
                    return cur.memo[mk2]
                if n >= g: res = self.join_bytes([cell(key[-1] + Poly.const(i * g)) for i in range(n // g)])
                else: res = self.split_bytes(cell(key[-1] - Poly.const(m)), g, 1)[m:m + n]; res = self.join_bytes(res)
                cur.memo[mk] = res; break
            raise Unsupported('memory node ' + k)
        for nd, cond, v in reversed(pend):
            if isinstance(v, IV) and isinstance(res, IV) and v.bits != res.bits: raise Unsupported('size mix')
            res = self.ite(cond, v, res)
            nd.memo[mk] = res
        for nd in visited: nd.memo.setdefault(mk, res if not pend else None) if not pend else None
        return res

    def bytewise(self, o, node, key, n):
        return self.join_bytes([self.node_load(o, node, key[:-1] + (key[-1] + Poly.const(i),), 1) for i in range(n)])

    def piecewise(self, o, node, key, n, g):
        return self.join_bytes([self.asint(self.node_load(o, node, key[:-1] + (key[-1] + Poly.const(i * g),), g)) for i in range(n // g)])

    def asint(self, v):
        return self.ptrtoint(v) if isinstance(v, PV) else v

    def rec_load(self, o, s, off, n):
        f = off.modconst(s.size)
        if f is None: raise Unsupported('record field of an element')
        x = s.f.get(f)
        if x is None or x[0] != n: raise Unsupported('field %d of a record (%d bytes)' % (f, n))
        if x[1] == 'val': return x[2]
        i = (off - Poly.const(f)).divexact(s.size)
        if x[1] == 'self': return PV([(TRUE, o, i.scale(s.size) + Poly.const(x[2]))])
        tgt, base, scale = x[2]
        return PV([(TRUE, tgt, base + i * scale)])

    def raw_load(self, st, o, off, n):
        s = self.objstate(st, o)
        if isinstance(s, RecState): return self.rec_load(o, s, off, n)
        if isinstance(s, FieldState):
            if off.isconst(): return self.field_load(o, s, off.cval(), n)
            s = self.to_node(o, s, n)
            st.mem[o] = s
        return self.node_load(o, s, self.okey(o, off), n)

    def check_access(self, st, o, off, n, g, I, what):
        if self.ghost: return
        if o is None:
            self.oblige(st, Not(g), 'no %s through a null or foreign pointer' % what, 'memory', I); return
        if o.kind == 'func':
            self.oblige(st, Not(g), 'no %s of code' % what, 'memory', I); return
        fz = st.freed.get(o)
        if fz is not None and not is_false(fz):
            self.oblige(st, Implies(g, Not(fz)), '%s of freed memory' % what, 'memory', I)
        c = self.inbounds(o, off, n)
        if what == 'store' and o.const: c = FALSE
        self.oblige(st, Implies(g, c), '%s in bounds of %s' % (what, self.objdesc(o)), 'memory', I)

    def objdesc(self, o):
        return re.sub(r'#\d+$', '', o.name)

    def load(self, st, ptr, ty, I=None):
        if isinstance(ptr, IV): ptr = self.inttoptr(ptr)
        ptr = self.unpoison(st, ptr, I)
        k = ty.kind
        if k == 'vec':
            es = ty.elem.ssize
            return VV([self.load_scalar(st, ptr.add(Poly.const(i * es)), ty.elem, I, i == 0, es * ty.n) for i in range(ty.n)])
        if k == 'array':
            return AV([self.load(st, ptr.add(Poly.const(i * ty.elem.size)), ty.elem, I) for i in range(ty.n)])
        if k == 'struct':
            return AV([self.load(st, ptr.add(Poly.const(ty.offs[i])), e, I) for i, e in enumerate(ty.elems)])
        return self.load_scalar(st, ptr, ty, I, True, ty.ssize)

    def offcases(self, st, ptr):
        """split an offset into a record that is a choice between constants"""
        if all(off.isconst() for g, o, off in ptr.e): return ptr.e
        out = []
        for g, o, off in ptr.e:
            cs = None
            if o is not None and o.kind != 'func' and not off.isconst() and isinstance(self.objstate(st, o), FieldState):
                ks = [k for k in off.m if k]
                if len(ks) == 1 and len(ks[0]) == 1:
                    cs = []
                    todo = [(TRUE, ATOMS[ks[0][0]], None)]
                    while todo and cs is not None:
                        q, t, ext = todo.pop()
                        kd = t.decl().kind() if z3.is_app(t) else None
                        if z3.is_bv_value(t): cs.append((q, z3.simplify(ext(t)).as_long() if ext else t.as_long()))
                        elif kd == z3.Z3_OP_ITE: todo += [(And(q, t.arg(0)), t.arg(1), ext), (And(q, Not(t.arg(0))), t.arg(2), ext)]
                        elif kd in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and ext is None and t.size() == 64:
                            d = 64 - t.arg(0).size()
                            todo.append((q, t.arg(0), (lambda x, d=d: z3.SignExt(d, x)) if kd == z3.Z3_OP_SIGN_EXT else (lambda x, d=d: z3.ZeroExt(d, x))))
                        else: cs = None
                        if cs is not None and len(cs) + len(todo) > 8: cs = None
            if cs:
                c0, m0 = off.m.get((), 0), off.m[ks[0]]
                for q, v in cs: out.append((And(g, q), o, Poly.const(c0 + m0 * v)))
            else: out.append((g, o, off))
        return out

    def load_scalar(self, st, ptr, ty, I, check, chkn):
        n = ty.ssize
        vals = []
        for g, o, off in self.offcases(st, ptr):
            if check: self.check_access(st, o, off, chkn, g, I, 'load')
            if o is None or o.kind == 'func':
                if self.ghost: raise Unsupported('ghost load through null')
                vals.append((g, self.undef(ty))); continue
            v = self.raw_load(st, o, off, n)
            if ty.kind == 'ptr':
                if isinstance(v, IV): v = self.inttoptr(v)
            elif isinstance(v, PV): v = self.ptrtoint(v, 8 * n)
            if isinstance(v, IV) and v.bits != ty.bits:
                if v.bits > ty.bits: v = self.trunc(v, ty.bits)
                else: v = self.zext(v, ty.bits)
            vals.append((g, v))
        r = vals[-1][1]
        for g, v in reversed(vals[:-1]): r = self.ite(g, v, r)
        return r

    def store(self, st, ptr, v, ty, I=None):
        if isinstance(ptr, IV): ptr = self.inttoptr(ptr)
        ptr = self.unpoison(st, ptr, I)
        k = ty.kind
        if k == 'vec':
            es = ty.elem.ssize
            for i in range(ty.n): self.store_scalar(st, ptr.add(Poly.const(i * es)), v.l[i], ty.elem, I, i == 0, es * ty.n)
            return
        if k == 'array':
            for i in range(ty.n): self.store(st, ptr.add(Poly.const(i * ty.elem.size)), v.l[i], ty.elem, I)
            return
        if k == 'struct':
            for i, e in enumerate(ty.elems): self.store(st, ptr.add(Poly.const(ty.offs[i])), v.l[i], e, I)
            return
        self.store_scalar(st, ptr, v, ty, I, True, ty.ssize)

    def store_scalar(self, st, ptr, v, ty, I, check, chkn):
        v = self.unpoison(st, v, I)
        n = ty.ssize
        if isinstance(v, IV) and v.bits != 8 * n: v = self.zext(v, 8 * n)
        for g, o, off in self.offcases(st, ptr):
            if check: self.check_access(st, o, off, chkn, g, I, 'store')
            if o is None or o.kind == 'func': continue
            self.raw_store(st, o, off, n, v, g)

    def raw_store(self, st, o, off, n, v, g=TRUE):
        s = self.objstate(st, o)
        if isinstance(s, RecState): raise Unsupported('store to a read-only record')
        if isinstance(s, FieldState):
            if off.isconst():
                off = off.cval()
                if not is_true(g):
                    old = self.field_load(o, s, off, n)
                    v = self.ite(g, v, old)
                st.mem[o] = self.field_store(s, off, n, v)
                return
            s = self.to_node(o, s, n)
        key = self.okey(o, off)
        if o.g is None: o.g = n
        if not is_true(g):
            v = self.ite(g, v, self.node_load(o, s, key, n))
        st.mem[o] = Node('store', s, key, n, v)

    # ------------------------------------------------------- state merging
    def merge_states(self, sts):
        """returns merged state and guards (guard i: came from state i)"""
        if len(sts) == 1: return sts[0], [TRUE]
        pcs = [s.pc for s in sts]
        n = min(map(len, pcs))
        pre = 0
        p0 = pcs[0]
        while pre < n and all(p[pre] is p0[pre] or p[pre].eq(p0[pre]) for p in pcs[1:]): pre += 1
        rests = [p[pre:] for p in pcs]
        guards = [And(*r) for r in rests]
        # reduce disjunction
        work = [tuple(r) for r in rests]
        ch = True
        while ch:
            ch = False
            for i in range(len(work)):
                for j in range(i + 1, len(work)):
                    a, b = work[i], work[j]
                    if len(a) == len(b) and len(a) > 0 and all(x.eq(y) for x, y in zip(a[:-1], b[:-1])) and a[-1].eq(Not(b[-1])):
                        work[i] = a[:-1]; del work[j]; ch = True; break
                if ch: break
        if any(len(w) == 0 for w in work): pc = p0[:pre]
        elif len(work) == 1: pc = p0[:pre] + work[0]
        else: pc = p0[:pre] + (Or(*[And(*w) for w in work]),)
        st = State(pc)
        objs = {}
        for s in sts:
            for o in s.mem: objs[o] = 1
        for o in objs:
            xs = [s.mem.get(o) for s in sts]
            if o.kind == 'global' and any(x is None for x in xs):
                xs = [x if x is not None else self.objstate(s, o) for x, s in zip(xs, sts)]
            pres = [(g, x) for g, x in zip(guards, xs) if x is not None]
            r = pres[-1][1]
            if all(x is r for _, x in pres): st.mem[o] = r; continue
            for g, x in reversed(pres[:-1]): r = self.merge_obj(o, g, x, r)
            st.mem[o] = r
        fo = {}
        for s in sts:
            for o in s.freed: fo[o] = 1
        for o in fo:
            xs = [s.freed.get(o, FALSE) for s in sts]
            r = xs[-1]
            for g, x in reversed(list(zip(guards[:-1], xs[:-1]))): r = Ite(g, x, r)
            st.freed[o] = r
        return st, guards

    def merge_obj(self, o, g, a, b):
        if a is b: return a
        if isinstance(a, FieldState) and isinstance(b, FieldState):
            fa, fb = a.f, b.f
            keys = set(fa) | set(fb)
            f = {}
            # detect shape conflicts
            spans = {}
            for k in keys:
                m = fa.get(k, (0,))[0]; m2 = fb.get(k, (0,))[0]
                spans[k] = max(m, m2)
            ks = sorted(keys)
            i = 0
            while i < len(ks):
                k = ks[i]; end = k + spans[k]; j = i + 1
                grp = [k]
                while j < len(ks) and ks[j] < end:
                    end = max(end, ks[j] + spans[ks[j]]); grp.append(ks[j]); j += 1
                same = len(grp) == 1 and (k not in fa or k not in fb or fa[k][0] == fb[k][0])
                if same:
                    n = spans[k]
                    va = fa[k][1] if k in fa else (UNDEF if a.default != 'zero' else IV(8 * n, 0))
                    vb = fb[k][1] if k in fb else (UNDEF if b.default != 'zero' else IV(8 * n, 0))
                    if va is UNDEF and isinstance(vb, IV): va = self.default_val(o, k, n, a.default)
                    if vb is UNDEF and isinstance(va, IV): vb = self.default_val(o, k, n, b.default)
                    f[k] = (n, self.ite(g, va, vb))
                else:
                    for x in range(k, end):
                        va = self.field_load(o, a, x, 1); vb = self.field_load(o, b, x, 1)
                        f[x] = (1, self.ite(g, va, vb))
                i = j
            return FieldState(f, a.default)
        a = self.to_node(o, a); b = self.to_node(o, b)
        return Node('ite', None, g, a, b)

    # ------------------------------------------------------------ CFG walk
    def val(self, fr, x):
        if isinstance(x, Instr):
            return fr.env[x.idx]
        if isinstance(x, Const): return self.cval(x)
        return fr.args[x[1]]

    def mkedge(self, fr, b, s, st):
        phis = []
        for I in s.ins:
            if I.op != 'phi': break
            for v, pb in zip(I.ops, I.x):
                if pb is b:
                    phis.append(self.val(fr, v)); break
        return Edge(b, s, st, phis)

    def call_function(self, F, args, st, I=None):
        if len(self.stack) > 150: raise Unsupported('call depth')
        path = (self.stack[-1].path if self.stack else ()) + ((I.ref if I is not None else F.name),)
        fr = Frame(F, args, path)
        F.blocks
        if not self.ghost: self.funcs_used[F.name] = self.funcs_used.get(F.name, 0) + 1
        self.stack.append(fr)
        try:
            self.exec_region(fr, None, F.rpo[0], [Edge(None, F.rpo[0], st, [])], None)
        finally:
            self.stack.pop()
        if not fr.rets: return None, None
        sts = [s for s, _ in fr.rets]
        m, gs = self.merge_states(sts)
        v = fr.rets[-1][1]
        if v is not None:
            for g, (_, x) in reversed(list(zip(gs[:-1], fr.rets[:-1]))): v = self.ite(g, x, v)
        if m is sts[0]: m = m.copy()
        for o in fr.allocas: m.mem.pop(o, None)
        return m, v

    def exec_region(self, fr, blocks, start, edges, own):
        F = fr.fn
        pend = {start.idx: list(edges)}
        outs = []
        heap = [start.rpo]
        while heap:
            b = F.rpo[heapq.heappop(heap)]
            eds = pend.pop(b.idx, None)
            if not eds: continue
            if b.idx in F.loops and b is not own: res = self.exec_loop(fr, b, eds)
            else: res = self.exec_block(fr, b, eds)
            for e in res:
                s = e.succ
                if blocks is not None and (s.idx not in blocks or s is own): outs.append(e)
                else:
                    if s.idx not in pend: pend[s.idx] = []; heapq.heappush(heap, s.rpo)
                    pend[s.idx].append(e)
        return outs

    def enter(self, fr, b, eds):
        """merge incoming edges, set phis; returns state"""
        st, gs = self.merge_states([e.st for e in eds])
        st = st.copy()
        if any(I.op == 'phi' for I in b.ins[:1]):
            i = 0
            for I in b.ins:
                if I.op != 'phi': break
                v = eds[-1].phis[i]
                for g, e in reversed(list(zip(gs[:-1], eds[:-1]))): v = self.ite(g, e.phis[i], v)
                fr.env[I.idx] = v
                i += 1
        return st

    def exec_block(self, fr, b, eds):
        st = self.enter(fr, b, eds)
        for I in b.ins:
            op = I.op
            if op == 'phi': continue
            if op == 'br':
                if not I.ops: return [self.mkedge(fr, b, b.succs[0], st)]
                c = self.unpoison(st, self.val(fr, I.ops[0]), I)
                if c.c is None and not z3.is_const(c.t()):
                    t = self.simpb(c.t())
                    c = fromterm(1, t)
                if c.c is not None:
                    fr.conc.add(b.idx)
                    return [self.mkedge(fr, b, b.succs[0] if c.c else b.succs[1], st)]
                if b.succs[0] is b.succs[1]: return [self.mkedge(fr, b, b.succs[0], st)]
                t = c.t()
                # implied by path condition?
                for l in st.pc:
                    if l.eq(t): fr.conc.add(b.idx); return [self.mkedge(fr, b, b.succs[0], st)]
                    if l.eq(Not(t)): fr.conc.add(b.idx); return [self.mkedge(fr, b, b.succs[1], st)]
                s2 = st.copy()
                st.pc = st.pc + (t,); s2.pc = s2.pc + (Not(t),)
                return [self.mkedge(fr, b, b.succs[0], st), self.mkedge(fr, b, b.succs[1], s2)]
            if op == 'switch':
                v = self.unpoison(st, self.val(fr, I.ops[0]), I)
                dflt, cases = I.x
                if v.c is not None:
                    fr.conc.add(b.idx)
                    for cv, blk in cases:
                        if cv.v == v.c: return [self.mkedge(fr, b, blk, st)]
                    return [self.mkedge(fr, b, dflt, st)]
                outs = {}
                neg = []
                for cv, blk in cases:
                    c = self.icmp('eq', v, IV(v.bits, cv.v))
                    if c.c == 0: continue
                    outs.setdefault(blk.idx, [blk, []])[1].append(c.t())
                    neg.append(c.t())
                res = []
                for blk, cs in outs.values():
                    if blk is dflt: continue
                    s2 = st.copy(); s2.pc = s2.pc + (Or(*cs),)
                    res.append(self.mkedge(fr, b, blk, s2))
                s2 = st.copy()
                if dflt.idx in outs:
                    dn = outs[dflt.idx][1]
                    s2.pc = s2.pc + (Or(And(*[Not(x) for x in neg]), *dn),)
                else:
                    s2.pc = s2.pc + tuple(Not(x) for x in neg)
                res.append(self.mkedge(fr, b, dflt, s2))
                return res
            if op == 'ret':
                v = self.val(fr, I.ops[0]) if I.ops else None
                fr.rets.append((st, v))
                return []
            if op == 'unreachable':
                if not self.ghost and not self.opts.get('allow_unreachable'):
                    self.oblige(st, FALSE, 'unreachable code is not reached', 'unreachable', I)
                return []
            if op == 'resume': return []
            if op in ('call', 'invoke'):
                st2 = self.do_call(fr, I, st)
                if st2 is None: return []
                st = st2
                if op == 'invoke': return [self.mkedge(fr, b, b.succs[0], st)]
                continue
            self.exec_instr(fr, I, st)
        raise Unsupported('block without terminator')

    def simpb(self, t):
        return z3.simplify(t)

    # ----------------------------------------------------------------- loops
    def exec_loop(self, fr, H, edges):
        key = (fr.path, H.idx)
        loop = fr.fn.loops[H.idx]
        if key not in self.symloops:
            if not self.dry and key not in self.concloops and any(i in fr.fn.loops and i != H.idx for i in loop):
                # a loop nest: see whether the outer loop can be unrolled before working on the inner ones
                snap = self.snapshot()
                self.dry += 1
                try: r = self.try_unroll(fr, H, loop, edges, True)
                finally: self.dry -= 1
                self.rollback(snap)
                if r is None: self.symloops[key] = 1; return self.cut_loop(fr, H, loop, edges)
                self.concloops.add(key)
            r = self.try_unroll(fr, H, loop, edges)
            if r is not None: return r
            self.symloops[key] = 1
        return self.cut_loop(fr, H, loop, edges)

    def snapshot(self):
        return (len(self.facts), len(self.obls), len(self.groups), len(self.throws), len(self.covers), len(fr_rets_of(self)), len(self.innames))

    def rollback(self, s):
        del self.facts[s[0]:]; del self.obls[s[1]:]; del self.groups[s[2]:]; del self.throws[s[3]:]; del self.covers[s[4]:]
        del self.stack[-1].rets[s[5]:]; del self.innames[s[6]:]

    def try_unroll(self, fr, H, loop, edges, probe=False):
        snap = self.snapshot()
        cur = edges
        outs = []
        F = fr.fn
        exiting = [i for i in loop if any(s.idx not in loop for s in next(b for b in F.rpo if b.idx == i).succs)]
        forced = self.opts['unroll']
        it = 0
        while True:
            for i in exiting: fr.conc.discard(i)
            res = self.exec_region(fr, loop, H, cur, H)
            backs = [e for e in res if e.succ is H]
            outs += [e for e in res if e.succ is not H]
            if not backs: return outs
            it += 1
            if not any(i in fr.conc for i in exiting):
                if forced and it <= forced:
                    backs = [e for e in backs if self.feasible(e.st)]
                    if not backs: return outs
                else:
                    if forced:
                        for e in backs: self.oblige(e.st, FALSE, 'loop bound %d suffices' % forced, 'unwind')
                        return outs
                    self.rollback(snap)
                    return None
            if probe: return outs
            if it > self.opts['maxunroll'] or len(outs) > 96: self.rollback(snap); return None
            cur = backs

    def feasible(self, st):
        s = z3.Solver(); s.set('timeout', 3000)
        for f in self.gfacts + self.deffacts: s.add(f)
        for f in self.facts:
            if not isinstance(f, CandGroup): s.add(f)
        s.add(*st.pc)
        return s.check() != z3.unsat

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, IV) and isinstance(b, IV):
            if a.c is not None or b.c is not None: return a.c == b.c
            if a.bits != b.bits: return False
            if a.idx and b.idx: return a.peek_sx() == b.peek_sx()
            return a.t().eq(b.t())
        if isinstance(a, PV) and isinstance(b, PV):
            return len(a.e) == len(b.e) and all(x[1] is y[1] and x[2] == y[2] and (is_true(x[0]) or x[0].eq(y[0])) for x, y in zip(a.e, b.e))
        if isinstance(a, (VV, AV)) and type(a) is type(b) and len(a.l) == len(b.l): return all(self.same(x, y) for x, y in zip(a.l, b.l))
        return False

    def invariant_poly(self, p, mark):
        """no symbol created after mark occurs in p"""
        for a in p.atoms():
            if not self.invariant_term(ATOMS[a], mark): return False
        return True

    def invariant_term(self, t, mark):
        seen = set(); wl = [t]
        while wl:
            x = wl.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                m = re.match(r'.*!(\d+)(_u?\d+)?$', nm)
                if m and int(m.group(1)) > mark: return False
            wl.extend(x.children())
        return True

    def delta(self, hv, bv, mark):
        """loop-invariant increment of a value, or None"""
        if isinstance(hv, IV) and isinstance(bv, IV) and hv.bits == bv.bits and hv.bits > 1:
            if hv.bits == 64:
                d = bv.sx() - hv.sx()
                if self.invariant_poly(d, mark): return ('s', d)
                return None
            if bv.idx:
                d = bv.peek_sx() - hv.peek_sx()
                if self.invariant_poly(d, mark): return ('s', d)
            t = z3.simplify(bv.t() - hv.t())
            if z3.is_bv_value(t): return ('u', t.as_long())
        return None

    def havoc_like(self, v, name, delta, k, entry):
        """fresh (or k-affine) value for a loop-modified location"""
        if isinstance(v, IV):
            if delta is not None:
                kind, d = delta
                if kind == 's':
                    return fromsx(v.bits, entry.peek_sx() + d * k)
                # unsigned narrow induction variable
                dd = d if d < (1 << (v.bits - 1)) else d - (1 << v.bits)
                p = entry.peek_zx() + k.scale(dd)
                r = IV(v.bits, zx=p)
                r._sx = None
                return r
            if v.bits == 1: return IV(1, t=self.fresh(1, name))
            if v.bits == 64: return IV(64, sx=Poly.atom(self.fresh(64, name)))
            t = self.fresh(v.bits, name)
            return IV(v.bits, t=t)
        if isinstance(v, PV):
            s = v.single()
            if s is None: raise Unsupported('loop-carried pointer with several targets')
            o, off = s
            if delta is not None: return PV([(TRUE, o, off + delta[1] * k)])
            return PV([(TRUE, o, Poly.atom(self.fresh(64, name)))])
        if isinstance(v, VV): return VV([self.havoc_like(x, name, None, k, x) for x in v.l])
        if isinstance(v, AV): return AV([self.havoc_like(x, name, None, k, x) for x in v.l])
        if v is UNDEF: return v
        raise Unsupported('havoc')

    def cut_loop(self, fr, H, loop, edges):
        E = self.enter(fr, H, edges)        # entry state, phi values in env
        phis = [I for I in H.ins if I.op == 'phi']
        init = [fr.env[I.idx] for I in phis]
        # phi classification: 'gen' | ('aff', delta) | 'const'
        cls = ['gen'] * len(phis)
        fcls = {}      # (obj, off) -> (n, class)
        arrs = set()   # objects havocked as arrays
        locked = set()
        ck = (fr.path, H.idx)
        cached = self.loopcls.get(ck)
        outerdry = self.dry
        if cached is not None and len(cached[0]) == len(cls):
            cls = list(cached[0]); fcls = {kk: c for kk, c in cached[1].items() if kk[0] in E.mem and isinstance(E.mem[kk[0]], FieldState)}; arrs = set(o for o in cached[2] if o in E.mem)
        if not self.ghost and not self.dry: self.nloops += 1
        lname = '%s/%s' % (fr.fn.name[:60], line_of(next((i for i in H.ins if i.op != 'phi'), H.ins[0])))
        final = cached is not None
        nested = any(i in fr.fn.loops and i != H.idx for i in loop)
        for attempt in range(20):
            snap = self.snapshot()
            mark = self.nfresh
            k = Poly.atom(self.fresh(64, 'k'))
            kt = k.term()
            grp = CandGroup(lname)
            gi = len(self.facts)
            self.facts.append(grp); self.groups.append(grp)
            Hs = E.copy()
            hphi = []
            gensyms = []
            for I, v, c in zip(phis, init, cls):
                if c == 'const': hv = v
                else:
                    d = c[1] if isinstance(c, tuple) else None
                    if d is not None and d[0] == 'u': self.need_u.append((v, d, k)) if False else None
                    hv = self.havoc_like(v, 'phi', d, k, v)
                hphi.append(hv)
            for (o, off), (n, c) in fcls.items():
                s = Hs.mem[o]
                v = self.field_load(o, s, off, n)
                if c == 'const': continue
                d = c[1] if isinstance(c, tuple) else None
                hv = self.havoc_like(v, 'fld', d, k, v)
                Hs.mem[o] = self.field_store(s, off, n, hv)
            for o in arrs:
                self.to_node(o, Hs.mem[o])
                self.nfresh += 1
                Hs.mem[o] = Node('base', None, 'havoc', self.nfresh)
            Hsave = Hs.copy()
            cap = []
            oldcap, self.cmpcap = self.cmpcap, cap
            self.loopctx.append((grp, hphi, cls, k, init))
            self.dry = outerdry if final or not nested else outerdry + 1
            try:
                res = self.exec_region(fr, loop, H, [Edge(None, H, Hs.copy(), hphi)], H)
            finally:
                self.dry = outerdry
                self.cmpcap = oldcap
                self.loopctx.pop()
            backs = [e for e in res if e.succ is H]
            outs = [e for e in res if e.succ is not H]
            if not backs:
                # body never iterates
                if final or not nested: return outs
                self.rollback(snap); final = True
                continue
            B, gs = self.merge_states([e.st for e in backs])
            B = B.copy()
            bphi = []
            for i in range(len(phis)):
                v = backs[-1].phis[i]
                for g, e in reversed(list(zip(gs[:-1], backs[:-1]))): v = self.ite(g, e.phis[i], v)
                bphi.append(v)
            # --- refine classification
            changed = False
            for i, (hv, bv) in enumerate(zip(hphi, bphi)):
                c = cls[i]
                if c == 'gen':
                    if ('p', i) in locked: continue
                    if self.same(hv, bv): cls[i] = 'const'; changed = True; continue
                    d = self.pdelta(hv, bv, mark)
                    if d is not None: cls[i] = ('aff', d); changed = True
                elif c == 'const':
                    if not self.same(hv, bv):
                        cls[i] = 'gen'; changed = True
                        if attempt or cached is None: locked.add(('p', i))
                else:
                    d = self.pdelta(hv, bv, mark)
                    if not self.deltaeq(d, c[1]):
                        if d is not None and d[0] == 's' and c[1][0] == 'u' and ('s', i) not in locked: cls[i] = ('aff', d); locked.add(('s', i))
                        else: cls[i] = 'gen'; locked.add(('p', i))
                        changed = True
            for o, hs in Hsave.mem.items():
                bs = B.mem.get(o)
                if bs is hs or bs is None: continue
                if isinstance(bs, FieldState) and isinstance(hs, FieldState):
                    for off in set(bs.f) | set(hs.f):
                        be, he = bs.f.get(off), hs.f.get(off)
                        if be is not None and he is not None and be[0] == he[0] and self.same(be[1], he[1]): continue
                        if be is None: n = he[0]
                        else: n = be[0]
                        if he is None or (be is not None and be[0] != he[0]):
                            # value did not exist at entry: initialise from default
                            hv0 = self.field_load(o, hs, off, n)
                        kk = (o, off)
                        if kk not in fcls:
                            fcls[kk] = (n, 'gen'); changed = True
                        else:
                            if fcls[kk][0] != n:
                                # shape conflict: fall back to bytes
                                raise Unsupported('loop-carried field with changing shape')
                            c = fcls[kk][1]
                            hv, bv = self.field_load(o, hs, off, n), self.field_load(o, bs, off, n)
                            if c == 'gen':
                                if ('f', kk) in locked: continue
                                d = self.pdelta(hv, bv, mark)
                                if d is not None: fcls[kk] = (n, ('aff', d)); changed = True
                            elif c != 'const':
                                d = self.pdelta(hv, bv, mark)
                                if not self.deltaeq(d, c[1]): fcls[kk] = (n, 'gen'); locked.add(('f', kk)); changed = True
                else:
                    if o not in arrs:
                        arrs.add(o)
                        for kk in [x for x in fcls if x[0] is o]: del fcls[kk]
                        changed = True
            for kk, (n, c) in fcls.items():
                if isinstance(c, tuple):
                    hv, bv = self.field_load(kk[0], Hsave.mem[kk[0]], kk[1], n), self.field_load(kk[0], B.mem[kk[0]], kk[1], n)
                    d = self.pdelta(hv, bv, mark)
                    if not self.deltaeq(d, c[1]):
                        fcls[kk] = (n, 'gen'); locked.add(('f', kk)); changed = True
            if not changed:
                if final or not nested: break
                final = True
            elif nested: final = False
            self.rollback(snap)
        else:
            raise Unsupported('loop classification does not converge')
        # check pointer phis stay in their object
        for i, (hv, bv) in enumerate(zip(hphi, bphi)):
            if isinstance(hv, PV) and cls[i] != 'const':
                s, t = hv.single(), (bv.single() if isinstance(bv, PV) else None)
                if t is None or t[0] is not s[0]: raise Unsupported('loop-carried pointer changes object')
        for (o, off), (n, c) in fcls.items():
            hv, bv = self.field_load(o, Hsave.mem[o], off, n), self.field_load(o, B.mem[o], off, n)
            if isinstance(hv, PV):
                s, t = hv.single(), (bv.single() if isinstance(bv, PV) else None)
                if t is None or t[0] is not s[0]: raise Unsupported('loop-carried pointer field changes object')
        self.arrs = [o for o in arrs if o.g]
        self.loopcls[ck] = (list(cls), dict(fcls), set(arrs))
        if self.dry: return outs
        self.make_candidates(fr, grp, gi, E, Hsave, B, phis, init, hphi, bphi, cls, fcls, k, cap, mark)
        return outs

    def deltaeq(self, a, b):
        if a is None or b is None: return False
        return a[0] == b[0] and a[1] == b[1]

    def pdelta(self, hv, bv, mark):
        if isinstance(hv, PV) and isinstance(bv, PV):
            s, t = hv.single(), bv.single()
            if s and t and s[0] is t[0]:
                d = t[1] - s[1]
                if self.invariant_poly(d, mark): return ('s', d)
            return None
        return self.delta(hv, bv, mark)

    # --- candidate invariants -------------------------------------------
    def make_candidates(self, fr, grp, gi, E, Hs, B, phis, init, hphi, bphi, cls, fcls, k, cap, mark):
        kt = k.term()
        one = z3.BitVecVal(1, 64)
        subE = [(kt, z3.BitVecVal(0, 64))]
        subB = [(kt, kt + one)]
        scal = []     # generic scalars: (name, H, E, B)
        pos = []      # positions: (name, H, E, B) IV64-able

        def reg(name, hv, ev, bv, c):
            if isinstance(hv, IV):
                if c == 'gen':
                    scal.append((name, hv, ev, bv))
                    ht = hv.t()
                    subE.append((ht, ev.t())); subB.append((ht, bv.t()))
                elif isinstance(c, tuple):
                    pos.append((name, hv, ev, bv))
            elif isinstance(hv, PV):
                s = hv.single()
                if c == 'gen':
                    ht = s[1].term()
                    subE.append((ht, ev.single()[1].term())); subB.append((ht, bv.single()[1].term()))
            elif isinstance(hv, (VV, AV)):
                for i, (a, b, d) in enumerate(zip(hv.l, ev.l, bv.l)): reg('%s.%d' % (name, i), a, b, d, c)
        for i, (hv, ev, bv) in enumerate(zip(hphi, init, bphi)):
            if cls[i] == 'const': continue
            reg('phi%d' % i, hv, ev, bv, cls[i])
        for (o, off), (n, c) in fcls.items():
            if c == 'const': continue
            reg('%s+%d' % (o.name, off), self.field_load(o, Hs.mem[o], off, n), self.field_load(o, E.mem[o], off, n), self.field_load(o, B.mem[o], off, n), c)
        grp.pcE = E.pc; grp.pcB = B.pc
        grp.nE = gi
        grp.nB = len(self.facts)
        seen = set()

        def add(desc, h, e=None, b=None):
            if h is None or is_true(h): return
            if h.get_id() in seen: return
            seen.add(h.get_id())
            if e is None:
                e = z3.substitute(h, *subE); b = z3.substitute(h, *subB)
            sel = z3.Bool('sel!%d' % self.newsel())
            grp.cands.append([sel, desc, h, e, b, True])
        # iteration counter cannot wrap
        add('k<=2^40', z3.ULE(kt, z3.BitVecVal(1 << 40, 64)))
        # narrow unsigned induction variables: representation as zero-extended polynomial must be exact
        for lst in (list(zip(hphi, cls, init)), [(self.field_load(o, Hs.mem[o], off, n), c, self.field_load(o, E.mem[o], off, n)) for (o, off), (n, c) in fcls.items()]):
            for hv, c, ev in lst:
                if isinstance(c, tuple) and c[1][0] == 'u':
                    cond = z3.ULT(hv.peek_zx().term(), z3.BitVecVal(1 << hv.bits, 64))
                    add('no wrap', cond)
                    if not self.ghost:
                        self.obls.append(Oblig('unsigned loop counter does not wrap', 'overflow', E.pc, cond, gi + 1, self.loc(phis[0] if phis else None), self.fnname()))
                elif isinstance(c, tuple) and isinstance(hv, IV) and hv.bits < 64:
                    add('fits', And(hv.peek_sx().term() >= z3.BitVecVal(smin(hv.bits), 64), hv.peek_sx().term() <= z3.BitVecVal(smax(hv.bits), 64)))
        # captured comparisons
        hsyms = set(x[0].get_id() for x in subE)
        n = 0
        for (w, a, b, pred) in cap:
            if n > 60: break
            if not (self.mentions(a, hsyms) or self.mentions(b, hsyms)): continue
            if not (self.invariant_term(a, mark) or self.invariant_term(b, mark) or True): continue
            if not (self.only_h(a, mark, hsyms) and self.only_h(b, mark, hsyms)): continue
            n += 1
            add('a<=b', a <= b); add('a>=b', a >= b)
            add('a<=u b', z3.ULE(a, b)); add('a>=u b', z3.UGE(a, b))
            if not (z3.is_bv_value(a) or z3.is_bv_value(b)) or 'e' in str(pred) or 'g' in str(pred):
                o1 = z3.BitVecVal(1, a.size())
                add('a<=b+1', a - o1 <= b); add('a+1>=b', a + o1 >= b)
        # generic scalars
        for nm, hv, ev, bv in scal:
            h, e0 = hv.t(), ev.t()
            if hv.bits == 1:
                add(nm + '==init', h == e0, FALSE if False else e0 == e0, bv.t() == e0)
                add(nm, h); add('!' + nm, z3.Not(h)); continue
            if hv.bits > 64: continue
            for d, f in (('>=', lambda x: x >= e0), ('<=', lambda x: x <= e0), ('>=u', lambda x: z3.UGE(x, e0)), ('<=u', lambda x: z3.ULE(x, e0))):
                add(nm + d + 'init', f(h), f(e0), f(bv.t()))
            add(nm + '>=0', h >= 0)
            if hv.bits == 64:
                add(nm + '<=init+k', z3.ULE(h - e0, kt), TRUE, z3.ULE(bv.t() - e0, kt + one))
            elif hv.bits < 64:
                w = 64 - hv.bits
                add(nm + '<=init+k', z3.SignExt(w, h) - z3.SignExt(w, e0) <= kt, TRUE, z3.SignExt(w, bv.t()) - z3.SignExt(w, e0) <= kt + one)
        # contract-supplied templates
        if self.cands and not self.ghost:
            self.template_cands(grp, add, E, Hs, B, scal, pos, k, kt)

    def newsel(self):
        self._sel = getattr(self, '_sel', 0) + 1
        return self._sel

    def mentions(self, t, ids):
        seen = set(); wl = [t]
        while wl:
            x = wl.pop()
            i = x.get_id()
            if i in ids: return True
            if i in seen: continue
            seen.add(i); wl.extend(x.children())
        return False

    def only_h(self, t, mark, ids):
        """every symbol created inside the loop is a header symbol"""
        seen = set(); wl = [t]
        while wl:
            x = wl.pop()
            i = x.get_id()
            if i in ids or i in seen: continue
            seen.add(i)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.match(r'.*!(\d+)(_u?\d+)?$', x.decl().name())
                if m and int(m.group(1)) > mark: return False
            wl.extend(x.children())
        return True

    def template_cands(self, grp, add, E, Hs, B, scal, pos, k, kt):
        Z = IV(64, 0)

        def w64(v): return self.sext(v, 64) if v.bits < 64 else v
        kv = ('k', IV(64, sx=k), Z, IV(64, sx=k + Poly.const(1)))
        mine = [(n, w64(h), w64(e), w64(b)) for n, h, e, b in pos]
        # unsigned narrow counters
        mine = [(n, (IV(64, sx=h0.peek_zx()) if h0._zx is not None and h0._sx is None and h0.bits < 64 else h), e, b)
                for (n, h, e, b), (_, h0, _, _) in zip(mine, pos)]
        ks = set()
        uniq = []
        for x in [kv] + mine:
            key = (x[1].sx(), x[2].sx())
            if key in ks: continue
            ks.add(key); uniq.append(x)
        mine = uniq
        outer = []
        oks = set()
        levels = []
        for g, hp, cl, kk, ini in self.loopctx:
            lv = [('ok', IV(64, sx=kk), IV(64, sx=kk), IV(64, sx=kk))]; levels.append(lv)
            for h, c in zip(hp, cl):
                if isinstance(c, tuple) and isinstance(h, IV):
                    v = w64(h)
                    if not any(v.sx() == x[1].sx() for x in lv): lv.append(('o', v, v, v))
        levels.append(mine)
        for g, hp, cl, kk, ini in self.loopctx:
            ov = IV(64, sx=kk)
            outer.append(('ok', ov, ov, ov)); oks.add(ov.sx())
            for h, c in zip(hp, cl):
                if isinstance(c, tuple) and isinstance(h, IV):
                    v = w64(h)
                    if v.sx() in oks: continue
                    oks.add(v.sx()); outer.append(('o', v, v, v))
        zero = ('0', Z, Z, Z)
        vals = []
        for n, h, e, b in scal:
            if h.bits == 1: h, e, b = self.zext(h, 64), self.zext(e, 64), self.zext(b, 64)
            elif h.bits < 64: h, e, b = self.sext(h, 64), self.sext(e, 64), self.sext(b, 64)
            elif h.bits > 64: continue
            vals.append((n, h, e, b))
        allmine = mine
        for fn, ctx, sig in self.cands:
            np_ = sig.count('p') + sig.count('k'); nv = sig.count('v')
            if sig[0] == 'e':
                self.elem_cands(grp, fn, ctx, [()] if np_ == 0 else [(m,) for m in allmine], E, Hs, B)
                continue
            if 'k' in sig:
                n = min(np_, len(levels))
                pc = [tuple(c) + (zero,) * (np_ - n) for ls in itertools.combinations(levels, n) for c in itertools.product(*ls)]
            elif np_ == 0: pc = [()]
            elif np_ == 1: pc = [(m,) for m in allmine] + [(o,) for o in outer] + [(zero,)]
            elif np_ == 2:
                pc = [(o, m) for o in outer for m in allmine] + [(m, zero) for m in allmine] + [(zero, m) for m in allmine] + [(m, o) for o in outer for m in allmine] 
                if outer: pc += [(o, zero) for o in outer]
            else:
                base = outer + allmine
                pc = [c + (zero,) * (np_ - len(c)) for r in range(1, np_ + 1) for c in itertools.combinations(base, r)]
            vc = [()] if nv == 0 else list(itertools.permutations(vals + ([] if nv == 1 else []), nv))
            if nv and not vc: continue
            for ps in pc:
                for vs in vc[:40]:
                    args = list(vs) + list(ps)
                    try:
                        f = []
                        for wi, st in ((1, Hs), (2, E), (3, B)):
                            r = self.ghost_call(fn, [ctx] + [a[wi] for a in args], st)
                            f.append(r.t() if r.bits == 1 else r.t() != 0)
                        add('%s(%s)' % (fn.name[:40], ','.join(a[0] for a in args)), *f)
                    except Unsupported:
                        continue

    def elem_cands(self, grp, fn, ctx, pcs, E, Hs, B):
        """candidates over every cell of every array the loop modifies"""
        for o in self.arrs:
            hn = Hs.mem[o]
            if not (isinstance(hn, Node) and hn.k == 'base' and hn.a[0] == 'havoc'): continue
            nk = max(2, 1 + bool(o.strides) + bool(o.planes))
            for ps in pcs:
                if fn.blocks and len(fn.params) != 2 + nk + len(ps): continue
                self._sel = getattr(self, '_sel', 0) + 1
                hold = z3.Bool('every!%d' % self._sel)
                j = [Poly.atom(self.fresh(64, 'cell')) for _ in range(1 + bool(o.strides) + bool(o.planes))]
                key = tuple(j[:-1]) + (j[-1].scale(o.g),)
                inr = And(*[And(self.cmp64('sle', P0, x), self.cmp64('sle', x, Poly.const(1 << 48))) for x in j], *([self.cmp64('slt', j[-2], o.rows)] if o.strides else []), *([self.cmp64('slt', j[0], o.planes[2])] if o.planes else []),
                          self.cmp64('sle', key[-1] + Poly.const(o.g), o.rowbytes if o.strides else o.size))
                try:
                    f = []
                    for wi, st in ((2, E), (3, B)):
                        r = self.asint(self.node_load(o, self.to_node(o, st.mem[o]), key, o.g))
                        f.append(z3.Implies(inr, self.elem_eval(fn, ctx, key[:-1] + (j[-1],), r, [a[wi] for a in ps], st)))
                except Unsupported: continue
                grp.cands.append([z3.Bool('sel!%d' % self.newsel()), 'every %s %s(%s)' % (o.name, fn.name[:40], ','.join(a[0] for a in ps)), hold, f[0], f[1], True])
                inv = (hold, fn, ctx, [a[1] for a in ps], Hs, o.g)
                self.elem_inv.setdefault(hn.a[1], []).append(inv)
                for mk, r in list(hn.memo.items()):
                    if mk[0] == 'be': self.elem_fact(inv, mk[1], r)

    def ghost_call(self, F, args, st):
        """evaluate a pure specification function symbolically in a state"""
        self.ghost += 1
        oldcap, self.cmpcap = self.cmpcap, None
        try:
            s, v = self.call_function(F, args, st.copy() if st.mem else State(st.pc), None)
            if s is None: raise Unsupported('specification function does not return')
            return v
        finally:
            self.ghost -= 1
            self.cmpcap = oldcap


def fr_rets_of(ex):
    return ex.stack[-1].rets


import ops    # noqa: E402  (mixes instruction semantics into Executor)
