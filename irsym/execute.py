"""Symbolic executor over LLVM IR (see llvmir.py).

Integers: Python ints when concrete, z3 bit-vectors when symbolic (i1: int or
z3 Bool).  Doubles: reals.R nodes (exact real arithmetic).  Pointers: Ptr
(object, offset).  Paths fork at symbolic branches; every fork and every
assertion is a solver query."""
import bisect
import ctypes
import math
import struct
import threading
import time
import subprocess
from fractions import Fraction
import z3
from . import numeric
z3.set_param('rewriter.bv_le2extract', False)
from . import gf2
from . import reals as Rl
from .reals import R
from .llvmir import Const


PORTFOLIO = (('z', 1000), ('c', 2000), ('i', 2000), ('z', 4000), ('c', 15000), ('i', 15000), ('f', 1 << 40))


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.o, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Undef:
    pass


UNDEF = Undef()


class Obj:
    __slots__ = ('id', 'size', 'cells', 'owner', 'freed', 'kind', 'name', 'zero', 'lazy', 'ro')


class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'regs', 'prev', 'retdst', 'allocas', 'nxt', 'cb')


class State:
    __slots__ = ('frames', 'mem', 'pc', 'sides', 'id', 'steps', 'inputs', 'calls', 'nobj', 'trace', 'eqs', 'forks',
                 'data', 'rules', 'nthrow', 'eqcache', 'dec', 'env')


_sid = [0]
MASK = [(1 << i) - 1 for i in range(129)]
BASE = 1 << 32


def isR(x):
    return isinstance(x, R)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def BV(x, w):
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, z3.BitVecRef):
        if x.size() != w:
            raise Unsupported('width %d vs %d' % (x.size(), w))
        return x
    if isinstance(x, Ptr):
        a = BASE + x.o * (1 << 24)
        return z3.BitVecVal(a, 64) + (x.off if not isinstance(x.off, int) else z3.BitVecVal(x.off, 64))
    if isR(x):
        return BV(rbits(x, w), w)
    if x is UNDEF:
        return z3.BitVecVal(0, w)
    if isinstance(x, FnPtr):
        return z3.BitVecVal(fnaddr(x), 64)
    raise Unsupported('BV of %r' % (x,))


_fnaddr = {}


def fnaddr(p):
    return _fnaddr.setdefault(p.name, 0x1000 + 16 * len(_fnaddr))


def paddr(p):
    if isinstance(p, FnPtr):
        return fnaddr(p)
    return BASE + p.o * (1 << 24) + p.off


def rbits(x, w):
    """integer bit pattern of an R"""
    if x.op in ('c', 'sp'):
        f = float(x.args[0])
        if w == 64:
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        return struct.unpack('<I', struct.pack('<f', f))[0]
    if x.op == 'bits' and x.args[0].size() == w:
        return x.args[0]
    raise Unsupported('bit pattern of a symbolic real')


def r_of_bits(v, w):
    if type(v) is int:
        if w == 64:
            return Rl.fconst(struct.unpack('<d', struct.pack('<Q', v))[0])
        return Rl.const(struct.unpack('<f', struct.pack('<I', v))[0])
    if isR(v):
        return v
    if isinstance(v, z3.BitVecRef):
        if z3.is_bv_value(v):
            return r_of_bits(v.as_long(), w)
        return Rl.bits(v)
    if v is UNDEF:
        return Rl.ZERO
    raise Unsupported('double of %r' % (v,))


def B(x):
    """to z3 Bool"""
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is int:
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BitVecRef):
        return x == z3.BitVecVal(1, x.size())
    if x is UNDEF:
        return z3.BoolVal(False)
    raise Unsupported('bool of %r' % (x,))


def norm(e):
    """simplify, back to python int if constant"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.instrs = 0
        self.asserts = 0
        self.proved_structural = 0
        self.proved_solver = 0
        self.proved_nf = 0
        self.unknown = 0
        self.feas_unknown = 0
        self.fns = set()
        self.maxdepth = 0
        self.forks = 0
        self.reached = {}
        self.thrown = 0


def guarded(s, timeout):
    """check with a second, external time limit"""
    t = threading.Timer(timeout / 1000 * 1.2 + 1, s.ctx.interrupt)
    t.daemon = True
    t.start()
    try:
        return s.check()
    finally:
        t.cancel()


class Engine:
    def __init__(self, mod, opts=None):
        self.gf2, self.gf2a = gf2.GF2(), gf2.GF2()
        self.gf2a.abstract = True
        self.gf2s = gf2.GF2()
        self._tvars, self._keep = {}, []
        self.tabdefs = {}
        gf2.DEFS.clear()
        self.gf2s.abstract = self.gf2s.seg = True
        self.mod = mod
        self.opts = opts or {}
        Rl.DEC[0] = bool(self.opts.get('dec_const'))
        self.stats = Stats()
        self.violations = []
        self.weak = 0
        self.inconclusive = []
        self.notes = []
        self.witnesses = []
        self.model_tbl = {}
        from . import models
        models.register(self)
        self.worklist = []
        self.globals_obj = {}
        self.maxsteps = self.opts.get('max_steps', 3000000)
        self.loop_limit = self.opts.get('max_paths', 100000)
        self.deadline = self.opts.get('deadline')
        self.feas_to = self.opts.get('feas_timeout_ms', 2000)
        self.assert_to = self.opts.get('assert_timeout_ms', 30000)
        self.solver = None
        self.solver_stack = []
        self.fork_select_real = self.opts.get('fork_select_real', True)
        self.checked_ovf = self.opts.get('check_overflow', False)
        self._fresh = 0
        self.stop_after = self.opts.get('max_violations', 1)
        self.divzero = self.opts.get('divzero', 'assume')
        self.merge_int_select = True
        self.gmem = {}
        self.inputs_meta = {}

    # ------------------------------------------------------------ solver
    def fresh(self, pfx):
        self._fresh += 1
        return '%s!%d' % (pfx, self._fresh)

    def _sync(self, pc):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver_stack = []
        st = self.solver_stack
        n = 0
        while n < len(st) and n < len(pc) and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def query(self, pc, extra, timeout):
        """-> 'sat'|'unsat'|'unknown', model"""
        if gf2.DEFS:
            return self.query_fresh(pc, extra, timeout)
        t0 = time.time()
        self.stats.queries += 1
        try:
            self._sync(pc)
            self.solver.set('timeout', int(timeout))
            r = self.solver.check(*extra)
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception as e:
            self.notes.append('z3: %s' % e)
            self.solver = None
            r, m = z3.unknown, None
        self.stats.solver_s += time.time() - t0
        return str(r), m

    def undef(self, cs):
        """table symbols replaced by their definitions"""
        if not gf2.DEFS:
            return cs
        return [self.gf2.canon(c) if self.tvars(c) & gf2.DEFS.keys() else c for c in cs]

    def query_fresh(self, pc, extra, timeout, tactic=None):
        pc, extra = self.undef(pc), self.undef(extra)
        t0 = time.time()
        self.stats.queries += 1
        try:
            s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
            s.set('timeout', int(timeout))
            s.add(*pc)
            s.add(*extra)
            r = guarded(s, timeout)
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception as e:
            self.notes.append('z3: %s' % e)
            r, m = z3.unknown, None
        self.stats.solver_s += time.time() - t0
        return str(r), m

    def feasible(self, st, cond):
        """cond: z3 Bool -> True/False (unknown counts as feasible)"""
        if self.opts.get('gf2'):
            c = self.gf2.canon(cond)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            pc = self.slice(self.undef(st.pc), c)
            r, m = self.query_fresh(pc, [c], min(500, self.feas_to))
            if r == 'unknown':
                g = self.gf2s if self.opts['gf2'] == 'seg' else self.gf2a
                r, m = self.query_fresh([g.canon(x) for x in pc], [g.canon(cond)], self.feas_to)
                if r == 'sat':
                    r, m = self.query_fresh([self.gf2.canon(x) for x in pc], [c], self.feas_to)
            if r == 'unknown':
                self.stats.feas_unknown += 1
                return True
            return r == 'sat'
        if self.opts.get('fold'):
            q = self.quick(st, cond)
            if q is not None:
                return q
        r, m = self.query(st.pc, [cond], self.feas_to)
        if r == 'unknown':
            self.stats.feas_unknown += 1
            return True
        return r == 'sat'

    def quick(self, st, cond):
        """feasibility by evaluation (sat) or with products taken as unknowns (unsat)"""
        env = getattr(st, 'env', None)
        pc = self.undef(st.pc)
        if env is not None and numeric.holds([cond] + pc, env):
            return True
        s = z3.SimpleSolver()
        s.set('arith.nl', False)
        s.set('timeout', 300)
        s.add(*pc)
        s.add(cond)
        t0 = time.time()
        self.stats.queries += 1
        r = guarded(s, 300)
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            return False
        env = numeric.search(self, st, [cond], self.opts.get('search_tries', 150))
        if env is not None:
            st.env = env
            return True
        return None

    def tvars(self, t):
        r = self._tvars.get(t.get_id())
        if r is None:
            r = set()
            seen = set()
            todo = [t]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r.add(x.get_id())
                else:
                    todo += x.children()
            self._tvars[t.get_id()] = r
            self._keep.append(t)
        return r

    def slice(self, pc, c):
        """the constraints connected to c through shared variables"""
        vs = set(self.tvars(c))
        rest = [(x, self.tvars(x)) for x in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for x, v in rest:
                if v & vs or not v:
                    vs |= v
                    out.append(x)
                    ch = True
                else:
                    nr.append((x, v))
            rest = nr
        return out

    def add_pc(self, st, c):
        if z3.is_true(c):
            return
        st.pc = st.pc + [c]

    def side(self, st, n):
        """record axioms of a freshly used real node on this path"""
        if n.op in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'atan2', 'acos', 'asin') or (n.op == '/' and self.divzero == 'assume'):
            if n.op == '/':
                key = ('/', n.args[1].id)
            else:
                key = n.id
            if key not in st.sides:
                st.sides = st.sides | {key}
                for c in Rl.side_constraints(n):
                    c = z3.simplify(c)
                    if not z3.is_true(c):
                        st.pc = st.pc + [c]
        elif n.op == '*' and n.args[0].op == 'c':
            self.side(st, n.args[1])
        return n

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind='heap', name='', zero=False):
        o = Obj()
        o.id = st.nobj
        st.nobj += 1
        o.size = size
        o.cells = {}
        o.owner = st.id
        o.freed = False
        o.kind = kind
        o.name = name
        o.zero = zero
        o.lazy = None
        o.ro = False
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.id:
            n = Obj()
            n.id = o.id
            n.size = o.size
            n.cells = dict(o.cells)
            n.owner = st.id
            n.freed = o.freed
            n.kind = o.kind
            n.name = o.name
            n.zero = o.zero
            n.lazy = o.lazy
            n.ro = o.ro
            st.mem[oid] = n
            return n
        return o

    def clone(self, st):
        n = State()
        _sid[0] += 1
        n.id = _sid[0]
        # force copy-on-write on both sides
        _sid[0] += 1
        st.id = _sid[0]
        n.frames = []
        for f in st.frames:
            g = Frame()
            g.fn = f.fn
            g.bb = f.bb
            g.ip = f.ip
            g.regs = list(f.regs)
            g.prev = f.prev
            g.retdst = f.retdst
            g.allocas = list(f.allocas)
            g.nxt = f.nxt
            g.cb = f.cb
            n.frames.append(g)
        n.mem = dict(st.mem)
        n.pc = st.pc
        n.env = getattr(st, 'env', None)
        n.sides = st.sides
        n.steps = st.steps
        n.inputs = list(st.inputs)
        n.calls = dict(st.calls)
        n.nobj = st.nobj
        n.trace = list(st.trace)
        n.eqs = st.eqs
        n.forks = st.forks
        n.data = dict(st.data)
        n.rules = dict(st.rules)
        n.nthrow = st.nthrow
        n.eqcache = {}
        n.dec = None
        return n

    def fail_mem(self, st, msg, cond=None):
        """memory-safety violation on this path (optionally under cond)"""
        self.report(st, 'memory', msg, cond)
        raise PathEnd('memory', msg)

    def resolve(self, st, p):
        if isinstance(p, Ptr):
            return p
        if type(p) is int:
            if p == 0:
                self.fail_mem(st, 'null pointer access')
            if p >= BASE:
                oid = (p - BASE) >> 24
                if oid in st.mem:
                    return Ptr(oid, (p - BASE) & 0xffffff)
            self.fail_mem(st, 'wild pointer access 0x%x' % p)
        if p is UNDEF:
            self.fail_mem(st, 'access through an uninitialised pointer')
        raise Unsupported('access through %r' % (p,))

    def obj_for(self, st, p, size, write=False):
        o = st.mem.get(p.o)
        if o is None:
            raise Unsupported('dangling object')
        if o.freed:
            self.fail_mem(st, 'use after free/scope of %s' % (o.name or o.kind))
        if type(p.off) is int:
            if p.off < 0 or p.off + size > o.size:
                self.fail_mem(st, 'out-of-bounds %s of %d bytes at offset %d of %s object %s (size %d)' % (
                    'write' if write else 'read', size, sgn64(p.off), o.kind, o.name, o.size))
        if o.lazy is not None:
            self.materialise(st, o)
            o = st.mem[p.o]
        if write:
            o = self.wobj(st, p.o)
        return o

    def materialise(self, st, o):
        ini = o.lazy
        o = self.wobj(st, o.id)
        o.lazy = None
        self.init_const(st, o, 0, ini)

    def init_const(self, st, o, off, c):
        k = c.k
        t = c.ty
        if k == 'zero':
            return   # object is created zero
        if k == 'undef':
            return
        if k == 'agg':
            if t.kind in ('array', 'vector'):
                s = t.el.size
                for i, e in enumerate(c.a):
                    self.init_const(st, o, off + i * s, e)
            else:
                for i, e in enumerate(c.a):
                    self.init_const(st, o, off + t.offs[i], e)
            return
        v = self.cval(st, c)
        o.cells[off] = (max(1, t.ssize), v)

    def getbyte(self, st, o, off):
        cells = o.cells
        for d in range(8):
            c = cells.get(off - d)
            if c is not None:
                s, v = c
                if d < s:
                    return self.sub(v, s, d, 1)
                if d > 0:
                    break
        if o.zero:
            return 0
        v = z3.BitVec(self.fresh('uninit'), 8)
        w = self.wobj(st, o.id)
        w.cells[off] = (1, v)
        return v

    def sub(self, v, s, d, n):
        """bytes d..d+n of the s-byte value v"""
        if d == 0 and n == s:
            return v
        if type(v) is int:
            return (v >> (8 * d)) & MASK[8 * n]
        if isR(v):
            v = rbits(v, 8 * s)
            return self.sub(v, s, d, n)
        if isinstance(v, z3.BoolRef):
            v = BV(v, 8 * s)
        if isinstance(v, (Ptr, FnPtr)):
            if isinstance(v, Ptr) and not isinstance(v.off, int):
                raise Unsupported('part of symbolic pointer')
            return self.sub(paddr(v), s, d, n)
        if v is UNDEF:
            return 0
        if isinstance(v, z3.BitVecRef):
            return norm(z3.Extract(8 * (d + n) - 1, 8 * d, v))
        raise Unsupported('sub of %r' % (v,))

    def read(self, st, p, n):
        """raw n-byte value (int/BV/R/Ptr) at concrete or symbolic pointer"""
        p = self.resolve(st, p)
        if type(p.off) is not int:
            return self.read_sym(st, p, n)
        o = self.obj_for(st, p, n)
        return self.read_at(st, o, p.off, n)

    def read_at(self, st, o, off, n):
        c = o.cells.get(off)
        if c is not None:
            s, v = c
            if s == n:
                return v
            if s > n:
                return self.sub(v, s, 0, n)
        elif o.zero and n <= 8:
            # common: untouched zero memory
            hit = False
            cells = o.cells
            for q in range(off - 7, off + n):
                if q in cells:
                    hit = True
                    break
            if not hit:
                return 0
        # pieces
        parts = []
        i = 0
        while i < n:
            c = o.cells.get(off + i)
            if c is not None and c[0] <= n - i:
                parts.append((c[1], c[0]))
                i += c[0]
                continue
            if c is not None:
                parts.append((self.sub(c[1], c[0], 0, n - i), n - i))
                break
            # inside an earlier cell?
            done = False
            if i == 0:
                for d in range(1, 8):
                    c = o.cells.get(off - d)
                    if c is not None:
                        if c[0] > d:
                            k = min(c[0] - d, n)
                            parts.append((self.sub(c[1], c[0], d, k), k))
                            i += k
                            done = True
                        break
            if not done:
                parts.append((self.getbyte(st, o, off + i), 1))
                o = st.mem[o.id]
                i += 1
        if len(parts) == 1:
            return parts[0][0]
        if all(type(v) is int for v, s in parts):
            r = 0
            sh = 0
            for v, s in parts:
                r |= v << sh
                sh += 8 * s
            return r
        es = []
        for v, s in parts:
            if isR(v):
                v = rbits(v, 8 * s)
            es.append(BV(v, 8 * s))
        return norm(z3.Concat(*reversed(es)))

    def erase(self, o, off, n):
        """remove [off,off+n) from the cell map, splitting partial cells"""
        cells = o.cells
        qs = range(off - 7, off + n)
        if len(cells) < n:
            qs = [q for q in cells if off - 7 <= q < off + n]
        for q in qs:
            c = cells.get(q)
            if c is None:
                continue
            s, v = c
            if q + s <= off:
                continue
            del cells[q]
            if q < off:
                cells[q] = (off - q, self.sub(v, s, 0, off - q))
            if q + s > off + n:
                cells[off + n] = (q + s - off - n, self.sub(v, s, off + n - q, q + s - off - n))

    def write(self, st, p, n, v):
        p = self.resolve(st, p)
        if type(p.off) is not int:
            return self.write_sym(st, p, n, v)
        o = self.obj_for(st, p, n, True)
        if o.ro:
            self.fail_mem(st, 'write to constant memory %s' % o.name)
        c = o.cells.get(p.off)
        if c is None or c[0] != n:
            self.erase(o, p.off, n)
        o.cells[p.off] = (n, v)

    def cand_offsets(self, st, p, n, write):
        o = self.obj_for(st, p, n, write)
        off = p.off
        w = 64
        ob = self.gf2.bits(off) if not write and o.size > 64 else None
        if ob is not None:
            hi = sum(1 << k for k, (m, c) in enumerate(ob) if m or c)
            if hi <= o.size - n:
                step = 1
                for m, c in ob:
                    if m or c:
                        break
                    step *= 2
                full = (1 << hi.bit_length()) - step
                if full <= o.size - n:
                    hi = full       # a power of two of entries
                if hi // step < 600:
                    return o, list(range(0, hi + 1, step))
        # bounds obligation
        bad = z3.Or(z3.UGT(off, z3.BitVecVal(o.size - n, w))) if o.size >= n else z3.BoolVal(True)
        r, m = self.query(st.pc, [bad], self.assert_to)
        if r == 'sat':
            self.report(st, 'memory', 'out-of-bounds %s of %d bytes in %s object %s (size %d)' % (
                'write' if write else 'read', n, o.kind, o.name, o.size), bad, model=m)
            if not self.feasible(st, z3.Not(bad)):
                raise PathEnd('memory', 'out of bounds')
            self.add_pc(st, z3.Not(bad))
        elif r == 'unknown':
            self.inconclusive.append('bounds of a symbolic access')
        # stride
        step = n
        while step > 1:
            if o.size > 64 or any(isR(v) for _, v in o.cells.values()):
                r, m = self.query(st.pc, [z3.URem(off, z3.BitVecVal(step, w)) != 0], self.feas_to)
                if r == 'unsat':
                    break
            else:
                step = 1
                break
            step //= 2
        cands = list(range(0, o.size - n + 1, step))
        if len(cands) > 16:
            # tighten by enumerating models, at most 80
            seen = []
            ex = []
            while len(seen) <= 80:
                r, m = self.query(st.pc, ex, self.feas_to)
                if r != 'sat':
                    break
                v = m.eval(off, model_completion=True).as_long()
                seen.append(v)
                ex.append(off != v)
            else:
                seen = None
            if seen is not None and r == 'unsat':
                cands = sorted(seen)
        if len(cands) > 6000:
            raise Unsupported('symbolic access over %d candidates' % len(cands))
        return o, cands

    def read_sym(self, st, p, n):
        o, cands = self.cand_offsets(st, p, n, False)
        vals = [(c, self.read_at(st, st.mem[o.id], c, n)) for c in cands]
        if any(isinstance(v, (Ptr, FnPtr)) for c, v in vals) or any(isR(v) for c, v in vals):
            # fork on the offset
            for i, (c, v) in enumerate(vals[:-1]):
                cond = p.off == z3.BitVecVal(c, 64)
                if self.choose(st, cond):
                    return v
            return vals[-1][1]
        if len(vals) >= 2 and all(type(v) is int for c, v in vals):
            r = self.xor_table(p.off, vals, 8 * n)
            if r is not None:
                return r
        r = BV(vals[-1][1], 8 * n)
        for c, v in reversed(vals[:-1]):
            r = z3.If(p.off == c, BV(v, 8 * n), r)
        return norm(r)

    def xor_table(self, off, vals, w):
        """a constant table that is affine over GF(2): the entry as an
        exclusive-or of index bits"""
        step = vals[1][0] - vals[0][0]
        if vals[0][0] or step & (step - 1) or any(c != i * step for i, (c, v) in enumerate(vals)):
            return None
        t = [v for c, v in vals]
        if not gf2.linear_table(t):
            return None
        key = (off.get_id(), tuple(t), w)
        v = self.tabdefs.get(key)
        if v is None:
            v = z3.BitVec(self.fresh('tab'), w)
            self.tabdefs[key] = v
            gf2.DEFS[v.get_id()] = (v, off, t, step.bit_length() - 1, w)
        return v

    def write_sym(self, st, p, n, v):
        o, cands = self.cand_offsets(st, p, n, True)
        if isR(v) or isinstance(v, (Ptr, FnPtr)):
            for i, c in enumerate(cands):
                if i == len(cands) - 1 or self.choose(st, p.off == z3.BitVecVal(c, 64)):
                    return self.write(st, Ptr(p.o, c), n, v)
        for c in cands:
            old = self.read_at(st, st.mem[o.id], c, n)
            if isR(old) or isinstance(old, (Ptr, FnPtr)):
                raise Unsupported('symbolic store over typed cells')
            self.write(st, Ptr(p.o, c), n, norm(z3.If(p.off == c, BV(v, 8 * n), BV(old, 8 * n))))

    def load_ty(self, st, p, t):
        k = t.kind
        if k == 'double' or k == 'float':
            n = t.ssize
            v = self.read(st, p, n)
            if isR(v):
                return v
            if isinstance(v, z3.BitVecRef) and z3.is_const(v) and v.decl().name().startswith('uninit') and n == 8:
                r = Rl.var(self.fresh('uninitd'))
                self.write(st, p, n, r)
                return r
            if isinstance(v, z3.BitVecRef) and 'uninit' in v.sexpr() and v.decl().name() == 'concat':
                r = Rl.var(self.fresh('uninitd'))
                self.write(st, p, n, r)
                return r
            return r_of_bits(v, 8 * n)
        if k == 'int':
            n = t.ssize
            v = self.read(st, p, n)
            if t.w == 8 * n:
                return v
            if t.w == 1:
                if type(v) is int:
                    return v & 1
                return norm(z3.Extract(0, 0, BV(v, 8 * n)) == 1)
            if type(v) is int:
                return v & MASK[t.w]
            return norm(z3.Extract(t.w - 1, 0, BV(v, 8 * n)))
        if k == 'ptr':
            v = self.read(st, p, 8)
            if type(v) is int and v >= BASE:
                oid = (v - BASE) >> 24
                if oid in st.mem:
                    return Ptr(oid, (v - BASE) & 0xffffff)
            return v
        if k in ('struct', 'array', 'vector'):
            return tuple(self.load_ty(st, self.padd(p, o), e) for o, e in self.fields(t))
        if k == 'fp80':
            return r_of_bits(self.read(st, p, 8), 64)
        raise Unsupported('load of ' + k)

    def fields(self, t):
        if t.kind == 'struct':
            return list(zip(t.offs, t.fields))
        return [(i * t.el.size, t.el) for i in range(t.n)]

    def store_ty(self, st, p, t, v):
        k = t.kind
        if k in ('struct', 'array', 'vector'):
            if v is UNDEF:
                return
            for (o, e), x in zip(self.fields(t), v):
                self.store_ty(st, self.padd(p, o), e, x)
            return
        if k == 'int' and t.w != 8 * t.ssize:
            if type(v) is int:
                pass
            elif isinstance(v, z3.BoolRef):
                v = BV(v, 8 * t.ssize)
            elif v is not UNDEF:
                v = z3.ZeroExt(8 * t.ssize - t.w, v)
        if k == 'fp80':
            self.write(st, p, 8, v)
            return
        if v is UNDEF:
            v = 0
        self.write(st, p, t.ssize, v)

    def padd(self, p, o):
        if isinstance(p, Ptr):
            if type(o) is int:
                if type(p.off) is int:
                    return Ptr(p.o, p.off + o)
                if o == 0:
                    return p
                return Ptr(p.o, norm(p.off + z3.BitVecVal(o & MASK[64], 64)))
            if type(p.off) is int:
                if p.off == 0:
                    return Ptr(p.o, o)
                return Ptr(p.o, norm(z3.BitVecVal(p.off & MASK[64], 64) + o))
            return Ptr(p.o, norm(p.off + o))
        if type(p) is int:
            if type(o) is int:
                return (p + o) & MASK[64]
            return norm(z3.BitVecVal(p, 64) + o)
        if p is UNDEF:
            return UNDEF
        if isinstance(p, z3.BitVecRef):
            return norm(p + (z3.BitVecVal(o & MASK[64], 64) if type(o) is int else o))
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def copy(self, st, d, s, n):
        """memmove n concrete bytes"""
        if n == 0:
            return
        s = self.resolve(st, s)
        d = self.resolve(st, d)
        if type(s.off) is not int or type(d.off) is not int:
            vals = [self.read(st, self.padd(s, i), 1) for i in range(n)]
            for i, v in enumerate(vals):
                self.write(st, self.padd(d, i), 1, v)
            return
        so = self.obj_for(st, s, n)
        a = s.off
        items = []
        i = 0
        cells = so.cells
        if len(cells) * 4 < n and so.zero and n > 256:
            # sparse zero object
            pass
        while i < n:
            c = cells.get(a + i)
            if c is not None and c[0] <= n - i:
                items.append((i, c[0], c[1]))
                i += c[0]
                continue
            if c is None and not (i == 0):
                # uninitialised / zero byte
                if so.zero:
                    items.append((i, 1, 0))
                i += 1
                continue
            if c is None and i == 0:
                hit = any((a - q) in cells and cells[a - q][0] > q for q in range(1, 8))
                if not hit:
                    if so.zero:
                        items.append((i, 1, 0))
                    i += 1
                    continue
            items.append((i, 1, self.read_at(st, so, a + i, 1)))
            so = st.mem[so.id]
            cells = so.cells
            i += 1
        do = self.obj_for(st, d, n, True)
        self.erase(do, d.off, n)
        for i, sz, v in items:
            do.cells[d.off + i] = (sz, v)

    def memset(self, st, d, v, n):
        d = self.resolve(st, d)
        if n == 0:
            return
        o = self.obj_for(st, d, n, True)
        self.erase(o, d.off, n)
        off, end = d.off, d.off + n
        if type(v) is int:
            pat = v & 255
            w = pat * 0x0101010101010101
            while off < end:
                k = 8 if (off % 8 == 0 and end - off >= 8) else (4 if off % 4 == 0 and end - off >= 4 else 1)
                o.cells[off] = (k, w & MASK[8 * k])
                off += k
        else:
            while off < end:
                o.cells[off] = (1, v)
                off += 1

    # -------------------------------------------------------- constants
    def gptr(self, st, name):
        oid = self.globals_obj.get(name)
        if oid is None:
            g = self.mod.globals[name]
            L = self.mod.L
            t = self.mod.ty(L.LLVMGlobalGetValueType(g))
            oid = 1 + len(self.globals_obj)
            self.globals_obj[name] = oid
            o = Obj()
            o.id = oid
            o.size = t.size
            o.cells = {}
            o.owner = -1
            o.freed = False
            o.kind = 'global'
            o.name = name
            o.zero = True
            o.lazy = None
            o.ro = bool(L.LLVMIsGlobalConstant(g))
            ini = L.LLVMGetInitializer(g)
            if ini:
                o.lazy = self.mod.const(ini)
            else:
                o.size = max(o.size, 64)
            self.gmem[oid] = o
        if oid not in st.mem:
            st.mem[oid] = self.gmem[oid]
        return Ptr(oid, 0)

    def cval(self, st, c):
        k = c.k
        if k == 'int':
            return c.a
        if k == 'fp':
            return Rl.fconst(c.a)
        if k == 'null':
            return 0
        if k == 'fn':
            return FnPtr(c.a)
        if k == 'global':
            return self.gptr(st, c.a)
        if k == 'undef':
            return self.zero_of(c.ty) if c.ty.kind in ('struct', 'array', 'vector') else UNDEF
        if k == 'zero':
            return self.zero_of(c.ty)
        if k == 'agg':
            return tuple(self.cval(st, e) for e in c.a)
        if k == 'expr':
            op, ops, x = c.a
            if op == 'gep':
                p = self.cval(st, ops[0])
                return self.padd(p, self.gep_off(x, [self.cval(st, o) for o in ops[1:]], [o.ty.w for o in ops[1:]]))
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.cval(st, ops[0])
            if op in ('sub', 'add'):
                a, b = self.cval(st, ops[0]), self.cval(st, ops[1])
                return self.arith(op, a, b, c.ty.w)
            if op == 'trunc':
                v = self.cval(st, ops[0])
                if isinstance(v, Ptr):
                    v = paddr(v)
                return v & MASK[c.ty.w]
            if op == 'icmp':
                return self.icmp(x, self.cval(st, ops[0]), self.cval(st, ops[1]), 64)
            raise Unsupported('constant expression ' + op)
        raise Unsupported('constant ' + k)

    def zero_of(self, t):
        k = t.kind
        if k in ('int', 'ptr'):
            return 0
        if k in ('double', 'float', 'fp80'):
            return Rl.ZERO
        if k == 'struct':
            return tuple(self.zero_of(f) for f in t.fields)
        if k in ('array', 'vector'):
            return (self.zero_of(t.el),) * t.n
        return UNDEF

    # ------------------------------------------------------- arithmetic
    def gep_off(self, t, idx, ws):
        off = 0
        sym = None
        first = True
        for v, w in zip(idx, ws):
            if first:
                sz = t.size
                first = False
            else:
                if t.kind == 'struct':
                    off += t.offs[v]
                    t = t.fields[v]
                    continue
                t = t.el
                sz = t.size
            if type(v) is int:
                off += sgn(v, w) * sz
            elif v is UNDEF:
                pass
            else:
                if isinstance(v, Ptr):
                    if sz == 1 and sym is None:
                        sym = v
                        continue
                    raise Unsupported('pointer as index')
                if isinstance(v, z3.BoolRef):
                    v = BV(v, w)
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                e = v if sz == 1 else v * z3.BitVecVal(sz, 64)
                sym = e if sym is None else sym + e
        if sym is None:
            return off
        if isinstance(sym, Ptr):
            raise Unsupported('pointer index')
        if off:
            sym = sym + z3.BitVecVal(off & MASK[64], 64)
        return norm(sym)

    def arith(self, op, a, b, w):
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & MASK[w]
            if op == 'sub':
                return (a - b) & MASK[w]
            if op == 'mul':
                return (a * b) & MASK[w]
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & MASK[w] if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & MASK[w]
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op in ('sdiv', 'srem'):
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & MASK[w]
        if a is UNDEF:
            a = 0
        if b is UNDEF:
            b = 0
        if isinstance(a, FnPtr):
            a = fnaddr(a)
        if isinstance(b, FnPtr):
            b = fnaddr(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(a, sgn(b, 64) if type(b) is int else b)
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return self.padd(b, sgn(a, 64) if type(a) is int else a)
            if op == 'sub' and isinstance(a, Ptr):
                if isinstance(b, Ptr):
                    if a.o == b.o:
                        if type(a.off) is int and type(b.off) is int:
                            return (a.off - b.off) & MASK[64]
                        return norm(BV(a.off & MASK[64] if type(a.off) is int else a.off, 64) -
                                    BV(b.off & MASK[64] if type(b.off) is int else b.off, 64))
                elif type(b) is int:
                    return self.padd(a, -sgn(b, 64))
                else:
                    return self.padd(a, -b)
            if op == 'and' and type(b) is int and isinstance(a, Ptr) and sgn(b, 64) < 0 and type(a.off) is int:
                # align down; objects are 16 MiB aligned
                return Ptr(a.o, a.off & sgn(b, 64))
            if op == 'sub' and a == 0 and isinstance(b, Ptr) and type(b.off) is int:
                return (-paddr(b)) & MASK[64]
            if op == 'sub' and type(a) is int and isinstance(b, Ptr) and type(b.off) is int:
                return (a - paddr(b)) & MASK[64]
            if isinstance(a, Ptr) and type(a.off) is int:
                a = paddr(a)
            if isinstance(b, Ptr) and type(b.off) is int:
                b = paddr(b)
            return self.arith(op, a, b, w)
        if isR(a) or isR(b):
            # bit tricks on doubles
            if op in ('xor', 'and', 'or') and isR(a) and type(b) is int and w == 64:
                if op == 'xor' and b == 1 << 63:
                    return Rl.neg(a)
                if op == 'and' and b == MASK[63]:
                    return Rl.abs_(a)
        if w == 1:
            x, y = B(a), B(b)
            if op == 'and' or op == 'mul':
                r = z3.And(x, y)
            elif op == 'or':
                r = z3.Or(x, y)
            elif op in ('xor', 'add', 'sub'):
                r = z3.Xor(x, y)
            else:
                raise Unsupported('i1 ' + op)
            return norm(r)
        x, y = BV(a, w), BV(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem':
            r = z3.SRem(x, y)
        else:
            raise Unsupported(op)
        return norm(r)

    def icmp(self, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred])
        if a is UNDEF:
            a = 0
        if b is UNDEF:
            b = 0
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return int(same) if pred == 'eq' else int(not same)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                if type(a.off) is int and type(b.off) is int:
                    x, y = a.off, b.off
                    return int({'eq': x == y, 'ne': x != y}.get(pred, None) if pred in ('eq', 'ne') else
                               {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]])
                x = BV(a.off & MASK[64] if type(a.off) is int else a.off, 64)
                y = BV(b.off & MASK[64] if type(b.off) is int else b.off, 64)
                if pred[0] == 'u':
                    pred = 's' + pred[1:]
                return self.icmp(pred, x, y, 64)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and type(b) is int and b < BASE:
                r = {'eq': 0, 'ne': 1, 'ugt': 1, 'uge': 1, 'ult': 0, 'ule': 0}.get(pred)
                if r is not None:
                    return r
            if isinstance(b, Ptr) and type(a) is int and a < BASE:
                r = {'eq': 0, 'ne': 1, 'ugt': 0, 'uge': 0, 'ult': 1, 'ule': 1}.get(pred)
                if r is not None:
                    return r
        if isR(a) or isR(b):
            # sign test on the bits of a double
            if isR(a) and type(b) is int:
                if pred == 'slt' and b == 0:
                    return self.fcmp('olt', a, Rl.ZERO)
                if pred == 'sgt' and b == MASK[w]:
                    return self.fcmp('oge', a, Rl.ZERO)
                if pred in ('eq', 'ne') and b == 0:
                    return self.fcmp('oeq' if pred == 'eq' else 'une', a, Rl.ZERO)
            if isR(a) and isR(b) and pred in ('eq', 'ne'):
                return self.fcmp('oeq' if pred == 'eq' else 'une', a, b)
        if w == 1:
            x, y = B(a), B(b)
            if pred == 'eq':
                return norm(x == y)
            if pred == 'ne':
                return norm(z3.Xor(x, y))
            raise Unsupported('i1 compare ' + pred)
        x, y = BV(a, w), BV(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return norm(r)

    def fcmp(self, pred, a, b):
        if not isR(a):
            a = r_of_bits(a, 64)
        if not isR(b):
            b = r_of_bits(b, 64)
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a.op in ('c', 'sp') and b.op in ('c', 'sp'):
            x, y = a.args[0], b.args[0]
            nan = (x != x) or (y != y)
            if pred == 'ord':
                return int(not nan)
            if pred == 'uno':
                return int(nan)
            if nan:
                return int(pred[0] == 'u')
            return int({'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]])
        for s, f in ((a, 0), (b, 1)):
            if s.op == 'sp':
                v = s.args[0]
                if v != v:
                    return int(pred in ('uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une'))
                big = v > 0
                p = pred[1:]
                if pred in ('ord',):
                    return 1
                if pred == 'uno':
                    return 0
                if p == 'eq':
                    return 0
                if p == 'ne':
                    return 1
                # special on side f
                lt = (f == 1 and big) or (f == 0 and not big)   # a < b
                return int(lt if p in ('lt', 'le') else not lt)
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        if self.opts.get('int_fcmp', bool(self.opts.get('gf2'))) and pred[1:] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            from . import models
            v = models.int_cmp(self, pred[1:], a, b)
            if v is not None:
                return v
        if a.op == 'bits' or b.op == 'bits':
            if a.op == 'bits' and b.op == 'bits' and a.args[0].size() == b.args[0].size():
                fs = z3.FPSort(11, 53) if a.args[0].size() == 64 else z3.FPSort(8, 24)
                x, y = z3.fpBVToFP(a.args[0], fs), z3.fpBVToFP(b.args[0], fs)
            elif a.op == 'bits' and b.op == 'c' and a.args[0].size() == 64:
                x, y = z3.fpBVToFP(a.args[0], z3.FPSort(11, 53)), z3.FPVal(float(b.args[0]), z3.FPSort(11, 53))
            elif b.op == 'bits' and a.op == 'c' and b.args[0].size() == 64:
                x, y = z3.FPVal(float(a.args[0]), z3.FPSort(11, 53)), z3.fpBVToFP(b.args[0], z3.FPSort(11, 53))
            else:
                raise Unsupported('compare of raw double bits with a real')
            p = pred[1:]
            r = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'ne': z3.fpNEQ}[p](x, y)
            if pred[0] == 'u' and p != 'ne':
                r = z3.Or(r, z3.fpIsNaN(x), z3.fpIsNaN(y))
            if pred == 'one':
                r = z3.And(r, z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(y)))
            return norm(r)
        if a is b:
            return int(pred[1:] in ('eq', 'ge', 'le'))
        x, y = Rl.z(a), Rl.z(b)
        p = pred[1:]
        r = {'eq': lambda: x == y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y,
             'le': lambda: x <= y, 'ne': lambda: x != y}[p]()
        return norm(r)

    # ------------------------------------------------------------ forks
    def choose(self, st, cond):
        """decide a symbolic condition on this path; the other side, if
        feasible, is queued as a clone that resumes at the current
        instruction with the opposite decision.  Only usable from inside an
        instruction whose effects have not begun (instruction re-executes)."""
        if type(cond) is int:
            return bool(cond)
        cond = B(cond)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        cond = s
        if self.opts.get('gf2'):
            cond = self.gf2.canon(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        # replayed decision on a resumed clone?
        key = cond.get_id()
        dec = st.dec
        if dec is not None:
            for c, v in dec:
                if c.eq(cond):
                    return v
        if self.opts.get('trace', 0) >= 2:
            print('CHOOSE', st.frames[-1].fn.name, (str(cond) if self.opts['trace'] == 2 else cond.sexpr())[:3000], flush=True)
        t = self.feasible(st, cond)
        f = self.feasible(st, z3.Not(cond)) if t else True
        if not t and not f:
            raise PathEnd('infeasible')
        if t and f:
            self.stats.forks += 1
            o = self.clone(st)
            o.pc = o.pc + [z3.Not(cond)]
            o.forks += 1
            o.dec = (st.dec or []) + [(cond, False)]
            fr = o.frames[-1]
            fr.ip -= 1   # re-execute the current instruction
            self.worklist.append(o)
            st.forks += 1
            st.pc = st.pc + [cond]
            st.dec = (st.dec or []) + [(cond, True)]
            return True
        return t

    def report(self, st, kind, msg, cond=None, model=None, weak=False):
        if cond is not None and model is None:
            r, model = self.query(st.pc, [cond], self.assert_to)
            if r == 'unsat':
                return False
            if r == 'unknown':
                self.inconclusive.append(msg)
                return False
        if model is None:
            if self.opts.get('trace'):
                print('FAILED   ', msg, flush=True)
            r, model = self.query(st.pc, [], self.assert_to) if not self.opts.get('gf2') else \
                self.query_fresh([self.gf2.canon(x) for x in st.pc], [], self.assert_to)
            if r == 'unsat':
                return False
            if r == 'unknown':
                r, model = self.query_fresh(st.pc, [], self.assert_to)
                if r != 'sat':
                    self.inconclusive.append(msg + ' (path feasibility unknown)')
                    return False
        if weak:
            self.weak += 1
        self.add_violation({'kind': kind, 'msg': msg, 'inputs': self.extract(st, model),
                            'stack': [f.fn.name for f in st.frames][-6:]})
        return True

    def report_env(self, st, kind, msg, env):
        out = []
        for name, kd, v in st.inputs:
            out.append((name, kd, env[v.args[0]] if isR(v) and v.op == 'v' else self.mval(None, v, kd)))
        self.add_violation({'kind': kind, 'msg': msg, 'inputs': out, 'stack': [f.fn.name for f in st.frames][-6:]})

    def add_violation(self, v):
        self.violations.append(v)
        sink = self.opts.get('sink')
        if sink:
            sink(v)

    def extract(self, st, model):
        out = []
        for name, kind, val in st.inputs:
            out.append((name, kind, self.mval(model, val, kind)))
        return out

    def mval(self, model, v, kind):
        if type(v) is int:
            return v
        if isR(v):
            if v.op in ('c', 'sp'):
                return float(v.args[0])
            if v.op == 'bits':
                x = model.eval(v.args[0], model_completion=True).as_long()
                return struct.unpack('<d', struct.pack('<Q', x))[0] if v.args[0].size() == 64 else x
            x = model.eval(Rl.z(v), model_completion=True)
            return num(x)
        if isinstance(v, z3.BoolRef):
            return 1 if z3.is_true(model.eval(v, model_completion=True)) else 0
        x = model.eval(v, model_completion=True)
        return x.as_long() if z3.is_bv_value(x) else 0

    def query_int(self, pc, extra, timeout):
        """bit-vectors decided by translation to integers"""
        t0 = time.time()
        self.stats.queries += 1
        try:
            s = z3.SimpleSolver()
            s.set('bv.solver', 2)
            s.set('timeout', int(timeout))
            s.add(*pc)
            s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            if m is not None:
                # guard against an incomplete model of the translation
                for c in list(pc) + list(extra):
                    if not z3.is_true(m.eval(c, model_completion=True)):
                        r, m = z3.unknown, None
                        break
        except z3.Z3Exception as e:
            self.notes.append('z3: %s' % e)
            r, m = z3.unknown, None
        self.stats.solver_s += time.time() - t0
        return str(r), m

    def query_cvc5(self, pc, extra, timeout, bvint=True):
        """second solver; only its unsat verdict is used"""
        t0 = time.time()
        self.stats.queries += 1
        s = z3.Solver()
        s.add(*pc)
        s.add(*extra)
        txt = s.to_smt2()
        txt = txt.replace('ubv_to_int', 'bv2nat').replace('int_to_bv', 'int2bv')
        cmd = ['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout)]
        if bvint and 'sbv_to_int' not in txt and 'bv2nat' not in txt:
            cmd.append('--solve-bv-as-int=sum')
        r = 'unknown'
        try:
            o = subprocess.run(cmd + ['-'], input='(set-logic ALL)\n' + txt, capture_output=True, text=True,
                               timeout=timeout / 1000 + 5).stdout
            if o.split('\n')[0].strip() == 'unsat':
                r = 'unsat'
        except (subprocess.TimeoutExpired, OSError):
            pass
        self.stats.solver_s += time.time() - t0
        return r, None

    def decide(self, pc, extra):
        """portfolio with the full assertion budget"""
        d = self.opts.get('dump')
        if d:
            s = z3.Solver()
            s.add(*pc)
            s.add(*extra)
            self.ndump = getattr(self, 'ndump', 0) + 1
            open('%s/q%d.smt2' % (d, self.ndump), 'w').write(s.to_smt2())
        if self.opts.get('gf2'):
            if self.opts['gf2'] == 'seg':
                g = self.gf2s
                cs = [g.canon(c) for c in extra]
                pcs = [g.canon(c) for c in pc]
                for leg, ms in ((self.query_fresh, 2000), (self.query_int, 8000), (self.query_fresh, 20000)):
                    r, m = leg(pcs, cs, min(self.assert_to, ms))
                    if r != 'unknown':
                        break
                if r == 'unsat':
                    return r, m
            g = self.gf2a
            cs = [g.canon(c) for c in extra]
            pcs = [g.canon(c) for c in pc]
            g = self.gf2
            r, m = self.query_fresh(pcs, cs, min(self.assert_to, 10000))
            if r == 'unsat':
                return r, m
            pc, extra = [g.canon(c) for c in pc], [g.canon(c) for c in extra]
        legs = dict(z=self.query, i=self.query_int, c=self.query_cvc5, f=self.query_fresh)
        r, m = 'unknown', None
        for k, ms in self.opts.get('portfolio', PORTFOLIO):
            r, m = legs[k](pc, extra, min(self.assert_to, ms))
            if r != 'unknown':
                break
        return r, m

    # ------------------------------------------------------- assertions
    def do_assert(self, st, c, msg):
        self.stats.asserts += 1
        if type(c) is int:
            if c:
                self.stats.proved_structural += 1
                return
            self.report(st, 'assert', msg)
            raise PathEnd('assert', msg)
        c = B(c)
        t0 = time.time()
        if self.opts.get('trace'):
            print('         ', msg, flush=True)
        r, m = self.decide(st.pc, [z3.Not(c)])
        if self.opts.get('trace'):
            print('%-8s %6.2fs %s' % (r, time.time() - t0, msg), flush=True)
        if r == 'unsat':
            self.stats.proved_solver += 1
            if self.opts.get('lemmas'):
                self.add_pc(st, c)      # proved on this path: usable from here on
            return
        if r == 'sat':
            self.report(st, 'assert', msg, z3.Not(c), model=m)
            if not self.feasible(st, c):
                raise PathEnd('assert', msg)
            self.add_pc(st, c)
            return
        self.stats.unknown += 1
        self.inconclusive.append(msg)

    # -------------------------------------------------------------- run
    def initial(self):
        st = State()
        _sid[0] += 1
        st.id = _sid[0]
        st.frames = []
        st.mem = {}
        st.pc = []
        st.sides = frozenset()
        st.steps = 0
        st.inputs = []
        st.calls = {}
        st.nobj = 100000
        st.trace = []
        st.eqs = []
        st.forks = 0
        st.data = {}
        st.rules = {}
        st.nthrow = 0
        st.eqcache = {}
        st.dec = None
        return st

    def push_fn(self, st, name, args, retdst=None, nxt=None, cb=None):
        f = self.mod.load_fn(name)
        if f.decl:
            raise Unsupported('external function ' + name)
        fr = Frame()
        fr.fn = f
        fr.bb = 0
        fr.ip = 0
        fr.prev = -1
        fr.retdst = retdst
        fr.allocas = []
        fr.nxt = nxt
        fr.cb = cb
        n = f.nregs - len(f.consts)
        if f.regs0 is None:
            f.regs0 = [self.cval(st, c) for c in f.consts]
        else:
            for c in f.consts:
                if c.k in ('global', 'expr', 'agg'):
                    self.touch(st, c)
        fr.regs = list(args) + [None] * (n - len(args)) + f.regs0
        st.frames.append(fr)
        self.stats.fns.add(name)
        if len(st.frames) > 300:
            raise Unsupported('call depth')

    def touch(self, st, c):
        if c.k == 'global':
            self.gptr(st, c.a)
        elif c.k == 'expr':
            for o in c.a[1]:
                self.touch(st, o)
        elif c.k == 'agg':
            for o in c.a:
                self.touch(st, o)

    def run_ctors(self, st):
        g = self.mod.globals.get('llvm.global_ctors')
        if not g:
            return st
        ini = self.mod.const(self.mod.L.LLVMGetInitializer(g))
        if ini.k != 'agg':
            return st
        for e in ini.a:
            fn = e.a[1].a
            snap = self.clone(st)
            try:
                self.push_fn(snap, fn, [])
                self.run_path(snap)
            except PathEnd as p:
                if p.kind == 'done':
                    snap.frames = []
                    st = snap
            except Unsupported as u:
                self.notes.append('static initialiser %s skipped: %s' % (fn, u))
            self.worklist = []
        return st

    def run(self, entry, args=None, st=None):
        t0 = time.time()
        if st is None:
            st = self.initial()
            st = self.run_ctors(st)
            st.steps = 0
        self.push_fn(st, entry, args or [])
        self.worklist = [st]
        ends = {}
        while self.worklist:
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append('time budget exhausted with %d paths pending' % len(self.worklist))
                break
            if self.stats.paths >= self.loop_limit:
                self.inconclusive.append('path budget exhausted with %d paths pending' % len(self.worklist))
                break
            s = self.worklist.pop()
            try:
                self.run_path(s)
            except PathEnd as p:
                ends[p.kind] = ends.get(p.kind, 0) + 1
                if p.kind == 'throw':
                    self.stats.thrown += 1
                    self.at_throw(s, p.msg)
            except Unsupported as u:
                where = ' <- '.join(f.fn.name for f in reversed(s.frames[-4:]))
                self.inconclusive.append('unsupported: %s in %s' % (u, where))
                ends['unsupported'] = ends.get('unsupported', 0) + 1
            self.stats.paths += 1
            if len(self.violations) - min(self.weak, 20) >= self.stop_after:
                break
        self.stats.ends = ends
        self.stats.wall = time.time() - t0
        return ends

    def at_throw(self, st, msg):
        if st.data.get('nothrow'):
            self.report(st, 'throw', 'exception escapes where none is allowed: %s' % msg)

    def run_path(self, st):
        frames = st.frames
        steps = 0
        H = HANDLERS
        while True:
            fr = frames[-1]
            code = fr.fn.blocks[fr.bb]
            ins = code[fr.ip]
            fr.ip += 1
            steps += 1
            if not steps & 0xfff:
                st.steps += 0x1000
                if st.steps > self.maxsteps:
                    self.stats.instrs += steps
                    # whether the real code ever comes back is for the replay to say
                    self.report(st, 'nontermination', 'the code keeps running')
                    raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline + 5:
                    raise Unsupported('time budget exhausted')
            h = ins.run
            if h is None:
                h = H.get(ins.op)
                if h is None:
                    raise Unsupported('instruction ' + ins.op)
                ins.run = h
            try:
                h(self, st, fr, ins)
            except (PathEnd, Unsupported):
                self.stats.instrs += steps
                raise
            if st.dec is not None:
                st.dec = None


def num(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_int_value(x):
        return float(x.as_long())
    return 0.0


def sgn64(x):
    return x


HANDLERS = {}


def handler(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def vecmap(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b))


def mkarith(op):
    def h(e, st, fr, i):
        r = fr.regs
        a = r[i.ops[0]]
        b = r[i.ops[1]]
        t = i.ty
        if t.kind == 'vector':
            if a is UNDEF:
                a = (0,) * t.n
            if b is UNDEF:
                b = (0,) * t.n
            w = t.el.w
            r[i.dst] = tuple(e.arith(op, x, y, w) for x, y in zip(a, b))
            return
        w = t.w
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if type(b) is int:
                if b == 0:
                    e.report(st, 'divzero', 'integer division by zero')
                    raise PathEnd('divzero')
            else:
                z = BV(b, w) == 0
                rr, m = e.query(st.pc, [z], e.feas_to)
                if rr == 'sat':
                    e.report(st, 'divzero', 'integer division by zero', z, model=m)
                    if not e.feasible(st, z3.Not(z)):
                        raise PathEnd('divzero')
                    e.add_pc(st, z3.Not(z))
        if i.x and e.checked_ovf and op in ('add', 'sub', 'mul') and not (type(a) is int and type(b) is int) \
                and isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
            x, y = BV(a, w), BV(b, w)
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            ok = z3.simplify(ok)
            if not z3.is_true(ok):
                rr, m = e.decide(st.pc, [z3.Not(ok)])
                if rr == 'sat':
                    e.report(st, 'overflow', 'signed integer overflow (%s) in %s' % (op, fr.fn.name), z3.Not(ok), model=m)
                elif rr == 'unknown':
                    e.inconclusive.append('overflow check')
        if op in ('sdiv', 'srem', 'udiv', 'urem') and type(b) is int and not isinstance(a, int) and w >= 16:
            sb = sgn(b, w) if op[0] == 's' else b
            if sb > 1 and sb & (sb - 1):
                r[i.dst] = e.constdiv(st, op, BV(a, w), sb, w)
                return
        r[i.dst] = e.arith(op, a, b, w)
    return h


def constdiv(self, st, op, x, c, w):
    """quotient and remainder by a constant as fresh values fixed by
    x = q*c + r (cheaper for the solver than a division circuit)"""
    if x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() % c == 0:
        # (C*X)/c without wrap-around
        C = x.arg(0).as_long()
        bs = self.gf2.bits(x.arg(1))
        n = len(bs)
        while n and bs[n - 1] == (0, 0):
            n -= 1
        if C * ((1 << n) - 1) < (1 << (w - 1 if op[0] == 's' else w)):
            return norm(x.arg(1) * z3.BitVecVal(C // c, w)) if op[1:] == 'div' else 0
    key = ('div', x.get_id(), c, op[0])
    got = st.data.get(key)
    if got is None:
        q, r = z3.BitVec(self.fresh('quot'), w), z3.BitVec(self.fresh('rem'), w)
        C = z3.BitVecVal(c, w)
        cs = [x == q * C + r]
        if op[0] == 's':
            m = ((1 << (w - 1)) - 1) // c
            cs.append(z3.If(x >= 0, z3.And(q >= 0, q <= m, r >= 0, r < C),
                            z3.And(q <= 0, q >= z3.BitVecVal(-(m + 1), w), r <= 0, r > -C)))
        else:
            m = ((1 << w) - 1) // c
            cs += [z3.ULE(q, m), z3.ULT(r, C), z3.ULE(q * C, x)]
        st.pc = st.pc + cs
        got = (q, r, x)
        st.data = dict(st.data)
        st.data[key] = got
    return got[0] if op[1:] == 'div' else got[1]


Engine.constdiv = constdiv
for _op in ('sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    HANDLERS[_op] = mkarith(_op)
_slow_add = mkarith('add')


@handler('add')
def h_add(e, st, fr, i):
    r = fr.regs
    a = r[i.ops[0]]
    b = r[i.ops[1]]
    if type(a) is int and type(b) is int:
        r[i.dst] = (a + b) & MASK[i.ty.w]
    else:
        _slow_add(e, st, fr, i)


def tor(v, w=64):
    if isinstance(v, R):
        return v
    return r_of_bits(v, w)


def mkf(op):
    fn = {'fadd': Rl.add, 'fsub': Rl.sub, 'fmul': Rl.mul, 'fdiv': Rl.div}.get(op)

    def h(e, st, fr, i):
        r = fr.regs
        a = r[i.ops[0]]
        b = r[i.ops[1]]
        if i.ty.kind == 'vector':
            out = []
            for x, y in zip(a, b):
                x, y = tor(x), tor(y)
                z = fn(x, y)
                if op == 'fdiv':
                    e.side(st, z)
                out.append(z)
            r[i.dst] = tuple(out)
            return
        a, b = tor(a), tor(b)
        if op == 'frem':
            if a.op == 'c' and b.op == 'c':
                r[i.dst] = Rl.const(math.fmod(a.args[0], b.args[0]))
                return
            q = e.side(st, Rl.div(a, b))
            r[i.dst] = Rl.sub(a, Rl.mul(b, Rl.rnd('trunc', q)))
            return
        z = fn(a, b)
        if op == 'fdiv' and z.op not in ('c', 'sp'):
            if e.divzero == 'check':
                c = Rl.z(b) == 0
                e.report(st, 'fdivzero', 'floating division by zero', c)
            e.side_div(st, b)
        r[i.dst] = z
    return h


def side_div(self, st, b):
    if b.op == 'c':
        return
    key = ('/', b.id)
    if key not in st.sides:
        st.sides = st.sides | {key}
        c = z3.simplify(Rl.z(b) != 0)
        if not z3.is_true(c):
            st.pc = st.pc + [c]


Engine.side_div = side_div
for _op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    HANDLERS[_op] = mkf(_op)


@handler('fneg')
def h_fneg(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    fr.regs[i.dst] = tuple(Rl.neg(tor(x)) for x in a) if isinstance(a, tuple) else Rl.neg(tor(a))


@handler('icmp')
def h_icmp(e, st, fr, i):
    r = fr.regs
    t = i.tys[0]
    a, b = r[i.ops[0]], r[i.ops[1]]
    if t.kind == 'vector':
        r[i.dst] = tuple(e.icmp(i.x, x, y, t.el.w) for x, y in zip(a, b))
        return
    r[i.dst] = e.icmp(i.x, a, b, t.w)


def at_zero(e, tid, a, b):
    memo = e.__dict__.setdefault('_at_zero', {})
    out = []
    for x in (a, b):
        k = (tid, x.id)
        if k not in memo:
            d = Rl.subst(x, {tid: Rl.ZERO})
            v = None
            if not any(y.op == 'v' for y in Rl.post([d])):
                try:
                    v = Rl.eval_mp([d], {})[0]
                except Exception:
                    v = None
            memo[k] = (v, x)
        v = memo[k][0]
        if v is None or v != v or abs(v) > 1e300:
            return None
        out.append(v)
    if abs(out[0] - out[1]) <= 1e-9 * max(1.0, abs(out[0]), abs(out[1])) and abs(out[0] - out[1]) <= 1e-3 * max(abs(out[0]), abs(out[1])):
        return None
    return [Fraction(x) for x in out]


@handler('fcmp')
def h_fcmp(e, st, fr, i):
    r = fr.regs
    t = i.tys[0]
    a, b = r[i.ops[0]], r[i.ops[1]]
    if t.kind == 'vector':
        r[i.dst] = tuple(e.fcmp(i.x, x, y) for x, y in zip(a, b))
        return
    tid = st.calls.get('jvp_t')
    if tid is not None and isR(a) and isR(b) and a.op not in ('bits', 'sp') and b.op not in ('bits', 'sp'):
        # inside a directional derivative the step is arbitrarily small: an operand pair that is constant and
        # clearly apart at step zero keeps its order (the operands are continuous there)
        v = at_zero(e, tid, a, b)
        if v is not None:
            r[i.dst] = e.fcmp(i.x, Rl.const(v[0]), Rl.const(v[1]))
            return
    if e.opts.get('nf_cmp') and isR(a) and isR(b) and a.op not in ('bits', 'sp') and b.op not in ('bits', 'sp') and \
            (len(a.args) > 1 or len(b.args) > 1):
        from . import models
        a, b = models.cmp_norm(e, st, a, b)
    r[i.dst] = e.fcmp(i.x, a, b)


@handler('br')
def h_br(e, st, fr, i):
    if not i.ops:
        goto(e, st, fr, i.x)
        return
    c = fr.regs[i.ops[0]]
    if type(c) is int:
        goto(e, st, fr, i.x[0] if c else i.x[1])
        return
    if c is UNDEF:
        raise Unsupported('branch on undefined value')
    goto(e, st, fr, i.x[0] if e.choose(st, c) else i.x[1])


def goto(e, st, fr, bb):
    prev = fr.bb
    fr.bb = bb
    fr.ip = 0
    code = fr.fn.blocks[bb]
    if code[0].op == 'phi':
        vals = []
        n = 0
        r = fr.regs
        for s in code:
            if s.op != 'phi':
                break
            vals.append((s.dst, r[s.x[prev]]))
            n += 1
        for d, v in vals:
            r[d] = v
        fr.ip = n


@handler('switch')
def h_switch(e, st, fr, i):
    c = fr.regs[i.ops[0]]
    w = i.tys[0].w
    d, cases = i.x
    if type(c) is int:
        for v, b in cases:
            if v == c:
                goto(e, st, fr, b)
                return
        goto(e, st, fr, d)
        return
    c = BV(c, w)
    for v, b in cases:
        if e.choose(st, c == v):
            goto(e, st, fr, b)
            return
    goto(e, st, fr, d)


@handler('ret')
def h_ret(e, st, fr, i):
    v = fr.regs[i.ops[0]] if i.ops else None
    do_ret(e, st, fr, v)


def do_ret(e, st, fr, v):
    for a in fr.allocas:
        o = e.wobj(st, a)
        o.freed = True
        o.cells = {}
    st.frames.pop()
    if not st.frames:
        raise PathEnd('done')
    if fr.cb is not None:
        fr.cb(e, st, v)
        return
    up = st.frames[-1]
    if fr.retdst is not None:
        up.regs[fr.retdst] = v
    if fr.nxt is not None:
        goto(e, st, up, fr.nxt)


@handler('alloca')
def h_alloca(e, st, fr, i):
    n = fr.regs[i.ops[0]]
    if type(n) is not int:
        raise Unsupported('variable alloca')
    o = e.new_obj(st, i.x.size * n, 'stack', fr.fn.name)
    fr.allocas.append(o.id)
    fr.regs[i.dst] = Ptr(o.id, 0)


@handler('load')
def h_load(e, st, fr, i):
    p = fr.regs[i.ops[0]]
    t = i.ty
    # fast path
    if isinstance(p, Ptr) and type(p.off) is int:
        o = st.mem.get(p.o)
        if o is not None and not o.freed and o.lazy is None:
            c = o.cells.get(p.off)
            if c is not None and c[0] == t.ssize and 0 <= p.off and p.off + t.ssize <= o.size:
                v = c[1]
                k = t.kind
                if k == 'int':
                    if t.w == 8 * t.ssize:
                        fr.regs[i.dst] = v
                        return
                elif k == 'double':
                    if isinstance(v, R):
                        fr.regs[i.dst] = v
                        return
                elif k == 'ptr' and isinstance(v, Ptr):
                    fr.regs[i.dst] = v
                    return
    fr.regs[i.dst] = e.load_ty(st, p, t)


@handler('store')
def h_store(e, st, fr, i):
    e.store_ty(st, fr.regs[i.ops[1]], i.tys[0], fr.regs[i.ops[0]])


@handler('gep')
def h_gep(e, st, fr, i):
    r = fr.regs
    ops = i.ops
    p = r[ops[0]]
    if len(ops) == 2:
        v = r[ops[1]]
        if type(v) is int and isinstance(p, Ptr) and type(p.off) is int:
            w = i.tys[1].w
            r[i.dst] = Ptr(p.o, p.off + sgn(v, w) * i.x.size)
            return
    if isinstance(p, tuple):
        raise Unsupported('vector gep')
    r[i.dst] = e.padd(p, e.gep_off(i.x, [r[o] for o in ops[1:]], [t.w for t in i.tys[1:]]))


@handler('trunc')
def h_trunc(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    w = i.ty.w
    if i.ty.kind == 'vector':
        fr.regs[i.dst] = tuple(trunc1(e, x, i.tys[0].el.w, i.ty.el.w) for x in a)
        return
    fr.regs[i.dst] = trunc1(e, a, i.tys[0].w, w)


def trunc1(e, a, w0, w):
    if type(a) is int:
        return a & MASK[w]
    if a is UNDEF:
        return UNDEF
    x = BV(a, w0)
    if w == 1:
        return norm(z3.Extract(0, 0, x) == 1)
    return norm(z3.Extract(w - 1, 0, x))


@handler('zext')
def h_zext(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    if i.ty.kind == 'vector':
        fr.regs[i.dst] = tuple(zext1(x, i.tys[0].el.w, i.ty.el.w) for x in a)
        return
    fr.regs[i.dst] = a if type(a) is int else zext1(a, i.tys[0].w, i.ty.w)


def zext1(a, w0, w):
    if type(a) is int:
        return a
    if a is UNDEF:
        return UNDEF
    if isinstance(a, z3.BoolRef):
        return BV(a, w)
    return norm(z3.ZeroExt(w - w0, BV(a, w0)))


@handler('sext')
def h_sext(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    if i.ty.kind == 'vector':
        fr.regs[i.dst] = tuple(sext1(x, i.tys[0].el.w, i.ty.el.w) for x in a)
        return
    fr.regs[i.dst] = sext1(a, i.tys[0].w, i.ty.w)


def sext1(a, w0, w):
    if type(a) is int:
        return sgn(a, w0) & MASK[w]
    if a is UNDEF:
        return UNDEF
    if isinstance(a, z3.BoolRef):
        return z3.If(a, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
    return norm(z3.SignExt(w - w0, BV(a, w0)))


@handler('bitcast', 'addrspacecast', 'freeze')
def h_bitcast(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    t, s = i.ty, i.tys[0] if i.tys else i.ty
    if i.op == 'freeze' and a is UNDEF:
        a = e.zero_of(t)
    if t.kind == 'double' and s.kind == 'int':
        a = r_of_bits(a, 64)
    elif t.kind == 'float' and s.kind == 'int':
        a = r_of_bits(a, 32)
    elif t.kind == 'vector' or s.kind == 'vector':
        if t.kind == 'vector' and s.kind == 'vector' and t.el.ssize == s.el.ssize:
            if t.el.kind == 'double':
                a = tuple(r_of_bits(x, 64) for x in a)
        elif t.kind != 'vector' or s.kind != 'vector' or t.n != s.n:
            o = e.new_obj(st, max(t.size, s.size), 'stack', 'cast')
            e.store_ty(st, Ptr(o.id, 0), s, a)
            a = e.load_ty(st, Ptr(o.id, 0), t)
    elif t.kind == 'int' and isinstance(a, R):
        # keep as R (opaque 64-bit payload)
        if a.op in ('c', 'sp', 'bits'):
            a = rbits(a, t.w)
    fr.regs[i.dst] = a


@handler('ptrtoint')
def h_p2i(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    if i.ty.w != 64 and isinstance(a, (Ptr, FnPtr)):
        a = paddr(a) & MASK[i.ty.w]
    fr.regs[i.dst] = a


@handler('inttoptr')
def h_i2p(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    if type(a) is int and a >= BASE:
        oid = (a - BASE) >> 24
        if oid in st.mem:
            a = Ptr(oid, (a - BASE) & 0xffffff)
    fr.regs[i.dst] = a


@handler('select')
def h_select(e, st, fr, i):
    r = fr.regs
    c, a, b = r[i.ops[0]], r[i.ops[1]], r[i.ops[2]]
    if isinstance(c, tuple):
        r[i.dst] = tuple(sel(e, st, k, x, y, i.ty.el) for k, x, y in zip(c, a, b))
        return
    r[i.dst] = sel(e, st, c, a, b, i.ty)


def sel(e, st, c, a, b, t):
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    k = t.kind
    if k == 'int' and not isinstance(a, (Ptr, FnPtr, R)) and not isinstance(b, (Ptr, FnPtr, R)):
        if type(a) is int and type(b) is int and a == b:
            return a
        if t.w == 1:
            return norm(z3.If(B(c), B(a), B(b)))
        return norm(z3.If(B(c), BV(a, t.w), BV(b, t.w)))
    if k in ('double', 'float'):
        a, b = tor(a), tor(b)
        if a is b:
            return a
        if not e.fork_select_real:
            if a.op not in ('sp', 'bits') and b.op not in ('sp', 'bits'):
                return Rl.ite(B(c), a, b)
    if k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
        if type(a.off) is int and type(b.off) is int and a.off == b.off:
            return a
        if st.mem[a.o].size <= 4096 and not e.opts.get('fork_select_ptr'):
            return Ptr(a.o, norm(z3.If(B(c), BV(a.off & MASK[64] if type(a.off) is int else a.off, 64),
                                       BV(b.off & MASK[64] if type(b.off) is int else b.off, 64))))
    return a if e.choose(st, c) else b


@handler('fptosi', 'fptoui')
def h_fptosi(e, st, fr, i):
    a = tor(fr.regs[i.ops[0]])
    w = i.ty.w
    if e.opts.get('fork_round'):
        from . import models
        r = models.fork_rnd(e, st, 'trunc', a)
        a = a if r is None else r
    fr.regs[i.dst] = real_to_int(e, st, a, w)


def real_to_int(e, st, a, w):
    a = Rl.rnd('trunc', a)
    if a.op == 'c':
        return int(a.args[0]) & MASK[w]
    if a.op == 'sp':
        return 1 << (w - 1)
    # integer-valued multiple of an integer
    k = Fraction(1)
    x = a
    if x.op == '*' and x.args[0].op == 'c':
        k = x.args[0].args[0]
        x = x.args[1]
    if x.op == 'i2r' and k.denominator == 1:
        bv, s = x.args
        n = bv.size()
        if n < w:
            bv = z3.SignExt(w - n, bv) if s else z3.ZeroExt(w - n, bv)
        elif n > w:
            bv = z3.Extract(w - 1, 0, bv)
        return norm(bv * z3.BitVecVal(int(k) & MASK[w], w)) if k != 1 else norm(bv)
    nm = e.fresh('r2i')
    v = z3.BitVec(nm, w)
    # v = trunc(a)
    e.add_pc(st, z3.ToReal(z3.BV2Int(v, True)) == Rl.z(a))
    return v


@handler('sitofp', 'uitofp')
def h_sitofp(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    s = i.op == 'sitofp'
    if i.ty.kind == 'vector':
        fr.regs[i.dst] = tuple(itor(x, i.tys[0].el.w, s) for x in a)
        return
    w = i.tys[0].w
    if e.opts.get('fork_round') and type(a) is not int and a is not UNDEF and w > 1:
        for k in (1, -1, 0):    # the sign of a number
            if e.choose(st, BV(a, w) == z3.BitVecVal(k, w)):
                a = k & ((1 << w) - 1)
                break
    fr.regs[i.dst] = itor(a, w, s)


def itor(a, w, signed):
    if type(a) is int:
        return Rl.const(sgn(a, w) if signed else a)
    if a is UNDEF:
        return Rl.ZERO
    if isinstance(a, z3.BoolRef):
        a = BV(a, w)
    return Rl.i2r(a, signed)


@handler('fptrunc', 'fpext')
def h_fpt(e, st, fr, i):
    a = fr.regs[i.ops[0]]
    if isinstance(a, tuple):
        fr.regs[i.dst] = a
        return
    a = tor(a)
    if i.op == 'fptrunc' and a.op == 'c' and i.ty.kind == 'float':
        a = Rl.const(struct.unpack('<f', struct.pack('<f', float(a.args[0])))[0])
    fr.regs[i.dst] = a


@handler('extractvalue')
def h_ev(e, st, fr, i):
    v = fr.regs[i.ops[0]]
    for k in i.x:
        v = UNDEF if v is UNDEF else v[k]
    fr.regs[i.dst] = v


@handler('insertvalue')
def h_iv(e, st, fr, i):
    v = fr.regs[i.ops[0]]
    if v is UNDEF:
        v = e.zero_of(i.ty)
    fr.regs[i.dst] = ins(v, i.x, fr.regs[i.ops[1]])


def ins(v, path, x):
    k = path[0]
    return v[:k] + ((x if len(path) == 1 else ins(v[k], path[1:], x)),) + v[k + 1:]


@handler('extractelement')
def h_ee(e, st, fr, i):
    v, k = fr.regs[i.ops[0]], fr.regs[i.ops[1]]
    if v is UNDEF:
        fr.regs[i.dst] = UNDEF
        return
    fr.regs[i.dst] = v[k]


@handler('insertelement')
def h_ie(e, st, fr, i):
    v, x, k = fr.regs[i.ops[0]], fr.regs[i.ops[1]], fr.regs[i.ops[2]]
    if v is UNDEF:
        v = (UNDEF,) * i.ty.n
    fr.regs[i.dst] = v[:k] + (x,) + v[k + 1:]


@handler('shufflevector')
def h_sv(e, st, fr, i):
    a, b = fr.regs[i.ops[0]], fr.regs[i.ops[1]]
    n = i.tys[0].n
    if a is UNDEF:
        a = (UNDEF,) * n
    if b is UNDEF:
        b = (UNDEF,) * n
    ab = a + b
    fr.regs[i.dst] = tuple(UNDEF if m < 0 else ab[m] for m in i.x)


@handler('fence')
def h_fence(e, st, fr, i):
    pass


@handler('unreachable')
def h_unr(e, st, fr, i):
    raise PathEnd('unreachable')


@handler('landingpad', 'resume')
def h_lp(e, st, fr, i):
    raise PathEnd('throw', 'landingpad')


@handler('atomicrmw')
def h_armw(e, st, fr, i):
    p = fr.regs[i.ops[0]]
    t = i.ty
    old = e.load_ty(st, p, t)
    v = fr.regs[i.ops[1]]
    op = i.x
    new = v if op == 'xchg' else e.arith(op, old, v, t.w)
    e.store_ty(st, p, t, new)
    fr.regs[i.dst] = old


@handler('call', 'invoke')
def h_call(e, st, fr, i):
    name, callee, nxt, byv, skip = i.x
    if skip:
        return
    r = fr.regs
    if name is None:
        if callee is None:
            return   # inline asm
        p = r[callee]
        if isinstance(p, FnPtr):
            name = p.name
        else:
            if isinstance(p, int) and p == 0:
                e.fail_mem(st, 'call through null pointer')
            raise Unsupported('indirect call through %r' % (p,))
    args = [r[o] if o is not None else None for o in i.ops]
    m = e.find_model(name)
    if m is not None:
        v = m(e, st, fr, i, args)
        if v is PUSHED:
            return
        r[i.dst] = v
        if nxt is not None:
            goto(e, st, fr, nxt)
        return
    f = e.mod.fns.get(name)
    if f is None or f.decl:
        raise Unsupported('external function ' + name)
    if byv:
        for k, sz in byv.items():
            o = e.new_obj(st, sz, 'stack', 'byval')
            e.copy(st, Ptr(o.id, 0), args[k], sz)
            args[k] = Ptr(o.id, 0)
    n = f.nparams
    e.push_fn(st, name, args[:n], i.dst, nxt)


class _P:
    pass


PUSHED = _P()
