"""Symbolic executor for rustc-produced LLVM IR (whole program, std included).

Every harness input is an SMT variable.  Execution forks at a branch only when the solver finds both
sides satisfiable under the path condition; every check is a satisfiability query of its negation.
Anything the engine does not model raises Unsupported (the run is then inconclusive, never "holds")."""
import os, re, struct, sys, time, math
import z3
from llparse import (Module, P, T, IntT, PTR, FLOAT, DOUBLE, VOID, META, tokenize, ParseError)

z3.set_param('model.completion', True)


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class NeedText(Exception):
    """The program looks at text whose formatting was skipped: run again with core::fmt executed."""


class Unformatted:
    """Length of a String whose formatting was skipped.  It can be moved and dropped; any other use raises NeedText."""
    __slots__ = ()

    def size(self): return 64

    def _use(self, *a, **k): raise NeedText()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _use
    __lshift__ = __rshift__ = __rlshift__ = __rrshift__ = __neg__ = __invert__ = __mod__ = __rmod__ = __floordiv__ = _use
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __int__ = __index__ = __getitem__ = __getattr__ = to_bytes = _use
    __hash__ = object.__hash__


UNFORMATTED = Unformatted()


class PathEnd(Exception):
    def __init__(self, kind, msg='', loc=''):
        self.kind = kind; self.msg = msg; self.loc = loc


RELOAD = object()
M64 = (1 << 64) - 1
PAGE = 20          # every object lives in its own 1 MiB slot: id = addr >> 20
FNBASE = 0x7f0000000000
RNE = z3.RNE(); RTZ = z3.RTZ(); RNA = z3.RNA(); RTP = z3.RTP(); RTN = z3.RTN()
F32 = z3.Float32(); F64 = z3.Float64()
BV = z3.BitVecVal
Extract = z3.Extract
is_int = int


def isfp(v): return isinstance(v, z3.FPRef)


def bv(v, w):
    if type(v) is int: return BV(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, BV(1, w), BV(0, w))
    if v is UNFORMATTED: raise NeedText()
    return v


def boolv(v):
    if type(v) is int: return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return v
    if v is UNFORMATTED: raise NeedText()
    return v == 1


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---- concrete floats are carried as IEEE bit patterns
def f_dec(bits, dbl):
    return struct.unpack('<d', struct.pack('<Q', bits))[0] if dbl else struct.unpack('<f', struct.pack('<I', bits))[0]


def f_enc(x, dbl):
    if dbl: return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


FPUSED = [False]     # set once a run has built a symbolic floating-point term


def fp(v, dbl):
    """z3 FP term of a float value."""
    if type(v) is int:
        return z3.simplify(z3.fpBVToFP(BV(v, 64 if dbl else 32), F64 if dbl else F32))
    FPUSED[0] = True
    if isfp(v): return v
    return z3.fpBVToFP(v, F64 if dbl else F32)


def fsimp(e):
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        b = z3.simplify(z3.fpToIEEEBV(e))
        if z3.is_bv_value(b): return b.as_long()
    return e


class Obj:
    __slots__ = ('size', 'data', 'sym', 'owner', 'alive', 'const', 'kind')

    def __init__(self, size, data=None, owner=None, const=False, kind='heap'):
        self.size = size
        self.data = data if data is not None else bytearray(size)
        self.sym = None          # {offset: (bvexpr, byteindex)}
        self.owner = owner
        self.alive = True
        self.const = const
        self.kind = kind

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.data = bytearray(self.data)
        o.sym = dict(self.sym) if self.sym else None
        o.owner = owner
        o.alive = self.alive
        o.const = self.const
        o.kind = self.kind
        return o


class Frame:
    __slots__ = ('fn', 'r', 'code', 'ip', 'dst', 'allocas', 'nblk')


class CFunc:
    """Compiled function."""
    __slots__ = ('name', 'template', 'nparams', 'entry', 'blocks', 'rett', 'short')


class State:
    __slots__ = ('frames', 'mem', 'nid', 'owner', 'pc', 'model', 'inputs', 'covers', 'emits', 'blocks', 'branches', 'ex', 'notes', 'pins')

    def fork(self):
        s = State()
        ex = self.ex
        s.ex = ex
        s.frames = []
        for f in self.frames:
            g = Frame()
            g.fn = f.fn; g.r = f.r.copy(); g.code = f.code; g.ip = f.ip; g.dst = f.dst; g.allocas = f.allocas.copy() if f.allocas else None
            s.frames.append(g)
        s.mem = self.mem.copy()
        s.nid = self.nid
        ex.owner_ctr += 2
        self.owner = ex.owner_ctr - 1
        s.owner = ex.owner_ctr
        s.pc = self.pc.copy()
        s.model = self.model
        s.inputs = self.inputs.copy()
        s.covers = self.covers.copy()
        s.emits = self.emits.copy()
        s.blocks = self.blocks
        s.branches = self.branches
        s.notes = self.notes.copy()
        s.pins = self.pins
        return s


class Violation:
    def __init__(self, kind, msg, loc, inputs, where):
        self.kind = kind; self.msg = msg; self.loc = loc; self.inputs = inputs; self.where = where

    def key(self):
        return (self.kind, self.msg, self.loc)


class Executor:
    def __init__(self, path, query_timeout_ms=60000, max_blocks=3_000_000, max_paths=None, deadline=None, stop_after=1, fp_hint=False):
        self.mod = Module(path)
        self.cfuncs = {}
        self.gaddr = {}
        self.gobjs = {}       # id -> Obj template for globals
        self.faddr = {}
        self.fn_by_addr = {}
        self.next_gid = 16
        self.owner_ctr = 1
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.qt = query_timeout_ms
        self.sstack = []
        self.queries = 0
        self.unsat = 0
        self.solver_time = 0.0
        self.violations = []
        self.vkeys = set()
        self.paths = 0
        self.ends = {}
        self.covers = {}
        self.checks = {}
        self.max_blocks = max_blocks
        self.max_paths = max_paths
        self.deadline = deadline
        self.stop_after = stop_after
        self.visited = set()
        self.total_blocks = 0
        self.samples = []      # (inputs, kind, emits) per path, for translator validation
        self.keep_samples = 0; self.returned = 0
        self.fork_sites = {}
        self.stubs_used = set()
        self.on_path = None
        self.varcache = {}
        self.case = None; self.rng = None; self.tier = 0; self.real_fmt = False; self.text_skipped = False

    # ------------------------------------------------------------ globals & constants
    def func_addr(self, name):
        a = self.faddr.get(name)
        if a is None:
            a = FNBASE + 16 * (len(self.faddr) + 1)
            self.faddr[name] = a
            self.fn_by_addr[a] = name
        return a

    def sym_addr(self, name):
        m = self.mod
        if name in self.gaddr: return self.gaddr[name]
        if name in m.funcs or name in m.decls:
            return self.func_addr(name)
        line = m.globals.get(name)
        if line is None:
            raise Unsupported('unknown symbol ' + name)
        mm = re.match(r'(?:[\w()"]+ )*?alias ', line)
        if mm and ' alias ' in ' ' + line.split('"')[0]:
            p = P(tokenize(line[mm.end():]), m)
            t = p.type(); p.expect(',')
            pt = p.type()
            v = self.const(p, pt)
            self.gaddr[name] = v
            return v
        toks = tokenize(line)
        i = 0
        const = False
        while toks[i] not in ('global', 'constant'):
            if toks[i] == 'external' or toks[i] == 'extern_weak':
                self.gaddr[name] = 0
                return 0
            i += 1
        const = toks[i] == 'constant'
        p = P(toks, m); p.i = i + 1
        t = p.type()
        size = t.size()
        nslots = (size >> PAGE) + 1
        gid = self.next_gid
        self.next_gid += nslots
        self.gaddr[name] = gid << PAGE
        o = Obj(size, kind='global', const=const)
        self.gobjs[gid] = o
        v = self.const(p, t)
        self.write_const(o.data, 0, t, v)
        return gid << PAGE

    def write_const(self, data, off, t, v):
        k = t.k
        if v is None: return
        if k in ('int', 'ptr', 'float', 'double'):
            n = t.size()
            nb = (t.w + 7) // 8
            data[off:off + nb] = (v & ((1 << (8 * nb)) - 1)).to_bytes(nb, 'little')
        elif k == 'arr':
            if isinstance(v, (bytes, bytearray)):
                data[off:off + len(v)] = v
            else:
                s = t.el.size()
                for i, x in enumerate(v): self.write_const(data, off + i * s, t.el, x)
        elif k == 'struct':
            for o, e, x in zip(t.offs(), t.els, v): self.write_const(data, off + o, e, x)
        elif k == 'vec':
            s = t.el.size()
            for i, x in enumerate(v): self.write_const(data, off + i * s, t.el, x)
        else:
            raise Unsupported('const type ' + k)

    def zero(self, t):
        k = t.k
        if k in ('int', 'ptr', 'float', 'double'): return 0
        if k in ('arr', 'vec'):
            if k == 'arr' and t.el.k == 'int' and t.el.w == 8: return bytes(t.n)
            return tuple(self.zero(t.el) for _ in range(t.n))
        if k == 'struct': return tuple(self.zero(e) for e in t.els)
        if k == 'metadata': return None
        raise Unsupported('zero of ' + k)

    def const(self, p, t):
        """Parse a constant of type t."""
        x = p.peek()
        c = x[0]
        if x in ('zeroinitializer', 'undef', 'poison', 'null', 'none'):
            p.next(); return self.zero(t)
        if x == 'true': p.next(); return 1
        if x == 'false': p.next(); return 0
        if c == '@':
            p.next(); return self.sym_addr(x)
        if x.startswith('c"'):
            p.next(); return self.cstr(x)
        if t.k in ('float', 'double'):
            p.next()
            return self.fconst(x, t.k == 'double')
        if c.isdigit() or c == '-':
            p.next(); return int(x) & ((1 << t.w) - 1)
        if t.k == 'arr':
            p.expect('[')
            out = []
            if not p.accept(']'):
                while True:
                    et = p.type(); out.append(self.const(p, et))
                    if p.accept(']'): break
                    p.expect(',')
            return tuple(out)
        if t.k == 'struct':
            if t.packed: p.expect('<')
            p.expect('{')
            out = []
            if not p.accept('}'):
                while True:
                    et = p.type(); out.append(self.const(p, et))
                    if p.accept('}'): break
                    p.expect(',')
            if t.packed: p.expect('>')
            return tuple(out)
        if t.k == 'vec':
            if p.accept('splat'):
                p.expect('('); et = p.type(); v = self.const(p, et); p.expect(')')
                return (v,) * t.n
            p.expect('<')
            out = []
            while True:
                et = p.type(); out.append(self.const(p, et))
                if p.accept('>'): break
                p.expect(',')
            return tuple(out)
        # constant expressions
        if x == 'getelementptr':
            p.next()
            while p.peek() != '(':
                y = p.next()
                if y == 'inrange': p.skip_parens()
            p.expect('(')
            st = p.type(); p.expect(',')
            bt = p.type(); base = self.const(p, bt)
            idx = []
            while p.accept(','):
                it = p.type(); idx.append(sgn(self.const(p, it), it.w))
            p.expect(')')
            off = 0
            ty = st
            for n, i in enumerate(idx):
                if n == 0: off += i * ty.size()
                elif ty.k == 'struct': off += ty.offs()[i]; ty = ty.els[i]
                else: ty = ty.el; off += i * ty.size()
            return (base + off) & M64
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'ptrtoaddr'):
            p.next(); p.expect('(')
            st = p.type(); v = self.const(p, st); p.expect('to'); dt = p.type(); p.expect(')')
            return v & ((1 << dt.w) - 1)
        if x in ('add', 'sub', 'xor'):
            p.next()
            while p.peek() != '(': p.next()
            p.expect('(')
            at = p.type(); a = self.const(p, at); p.expect(','); bt = p.type(); b = self.const(p, bt); p.expect(')')
            r = a + b if x == 'add' else a - b if x == 'sub' else a ^ b
            return r & ((1 << at.w) - 1)
        raise Unsupported('constant %r of %r' % (x, t))

    @staticmethod
    def fconst(x, dbl):
        if x.startswith('f0x'):
            return int(x[3:], 16)
        if x.startswith('0x'):
            b = int(x[2:], 16)          # always the double pattern
            if dbl: return b
            return f_enc(f_dec(b, True), False)
        if x in ('inf', '+inf', '-inf', 'nan', '+nan', '-nan', '+qnan', '-qnan', 'qnan'):
            return f_enc({'i': math.inf}.get(x.lstrip('+-')[0], math.nan) * (-1 if x[0] == '-' else 1), dbl)
        return f_enc(float(x), dbl)

    @staticmethod
    def cstr(x):
        s = x[2:-1]
        out = bytearray()
        i = 0
        if '\\' not in s:
            return s.encode('utf-8', 'surrogateescape')
        while i < len(s):
            ch = s[i]
            if ch == '\\':
                if s[i + 1] == '\\': out.append(92); i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out += ch.encode('utf-8', 'surrogateescape'); i += 1
        return bytes(out)

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind):
        nid = st.nid
        st.nid = nid + (size >> PAGE) + 1
        st.mem[nid] = Obj(size, owner=st.owner, kind=kind)
        return nid << PAGE

    def obj(self, st, addr, n, write=False):
        oid = addr >> PAGE
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
            if o is None:
                # large objects span several slots
                k = oid
                for _ in range(64):
                    k -= 1
                    o = st.mem.get(k) or self.gobjs.get(k)
                    if o is not None: break
                if o is None or (addr - (k << PAGE)) >= o.size:
                    raise PathEnd('ub', 'access to unallocated memory at 0x%x' % addr, self.where(st))
                oid = k
            if write:
                if o.const: raise PathEnd('ub', 'write to constant', self.where(st))
                o = o.copy(st.owner)
                st.mem[oid] = o
        elif write and o.owner != st.owner:
            o = o.copy(st.owner)
            st.mem[oid] = o
        off = addr - (oid << PAGE)
        if off + n > o.size or not o.alive:
            raise PathEnd('ub', ('use after free' if not o.alive else 'out-of-bounds access') + ' (%s object of %d bytes, offset %d, %d bytes)' % (o.kind, o.size, off, n), self.where(st))
        return o, off

    def load_bits(self, st, addr, n):
        """n bytes at a concrete address -> int or BitVec(8n)"""
        if n == 0: return 0
        o, off = self.obj(st, addr, n)
        sym = o.sym
        if sym:
            for i in range(off, off + n):
                if i in sym:
                    return self.load_sym(o, off, n)
        return int.from_bytes(o.data[off:off + n], 'little')

    @staticmethod
    def load_sym(o, off, n):
        sym = o.sym
        e0 = sym.get(off)
        # only as a whole, see Unformatted
        if e0 is not None and e0[1] == 0 and e0[0].size() == 8 * n:
            ok = True
            for i in range(1, n):
                e = sym.get(off + i)
                if e is None or e[0] is not e0[0] or e[1] != i:
                    ok = False; break
            if ok: return e0[0]
        parts = []
        i = n - 1
        data = o.data
        if any(e is not None and e[0] is UNFORMATTED for e in (sym.get(off + k) for k in range(n))): raise NeedText()
        while i >= 0:
            e = sym.get(off + i)
            if e is None:
                parts.append(BV(data[off + i], 8))
                i -= 1
            else:
                # run of descending bytes of the same expression
                j = i
                while j > 0:
                    f = sym.get(off + j - 1)
                    if f is None or f[0] is not e[0] or f[1] != e[1] - (i - j) - 1: break
                    j -= 1
                lo = e[1] - (i - j)
                x = e[0]
                if lo == 0 and 8 * (e[1] + 1) == x.size(): parts.append(x)
                else: parts.append(Extract(8 * e[1] + 7, 8 * lo, x))
                i = j - 1
        r = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        return simp(r)

    def store_bits(self, st, addr, n, v):
        if n == 0: return
        o, off = self.obj(st, addr, n, True)
        if type(v) is int:
            o.data[off:off + n] = v.to_bytes(n, 'little')
            if o.sym:
                for i in range(off, off + n): o.sym.pop(i, None)
        else:
            if o.sym is None: o.sym = {}
            sym = o.sym
            for i in range(n): sym[off + i] = (v, i)

    def read_bytes(self, st, addr, n):
        """list of per-byte values (int or BV8)"""
        if n == 0: return []
        o, off = self.obj(st, addr, n)
        out = list(o.data[off:off + n])
        if o.sym:
            for i in range(n):
                e = o.sym.get(off + i)
                if e is not None: out[i] = self.byte_of(e)
        return out

    @staticmethod
    def byte_of(e):
        x, i = e
        if x.size() == 8: return x
        if x is UNFORMATTED: raise NeedText()
        return simp(Extract(8 * i + 7, 8 * i, x))

    def copy_mem(self, st, dst, src, n):
        if n == 0: return
        so, soff = self.obj(st, src, n)
        data = bytes(so.data[soff:soff + n])
        syms = None
        if so.sym:
            ss = so.sym
            syms = [(i, ss[soff + i]) for i in range(n) if (soff + i) in ss]
        do, doff = self.obj(st, dst, n, True)
        do.data[doff:doff + n] = data
        if do.sym:
            for i in range(doff, doff + n): do.sym.pop(i, None)
        if syms:
            if do.sym is None: do.sym = {}
            for i, e in syms: do.sym[doff + i] = e

    # ------------------------------------------------------------ solver
    def sync(self, st):
        pc = st.pc
        stk = self.sstack
        i = 0
        n = min(len(pc), len(stk))
        while i < n and pc[i] is stk[i]: i += 1
        if len(stk) > i:
            self.solver.pop(len(stk) - i)
            del stk[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            stk.append(c)

    def query(self, st, cond):
        """sat(pc & cond)? -> model or None"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline: raise Inconclusive('time budget exhausted')
        if st.pins:
            cond = self.pinned(st, cond)
            if z3.is_false(cond): return None
            if st.model is not None and z3.is_true(cond): return st.model
        self.queries += 1
        if FPUSED[0]:
            r, m = self.retry(st, cond)
            self.solver_time += time.time() - t0
            if r == z3.unsat:
                self.unsat += 1
                return None
            return m
        self.sync(st)
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        m = None
        if r == z3.sat: m = self.solver.model()
        why = self.solver.reason_unknown() if r == z3.unknown else ''
        self.solver.pop()
        if r == z3.unknown:
            r, m = self.retry(st, cond)
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            self.unsat += 1
            return None
        return m

    def retry(self, st, cond):
        """Fresh non-incremental solver (bit-blasting tactic) for a query the incremental one gave up on."""
        why = []
        for k in range(3):
            if k == 0: s = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver()
            elif k == 1: s = z3.Tactic('qffpbv').solver()
            else: s = z3.Solver()
            s.set('timeout', self.qt * 4)
            for c in st.pc: s.add(c)
            s.add(cond)
            r = s.check()
            if r != z3.unknown: break
            why.append(s.reason_unknown())
            if os.environ.get('VERIF_DUMPQ'):
                open('/tmp/q%d.smt2' % k, 'w').write(s.to_smt2())
        else: raise Inconclusive('solver gave up: ' + '; '.join(why))
        return r, (s.model() if r == z3.sat else None)

    def may(self, st, cond):
        """Feasibility of cond under pc; returns a model or None."""
        m = st.model
        if m is not None and z3.is_true(m.eval(cond, model_completion=True)): return m
        return self.query(st, cond)

    def model_of(self, st):
        if st.model is None:
            m = self.query(st, z3.BoolVal(True))
            if m is None: raise PathEnd('infeasible')
            st.model = m
        return st.model

    def add(self, st, cond, model):
        st.pc.append(cond)
        st.model = model
        if z3.is_eq(cond):
            a, b = cond.children()
            if z3.is_bv_value(a): a, b = b, a
            if z3.is_bv_value(b) and z3.is_const(a) and not z3.is_bv_value(a) and z3.is_bv(a): st.pins += ((a, b),)

    # inputs the path condition leaves a single value (shown by the solver) are replaced by it
    def pinned(self, st, e): return z3.simplify(z3.substitute(e, *st.pins))

    def sole_var(self, e):
        """The only variable of a small term, or None."""
        todo = [e]; seen = set(); var = None
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if len(seen) > 100: return None
            k = x.num_args()
            if k: todo.extend(x.arg(j) for j in range(k))
            elif not z3.is_bv(x) or x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not z3.is_bv(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: return None
                    continue
                if var is not None: return None
                var = x
        return var

    def pin(self, st, e):
        """After e got a single value: is its variable down to one value, too?"""
        var = self.sole_var(e)
        if var is None or any(var.eq(x) for x, _ in st.pins): return
        v = BV(self.model_of(st).eval(var, model_completion=True).as_long(), var.size())
        if self.query(st, var != v) is None: st.pins += ((var, v),)

    def concretize(self, st, e, site):
        """Pick one feasible value for e; the remaining values continue in a forked state that re-executes the instruction."""
        if type(e) is int: return e
        if e is UNFORMATTED: raise NeedText()
        e2 = z3.simplify(e) if not isinstance(e, z3.BoolRef) else z3.If(e, BV(1, 1), BV(0, 1))
        if st.pins: e2 = self.pinned(st, e2)
        if z3.is_bv_value(e2): return e2.as_long()
        m = self.model_of(st)
        v = m.eval(e2, model_completion=True).as_long()
        eq = e2 == v
        ne = z3.Not(eq)
        m2 = self.query(st, ne)
        if m2 is not None:
            self.fork_to(st, site, ne, m2)
            self.add(st, eq, m)
        if not FPUSED[0]: self.pin(st, e2)
        return v

    def fork_to(self, st, site, cond, model):
        fr = st.frames[-1]
        fr.code = site[0]; fr.ip = site[1]
        s = st.fork()
        self.add(s, cond, model)
        k = (fr.fn.short)
        self.fork_sites[k] = self.fork_sites.get(k, 0) + 1
        self.work.append(s)
        return s

    def enum_values(self, st, e, limit=512):
        """All feasible values of e under pc (complete enumeration), or None above the limit."""
        if st.pins:
            e = self.pinned(st, e)
            if z3.is_bv_value(e): return [e.as_long()]
        out = []
        t0 = time.time()
        self.sync(st)
        self.solver.push()
        m = self.model_of(st)
        v = m.eval(e, model_completion=True).as_long()
        while True:
            out.append(v)
            if len(out) > limit:
                self.solver.pop()
                return None
            self.solver.add(e != v)
            self.queries += 1
            r = self.solver.check()
            if r == z3.unsat:
                self.unsat += 1
                break
            if r == z3.unknown:
                self.solver.pop()
                raise Inconclusive('solver gave up while enumerating addresses')
            v = self.solver.model().eval(e, model_completion=True).as_long()
        self.solver.pop()
        self.solver_time += time.time() - t0
        return out

    # ------------------------------------------------------------ reporting
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            out.append(f.fn.short)
        return ' < '.join(out[:12])

    def input_values(self, st, model):
        out = []
        for (tag, w, var) in st.inputs:
            v = model.eval(var, model_completion=True)
            out.append((tag, w, v.as_long()))
        return out

    def violate(self, st, model, kind, msg, loc=''):
        v = Violation(kind, msg, loc, self.input_values(st, model), self.where(st))
        if v.key() not in self.vkeys:
            self.vkeys.add(v.key())
            self.violations.append(v)

    # ------------------------------------------------------------ running
    def fresh(self, st, w, tag):
        n = len(st.inputs)
        key = (n, w)
        var = self.varcache.get(key)
        if var is None:
            var = self.varcache[key] = z3.BitVec('in%d_%d' % (n, w), w)
        st.inputs.append((tag, w, var))
        return var

    def run(self, entry):
        import compilefn
        self.comp = compilefn.Compiler(self)
        name = '@' + entry
        if name not in self.mod.funcs: raise Unsupported('no harness ' + entry)
        st = State()
        st.ex = self
        st.frames = []; st.mem = {}; st.nid = 1 << 20; st.owner = 1; st.pc = []; st.model = None
        st.inputs = []; st.covers = set(); st.emits = []; st.blocks = 0; st.branches = 0; st.notes = {}; st.pins = ()
        # an empty path condition has a model
        self.solver.check()
        st.model = self.solver.model()
        self.comp.push_call(st, self.comp.get(name), (), None)
        self.work = [st]
        while self.work:
            s = self.work.pop()
            self.run_state(s)
            if self.stop_after and len(self.violations) >= self.stop_after: return 'violated'
            if self.max_paths and self.paths > self.max_paths: raise Inconclusive('path bound exceeded')
        return 'done'

    def run_state(self, st):
        end = None
        try:
            self.loop(st)
        except PathEnd as e:
            end = e
        kind = end.kind
        self.total_blocks += st.blocks
        if kind in ('infeasible', 'assume'):
            self.ends[kind] = self.ends.get(kind, 0) + 1
            return
        self.paths += 1
        self.ends[kind] = self.ends.get(kind, 0) + 1
        if kind in ('panic', 'ub', 'unreachable', 'abort', 'steps'):
            m = self.query(st, z3.BoolVal(True)) if st.model is None else st.model
            self.violate(st, m, kind, end.msg, end.loc)
        for c in st.covers:
            self.covers[c] = self.covers.get(c, 0) + 1
        if self.keep_samples and kind == 'return':
            # reservoir sample of the explored paths
            k = self.returned = self.returned + 1
            if k <= self.keep_samples: slot = k - 1; self.samples.append(None)
            else:
                slot = self.rng.randrange(k)
                if slot >= self.keep_samples: return
            m = self.model_of(st)
            em = []
            for (w, v) in st.emits:
                if type(v) is not int:
                    v = m.eval(bv(v, w), model_completion=True).as_long()
                em.append(v)
            self.samples[slot] = (self.input_values(st, m), kind, em)

    def loop(self, st):
        fr = st.frames[-1]
        r = fr.r
        code = fr.code
        ip = fr.ip
        while True:
            t = code[ip](st, r)
            if t is None:
                ip += 1
            elif t is RELOAD:
                fr = st.frames[-1]
                r = fr.r
                code = fr.code
                ip = fr.ip
            else:
                code = t
                ip = 0
                b = st.blocks = st.blocks + 1
                if b > self.max_blocks:
                    raise PathEnd('steps', 'no end after %d basic blocks' % b, self.where(st))
                if self.deadline and not b & 1023 and time.time() > self.deadline:
                    raise Inconclusive('time budget exhausted')
