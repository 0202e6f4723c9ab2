"""Compiles parsed LLVM functions into lists of Python closures for symex.Executor."""
import re, math
import z3
from llparse import P, T, IntT, PTR, FLOAT, DOUBLE, VOID, tokenize, ParseError, INT_RE
from symex import *
from symex import Frame, CFunc
import intrinsics

TERMS = ('ret', 'br', 'switch', 'unreachable', 'invoke', 'resume')

BIN = {
    'add': (lambda a, b, w: a + b, lambda a, b: a + b),
    'sub': (lambda a, b, w: a - b, lambda a, b: a - b),
    'mul': (lambda a, b, w: a * b, lambda a, b: a * b),
    'and': (lambda a, b, w: a & b, lambda a, b: a & b),
    'or': (lambda a, b, w: a | b, lambda a, b: a | b),
    'xor': (lambda a, b, w: a ^ b, lambda a, b: a ^ b),
    'shl': (lambda a, b, w: a << b if b < w else 0, lambda a, b: a << b),
    'lshr': (lambda a, b, w: a >> b if b < w else 0, z3.LShR),
    'ashr': (lambda a, b, w: sgn(a, w) >> min(b, w - 1), lambda a, b: a >> b),
    'udiv': (lambda a, b, w: a // b, z3.UDiv),
    'urem': (lambda a, b, w: a % b, z3.URem),
    'sdiv': (lambda a, b, w: _sdiv(sgn(a, w), sgn(b, w)), lambda a, b: a / b),
    'srem': (lambda a, b, w: _srem(sgn(a, w), sgn(b, w)), z3.SRem),
}


def _sdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def _srem(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


ICMP_C = {
    'eq': lambda a, b, w: a == b, 'ne': lambda a, b, w: a != b,
    'ult': lambda a, b, w: a < b, 'ule': lambda a, b, w: a <= b, 'ugt': lambda a, b, w: a > b, 'uge': lambda a, b, w: a >= b,
    'slt': lambda a, b, w: sgn(a, w) < sgn(b, w), 'sle': lambda a, b, w: sgn(a, w) <= sgn(b, w),
    'sgt': lambda a, b, w: sgn(a, w) > sgn(b, w), 'sge': lambda a, b, w: sgn(a, w) >= sgn(b, w),
}
ICMP_S = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'samesign', 'nneg', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'fast', 'volatile', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'cold', 'weak', 'atomic', 'preserve_mostcc'}

PANIC_RE = re.compile(r'(core9panicking(9panic_fmt|18panic_nounwind_fmt|14panic_nounwind|19panic_cannot_unwind|36panic_misaligned_pointer_dereference|30panic_null_pointer_dereference)|rust_begin_unwind|_17rust_begin_unwind|std9panicking|alloc5alloc18handle_alloc_error|raw_vec12handle_error|raw_vec17capacity_overflow)')
CRATE_RE = re.compile(r'13knx_ip_client')


def short(name):
    """Rough demangling: the identifier path of a v0-mangled name."""
    n = name.lstrip('@').strip('"')
    if not n.startswith('_R'): return n
    out = []
    i = 2
    while i < len(n):
        m = re.match(r'(\d+)', n[i:])
        if m:
            if i > 0 and n[i - 1] in 'BsKTI_' and n[i-1] in 'B':
                i += len(m.group(1)); continue
            k = int(m.group(1))
            j = i + len(m.group(1))
            if n[j:j + 1] == '_': j += 1
            if 0 < k <= 60 and j + k <= len(n) and re.match(r'[A-Za-z_]\w*$', n[j:j + k] or '0'):
                out.append(n[j:j + k])
                i = j + k
                continue
            i = j
            continue
        if n[i] == 'C' and i + 1 < len(n) and n[i + 1] == 's':
            m = re.match(r'Cs[0-9A-Za-z]*_', n[i:])
            if m:
                i += len(m.group(0)); continue
        i += 1
    return '::'.join(out[:8]) or n


def strip_meta(toks):
    """Drop trailing instruction metadata (", !dbg !12 ...")."""
    d = 0
    for i, t in enumerate(toks):
        if t in '([{<' and len(t) == 1: d += 1
        elif t in ')]}>' and len(t) == 1: d -= 1
        elif t == ',' and d == 0 and i + 1 < len(toks) and toks[i + 1][0] == '!': return toks[:i]
    return toks


class Compiler:
    def __init__(self, ex):
        self.ex = ex
        self.cache = {}
        self.panic_cache = {}

    # ------------------------------------------------------------ calls
    def push_call(self, st, cf, args, dst):
        fr = Frame()
        fr.fn = cf
        r = cf.template.copy()
        n = 0
        for a in args:
            r[n] = a; n += 1
        fr.r = r
        fr.code = cf.entry
        fr.ip = 0
        fr.dst = dst
        fr.allocas = None
        st.frames.append(fr)
        if len(st.frames) > 400: raise PathEnd('steps', 'call depth 400 exceeded', self.ex.where(st))

    def get(self, name):
        cf = self.cache.get(name)
        if cf is None:
            cf = self.compile(name)
        return cf

    def compile(self, name):
        ex = self.ex
        f = ex.mod.funcs[name]
        f.header()
        cf = CFunc()
        cf.name = name
        cf.short = short(name)
        self.cache[name] = cf
        ex.visited.add(name)
        cf.nparams = len(f.params)
        cf.rett = f.rett
        # split into blocks
        blocks = []       # (label, [instruction text])
        label = None
        lines = []
        nunnamed = sum(1 for t, n in f.params if re.match(r'%\d+$', n))
        for line in f.text[1:]:
            s = line.rstrip('\n')
            if not s or s.startswith(';'): continue
            if s[0] != ' ':
                m = re.match(r'("[^"]*"|[\w.$\-]+):', s)
                if not m: raise ParseError('block label? ' + s)
                if label is not None or lines: blocks.append((label, lines))
                label = '%' + m.group(1)
                lines = []
            elif s.startswith('    ') or s.lstrip().startswith(']'):
                lines[-1] += ' ' + s
            elif s.lstrip().startswith(('#dbg_', ';')):
                continue
            else:
                lines.append(s)
        blocks.append((label, lines))
        if blocks[0][0] is None:
            blocks[0] = ('%%%d' % nunnamed, blocks[0][1])
        C = FnC(self, f, cf)
        for i, (t, n) in enumerate(f.params): C.reg(n)
        C.codes = {lab: [] for lab, _ in blocks}
        C.phis = {}
        parsed = []
        for lab, ls in blocks:
            out = []
            phis = []
            for l in ls:
                p = P(strip_meta(tokenize(l)), ex.mod)
                dst = None
                if p.peek2() == '=' and p.peek()[0] == '%':
                    dst = C.reg(p.next()); p.next()
                op = p.next()
                while op in ('tail', 'musttail', 'notail'): op = p.next()
                if op == 'phi':
                    phis.append((dst, p))
                else:
                    out.append((dst, op, p, l))
            C.phis[lab] = phis
            parsed.append((lab, out))
        # phis: per predecessor edge moves
        C.edges = {}
        for lab, phis in C.phis.items():
            for dst, p in phis:
                while p.peek() in FLAGS: p.next()
                t = p.type()
                while True:
                    p.expect('[')
                    src = C.val(p, t)
                    p.expect(',')
                    pred = p.next()
                    p.expect(']')
                    C.edges.setdefault((pred, lab), []).append((dst, src))
                    if not p.accept(','): break
        for lab, out in parsed:
            code = C.codes[lab]
            C.lab = lab
            C.code = code
            for dst, op, p, l in out:
                try:
                    code.append(C.ins(dst, op, p))
                except Unsupported as e:
                    code.append(C.unsupported('%s in: %s' % (e, l.strip()[:160])))
                except (ParseError, IndexError, KeyError, ValueError) as e:
                    code.append(C.unsupported('cannot parse (%s): %s' % (e, l.strip()[:160])))
        cf.template = [None] * len(C.regs)
        n = len(C.regs)
        # constants live behind the registers; operands were handed out as negative indices
        cf.template = [0] * n + list(reversed(C.consts))
        cf.entry = C.codes[blocks[0][0]]
        return cf


class FnC:
    """Per-function compile context.  Operand index >= 0: register; < 0: constant (Python negative index)."""

    def __init__(self, comp, f, cf):
        self.comp = comp; self.ex = comp.ex; self.f = f; self.cf = cf
        self.regs = {}
        self.consts = []
        self.cidx = {}

    def reg(self, n):
        i = self.regs.get(n)
        if i is None:
            i = self.regs[n] = len(self.regs)
        return i

    def cst(self, v):
        key = v if type(v) is int else None
        if key is not None and key in self.cidx: return self.cidx[key]
        self.consts.append(v)
        i = -len(self.consts)
        if key is not None: self.cidx[key] = i
        return i

    def val(self, p, t):
        x = p.peek()
        if x[0] == '%':
            p.next(); return self.reg(x)
        if t.k == 'metadata':
            # skip
            if x[0] == '!':
                p.next()
                if p.peek() == '(' : p.skip_parens()
                elif p.peek() == '{':
                    while p.next() != '}': pass
            else: p.next()
            return self.cst(0)
        return self.cst(self.ex.const(p, t))

    def tv(self, p):
        t = p.type()
        p.skip_attrs()
        return t, self.val(p, t)

    def unsupported(self, msg):
        def f(st, r):
            raise Unsupported(msg + ' @ ' + self.cf.short)
        return f

    # ------------------------------------------------------------ branches
    def jump(self, target):
        """closure doing phi moves for edge (self.lab -> target); returns code list"""
        moves = self.edges.get((self.lab, target), ())
        code = self.codes[target]
        if not moves:
            return lambda r: code
        if len(moves) == 1:
            d, s = moves[0]
            def j1(r):
                r[d] = r[s]
                return code
            return j1
        ds = [m[0] for m in moves]
        ss = [m[1] for m in moves]
        if not (set(ds) & set(ss)):
            def jn(r):
                for d, s in moves: r[d] = r[s]
                return code
            return jn
        def jp(r):
            vs = [r[s] for s in ss]
            for d, v in zip(ds, vs): r[d] = v
            return code
        return jp

    def ins(self, dst, op, p):
        m = getattr(self, 'i_' + op, None)
        if m: return m(dst, p)
        if op in BIN: return self.binop(dst, op, p)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return self.fbin(dst, op, p)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'ptrtoaddr', 'addrspacecast', 'freeze'):
            return self.cast(dst, op, p)
        raise Unsupported('instruction ' + op)

    def flags(self, p):
        while p.peek() in FLAGS: p.next()

    def binop(self, dst, op, p):
        self.flags(p)
        t = p.type()
        a = self.val(p, t); p.expect(','); b = self.val(p, t)
        if t.k == 'vec':
            cf_, sf_ = BIN[op]
            w = t.el.w
            f1 = self.scalar_bin(op, w)
            def fv(st, r): r[dst] = tuple(f1(x, y) for x, y in zip(r[a], r[b]))
            return fv
        if t.k != 'int': raise Unsupported('binop on %r' % t)
        w = t.w
        mask = (1 << w) - 1
        ex = self.ex
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            slow = self.scalar_bin(op, w)
            def fdiv(st, r):
                y = r[b]
                if (type(y) is int and y == 0): raise PathEnd('ub', 'division by zero', ex.where(st))
                if type(y) is not int:
                    m = ex.may(st, y == 0)
                    if m is not None: raise PathEnd('ub', 'possible division by zero', ex.where(st))
                r[dst] = slow(r[a], y)
            return fdiv
        slow = self.scalar_bin(op, w)
        if op == 'add':
            def f(st, r):
                x = r[a]; y = r[b]
                if type(x) is int and type(y) is int: r[dst] = (x + y) & mask
                else: r[dst] = slow(x, y)
        elif op == 'sub':
            def f(st, r):
                x = r[a]; y = r[b]
                if type(x) is int and type(y) is int: r[dst] = (x - y) & mask
                else: r[dst] = slow(x, y)
        elif op == 'and':
            def f(st, r):
                x = r[a]; y = r[b]
                if type(x) is int and type(y) is int: r[dst] = x & y
                else: r[dst] = slow(x, y)
        else:
            def f(st, r): r[dst] = slow(r[a], r[b])
        return f

    @staticmethod
    def scalar_bin(op, w):
        cf_, sf_ = BIN[op]
        mask = (1 << w) - 1
        if w == 1 and op in ('and', 'or', 'xor'):
            def g(x, y):
                if type(x) is int and type(y) is int: return cf_(x, y, 1)
                x = boolv(x); y = boolv(y)
                e = z3.And(x, y) if op == 'and' else z3.Or(x, y) if op == 'or' else z3.Xor(x, y)
                return simp(e)
            return g
        def f(x, y):
            if type(x) is int and type(y) is int: return cf_(x, y, w) & mask
            return simp(sf_(bv(x, w), bv(y, w)))
        return f

    def i_icmp(self, dst, p):
        self.flags(p)
        pred = p.next()
        t = p.type()
        a = self.val(p, t); p.expect(','); b = self.val(p, t)
        cc = ICMP_C[pred]; cs = ICMP_S[pred]
        if t.k == 'vec':
            w = t.el.w
            def fv(st, r):
                r[dst] = tuple(int(cc(x, y, w)) if type(x) is int and type(y) is int else simp(cs(bv(x, w), bv(y, w))) for x, y in zip(r[a], r[b]))
            return fv
        if t.k not in ('int', 'ptr'): raise Unsupported('icmp on %r' % t)
        w = t.w
        if pred in ('eq', 'ne'):
            eq = pred == 'eq'
            def f(st, r):
                x = r[a]; y = r[b]
                if type(x) is int and type(y) is int: r[dst] = 1 if (x == y) is eq else 0
                elif w == 1:
                    e = boolv(x) == boolv(y)
                    r[dst] = simp(e if eq else z3.Not(e))
                else: r[dst] = simp(cs(bv(x, w), bv(y, w)))
            return f
        def f(st, r):
            x = r[a]; y = r[b]
            if type(x) is int and type(y) is int: r[dst] = 1 if cc(x, y, w) else 0
            else: r[dst] = simp(cs(bv(x, w), bv(y, w)))
        return f

    def i_select(self, dst, p):
        self.flags(p)
        ct, c = self.tv(p); p.expect(',')
        at, a = self.tv(p); p.expect(',')
        bt, b = self.tv(p)
        ex = self.ex
        site = (self.code, len(self.code))
        if ct.k == 'vec': raise Unsupported('vector select')
        def f(st, r):
            cv = r[c]
            if type(cv) is int: r[dst] = r[a] if cv else r[b]
            else:
                x = r[a]; y = r[b]
                v = ite(boolv(cv), x, y, at)
                if v is None:
                    k = ex.concretize(st, cv, site)
                    v = x if k else y
                r[dst] = v
        return f

    # ------------------------------------------------------------ floats
    def fbin(self, dst, op, p):
        self.flags(p)
        t = p.type()
        a = self.val(p, t); p.expect(','); b = self.val(p, t)
        if t.k == 'vec': raise Unsupported('vector float')
        dbl = t.k == 'double'
        def conc(x, y):
            x = f_dec(x, dbl); y = f_dec(y, dbl)
            if op == 'fadd': v = x + y
            elif op == 'fsub': v = x - y
            elif op == 'fmul': v = x * y
            elif op == 'fdiv':
                if y == 0:
                    v = math.nan if (x == 0 or x != x) else math.copysign(math.inf, x) * math.copysign(1, y)
                else: v = x / y
            else: v = math.fmod(x, y)
            return f_enc(v, dbl)
        S = {'fadd': lambda x, y: z3.fpAdd(RNE, x, y), 'fsub': lambda x, y: z3.fpSub(RNE, x, y),
             'fmul': lambda x, y: z3.fpMul(RNE, x, y), 'fdiv': lambda x, y: z3.fpDiv(RNE, x, y)}
        def f(st, r):
            x = r[a]; y = r[b]
            if type(x) is int and type(y) is int: r[dst] = conc(x, y)
            else:
                if op == 'frem': raise Unsupported('symbolic frem')
                r[dst] = fsimp(S[op](fp(x, dbl), fp(y, dbl)))
        return f

    def i_fneg(self, dst, p):
        self.flags(p)
        t, a = self.tv(p)
        dbl = t.k == 'double'
        bit = 1 << (63 if dbl else 31)
        def f(st, r):
            x = r[a]
            r[dst] = x ^ bit if type(x) is int else fsimp(z3.fpNeg(fp(x, dbl)))
        return f

    def i_fcmp(self, dst, p):
        self.flags(p)
        pred = p.next()
        t = p.type()
        a = self.val(p, t); p.expect(','); b = self.val(p, t)
        dbl = t.k == 'double'
        if t.k == 'vec': raise Unsupported('vector fcmp')
        def f(st, r):
            x = r[a]; y = r[b]
            if type(x) is int and type(y) is int:
                x = f_dec(x, dbl); y = f_dec(y, dbl)
                un = x != x or y != y
                o = {'eq': x == y, 'ne': x != y and not un, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}
                if pred == 'ord': v = not un
                elif pred == 'uno': v = un
                elif pred == 'true': v = True
                elif pred == 'false': v = False
                elif pred[0] == 'o': v = (not un) and o[pred[1:]]
                else: v = un or o[pred[1:]]
                r[dst] = int(v)
            else:
                x = fp(x, dbl); y = fp(y, dbl)
                un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
                rel = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
                if pred == 'ord': e = z3.Not(un)
                elif pred == 'uno': e = un
                elif pred[1:] == 'ne':
                    e = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))) if pred[0] == 'o' else z3.Not(z3.fpEQ(x, y))
                elif pred[0] == 'o': e = rel[pred[1:]](x, y)
                else: e = z3.Or(un, rel[pred[1:]](x, y))
                r[dst] = simp(e)
        return f

    def cast(self, dst, op, p):
        self.flags(p)
        t = p.type()
        a = self.val(p, t)
        if op == 'freeze':
            def f(st, r): r[dst] = r[a]
            return f
        p.expect('to')
        d = p.type()
        if t.k == 'vec' or d.k == 'vec':
            if op == 'bitcast':
                return self.vec_bitcast(dst, a, t, d)
            if op in ('zext', 'sext', 'trunc'):
                one = self.int_cast(op, t.el.w, d.el.w)
                def fv(st, r): r[dst] = tuple(one(x) for x in r[a])
                return fv
            raise Unsupported('vector cast')
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
            w = t.w; dw = d.w
            kind = op if op in ('zext', 'sext', 'trunc') else ('zext' if dw > w else 'trunc' if dw < w else None)
            if kind is None:
                def f(st, r): r[dst] = r[a]
                return f
            one = self.int_cast(kind, w, dw)
            if kind == 'zext':
                def f(st, r):
                    x = r[a]
                    r[dst] = x if type(x) is int else one(x)
                return f
            def f(st, r): r[dst] = one(r[a])
            return f
        if op == 'bitcast':
            tf = t.k in ('float', 'double'); df = d.k in ('float', 'double')
            if tf == df:
                def f(st, r): r[dst] = r[a]
            elif tf:
                def f(st, r):
                    x = r[a]
                    r[dst] = x if type(x) is int else simp(z3.fpToIEEEBV(x)) if isfp(x) else x
            else:
                dbl = d.k == 'double'
                def f(st, r):
                    x = r[a]
                    r[dst] = x if type(x) is int else fsimp(fp(x, dbl))
            return f
        if op in ('uitofp', 'sitofp'):
            dbl = d.k == 'double'; w = t.w; s = op == 'sitofp'
            def f(st, r):
                x = r[a]
                if type(x) is int:
                    v = sgn(x, w) if s else x
                    r[dst] = int_to_f(v, dbl)
                else:
                    x = bv(x, w)
                    so = F64 if dbl else F32
                    r[dst] = fsimp(z3.fpSignedToFP(RNE, x, so) if s else z3.fpUnsignedToFP(RNE, x, so))
            return f
        if op in ('fpext', 'fptrunc'):
            dbl = d.k == 'double'; sd = t.k == 'double'
            def f(st, r):
                x = r[a]
                if type(x) is int: r[dst] = f_enc(f_dec(x, sd), dbl)
                else: r[dst] = fsimp(z3.fpFPToFP(RNE, fp(x, sd), F64 if dbl else F32))
            return f
        if op in ('fptoui', 'fptosi'):
            sd = t.k == 'double'; w = d.w; s = op == 'fptosi'
            def f(st, r):
                x = r[a]
                if type(x) is int:
                    v = f_dec(x, sd)
                    r[dst] = (int(v) if math.isfinite(v) else 0) & ((1 << w) - 1)
                else:
                    x = fp(x, sd)
                    r[dst] = simp(z3.fpToSBV(RTZ, x, z3.BitVecSort(w)) if s else z3.fpToUBV(RTZ, x, z3.BitVecSort(w)))
            return f
        raise Unsupported(op)

    @staticmethod
    def int_cast(kind, w, dw):
        mask = (1 << dw) - 1
        if kind == 'zext':
            def f(x):
                if type(x) is int: return x
                if isinstance(x, z3.BoolRef): return z3.If(x, BV(1, dw), BV(0, dw))
                return simp(z3.ZeroExt(dw - w, x))
        elif kind == 'sext':
            def f(x):
                if type(x) is int: return sgn(x, w) & mask
                if isinstance(x, z3.BoolRef): return z3.If(x, BV(mask, dw), BV(0, dw))
                return simp(z3.SignExt(dw - w, x))
        else:
            def f(x):
                if type(x) is int: return x & mask
                e = simp(Extract(dw - 1, 0, x))
                if dw == 1 and type(e) is not int: return simp(e == 1)
                return e
        return f

    def vec_bitcast(self, dst, a, t, d):
        def to_int(v, ty):
            if ty.k != 'vec': return v
            acc = 0
            w = ty.el.w
            if all(type(x) is int for x in v):
                for i, x in enumerate(v): acc |= x << (i * w)
                return acc
            if w == 1:
                v = [z3.If(boolv(x), BV(1, 1), BV(0, 1)) for x in v]
            return simp(z3.Concat(*[bv(x, w) for x in reversed(v)])) if len(v) > 1 else v[0]
        def from_int(x, ty):
            if ty.k != 'vec': return x
            w = ty.el.w
            if type(x) is int: return tuple((x >> (i * w)) & ((1 << w) - 1) for i in range(ty.n))
            return tuple(simp(Extract(i * w + w - 1, i * w, x)) for i in range(ty.n))
        def f(st, r): r[dst] = from_int(to_int(r[a], t), d)
        return f

    # ------------------------------------------------------------ aggregates
    def i_extractvalue(self, dst, p):
        t, a = self.tv(p)
        idx = []
        while p.accept(','):
            x = p.peek()
            if x[0] == '!': break
            idx.append(int(p.next()))
        def f(st, r):
            v = r[a]
            for i in idx: v = v[i]
            r[dst] = v
        return f

    def i_insertvalue(self, dst, p):
        t, a = self.tv(p); p.expect(',')
        et, e = self.tv(p)
        idx = []
        while p.accept(','):
            x = p.peek()
            if x[0] == '!': break
            idx.append(int(p.next()))
        def put(v, ix, x):
            l = list(v)
            l[ix[0]] = x if len(ix) == 1 else put(v[ix[0]], ix[1:], x)
            return tuple(l)
        def f(st, r): r[dst] = put(r[a], idx, r[e])
        return f

    def i_extractelement(self, dst, p):
        t, a = self.tv(p); p.expect(',')
        it, i = self.tv(p)
        def f(st, r): r[dst] = r[a][r[i]]
        return f

    def i_insertelement(self, dst, p):
        t, a = self.tv(p); p.expect(',')
        et, e = self.tv(p); p.expect(',')
        it, i = self.tv(p)
        def f(st, r):
            l = list(r[a]); l[r[i]] = r[e]; r[dst] = tuple(l)
        return f

    def i_shufflevector(self, dst, p):
        t, a = self.tv(p); p.expect(',')
        t2, b = self.tv(p); p.expect(',')
        mt = p.type()
        mask = self.ex.const(p, mt)
        def f(st, r):
            l = tuple(r[a]) + tuple(r[b])
            r[dst] = tuple(l[m] if m < len(l) else 0 for m in mask)
        return f

    # ------------------------------------------------------------ memory
    def i_alloca(self, dst, p):
        p.accept('inalloca')
        t = p.type()
        n = 1
        if p.accept(','):
            if p.peek() != 'align' and p.peek()[0] != '!':
                nt, nv = self.tv(p)
                if nv >= 0: raise Unsupported('dynamic alloca')
                n = self.consts[-nv - 1]
        size = t.size() * n
        ex = self.ex
        def f(st, r):
            a = ex.alloc(st, size, 'stack')
            r[dst] = a
            fr = st.frames[-1]
            if fr.allocas is None: fr.allocas = [a >> PAGE]
            else: fr.allocas.append(a >> PAGE)
        return f

    def i_getelementptr(self, dst, p):
        self.flags(p)
        t = p.type(); p.expect(',')
        bt, base = self.tv(p)
        if bt.k == 'vec': raise Unsupported('vector gep')
        coff = 0
        dyn = []
        ty = t
        first = True
        while p.accept(','):
            if p.peek()[0] == '!': break
            it, i = self.tv(p)
            if first:
                scale = ty.size(); first = False
            elif ty.k == 'struct':
                k = self.consts[-i - 1]
                coff += ty.offs()[k]; ty = ty.els[k]
                continue
            else:
                ty = ty.el; scale = ty.size()
            if i < 0: coff += sgn(self.consts[-i - 1], it.w) * scale
            else: dyn.append((i, scale, it.w))
        if not dyn:
            def f(st, r):
                x = r[base]
                r[dst] = (x + coff) & M64 if type(x) is int else simp(x + BV(coff & M64, 64))
            return f
        if len(dyn) == 1:
            i, scale, w = dyn[0]
            def f(st, r):
                x = r[base]; y = r[i]
                if type(x) is int and type(y) is int:
                    if w != 64: y = sgn(y, w)
                    r[dst] = (x + coff + y * scale) & M64
                else:
                    y = bv(y, w)
                    if w < 64: y = z3.SignExt(64 - w, y)
                    r[dst] = simp(bv(x, 64) + y * BV(scale, 64) + BV(coff & M64, 64))
            return f
        def f(st, r):
            acc = r[base]
            acc = (acc + coff) & M64 if type(acc) is int else acc + BV(coff & M64, 64)
            for i, scale, w in dyn:
                y = r[i]
                if type(y) is int:
                    y = (sgn(y, w) * scale) & M64
                    acc = (acc + y) & M64 if type(acc) is int else acc + BV(y, 64)
                else:
                    y = bv(y, w)
                    if w < 64: y = z3.SignExt(64 - w, y)
                    acc = bv(acc, 64) + y * BV(scale, 64)
            r[dst] = acc if type(acc) is int else simp(acc)
        return f

    def loader(self, t):
        """function (st, concrete addr) -> value of type t"""
        ex = self.ex
        k = t.k
        if k == 'int':
            n = (t.w + 7) // 8
            w = t.w
            if w == 8 * n:
                return lambda st, a: ex.load_bits(st, a, n)
            def f(st, a):
                x = ex.load_bits(st, a, n)
                if type(x) is int: return x & ((1 << w) - 1)
                e = simp(Extract(w - 1, 0, x))
                if w == 1 and type(e) is not int: return simp(e == 1)
                return e
            return f
        if k == 'ptr': return lambda st, a: ex.load_bits(st, a, 8)
        if k in ('float', 'double'):
            n = t.size(); dbl = k == 'double'
            def f(st, a):
                x = ex.load_bits(st, a, n)
                return x if type(x) is int else fsimp(fp(x, dbl))
            return f
        if k == 'struct':
            ls = [(o, self.loader(e)) for o, e in zip(t.offs(), t.els)]
            return lambda st, a: tuple(l(st, a + o) for o, l in ls)
        if k in ('arr', 'vec'):
            l = self.loader(t.el); s = t.el.size() if k == 'arr' else (t.el.w // 8 if t.el.k == 'int' else t.el.size())
            if k == 'vec' and t.el.k == 'int' and t.el.w % 8: raise Unsupported('sub-byte vector load')
            return lambda st, a: tuple(l(st, a + i * s) for i in range(t.n))
        raise Unsupported('load of %r' % t)

    def storer(self, t):
        ex = self.ex
        k = t.k
        if k == 'int':
            n = (t.w + 7) // 8
            w = t.w
            def f(st, a, v):
                if type(v) is not int:
                    if isinstance(v, z3.BoolRef): v = bv(v, 8 * n)
                    elif w != 8 * n: v = z3.ZeroExt(8 * n - w, v)
                ex.store_bits(st, a, n, v)
            return f
        if k == 'ptr': return lambda st, a, v: ex.store_bits(st, a, 8, v)
        if k in ('float', 'double'):
            n = t.size()
            def f(st, a, v):
                if isfp(v): v = simp(z3.fpToIEEEBV(v))
                ex.store_bits(st, a, n, v)
            return f
        if k == 'struct':
            ls = [(o, self.storer(e)) for o, e in zip(t.offs(), t.els)]
            def f(st, a, v):
                for (o, s), x in zip(ls, v): s(st, a + o, x)
            return f
        if k in ('arr', 'vec'):
            l = self.storer(t.el); s = t.el.size()
            if k == 'vec' and t.el.k == 'int' and t.el.w % 8: raise Unsupported('sub-byte vector store')
            def f(st, a, v):
                for i, x in enumerate(v): l(st, a + i * s, x)
            return f
        raise Unsupported('store of %r' % t)

    def i_load(self, dst, p):
        self.flags(p)
        t = p.type(); p.expect(',')
        pt, a = self.tv(p)
        ld = self.loader(t)
        ex = self.ex
        site = (self.code, len(self.code))
        if t.k in ('int', 'ptr') and t.w in (8, 16, 32, 64):
            n = t.w // 8
            gobjs = ex.gobjs
            def f(st, r):
                x = r[a]
                if type(x) is int:
                    o = st.mem.get(x >> PAGE)
                    if o is not None and not o.sym and o.alive:
                        off = x & 0xfffff
                        if off + n <= o.size:
                            r[dst] = int.from_bytes(o.data[off:off + n], 'little')
                            return
                    r[dst] = ex.load_bits(st, x, n)
                else:
                    r[dst] = sym_load(ex, st, x, ld, t, site)
            return f
        def f(st, r):
            x = r[a]
            if type(x) is int: r[dst] = ld(st, x)
            else: r[dst] = sym_load(ex, st, x, ld, t, site)
        return f

    def i_store(self, dst, p):
        self.flags(p)
        t, v = self.tv(p); p.expect(',')
        pt, a = self.tv(p)
        sr = self.storer(t)
        ld = self.loader(t)
        ex = self.ex
        site = (self.code, len(self.code))
        def f(st, r):
            x = r[a]
            if type(x) is int: sr(st, x, r[v])
            else:
                vals = ex.enum_values(st, x, 256)
                if vals is None: raise Unsupported('store through a pointer with more than 256 feasible values')
                for c in vals:
                    old = ld(st, c)
                    nv = ite(x == c, r[v], old, t)
                    if nv is None: raise Unsupported('aggregate store through symbolic pointer')
                    sr(st, c, nv)
        return f

    def i_fence(self, dst, p):
        return lambda st, r: None

    def i_atomicrmw(self, dst, p):
        self.flags(p)
        op = p.next()
        pt, a = self.tv(p); p.expect(',')
        t, v = self.tv(p)
        ld = self.loader(t); sr = self.storer(t)
        w = t.w
        m = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}
        if op in ('max', 'min', 'umax', 'umin'):
            def fn(x, y):
                if type(x) is int and type(y) is int:
                    u, v2 = (x, y) if op[0] == 'u' else (sgn(x, w), sgn(y, w))
                    return (x if u > v2 else y) if op.endswith('max') else (x if u < v2 else y)
                X, Y = bv(x, w), bv(y, w)
                gt = z3.UGT(X, Y) if op[0] == 'u' else X > Y
                return simp(z3.If(gt, X, Y) if op.endswith('max') else z3.If(gt, Y, X))
        elif op == 'nand':
            fn = lambda x, y: (~(x & y)) & ((1 << w) - 1) if type(x) is int and type(y) is int else simp(~(bv(x, w) & bv(y, w)))
        elif op == 'xchg': fn = None
        elif op not in m: raise Unsupported('atomicrmw ' + op)
        else: fn = self.scalar_bin(m[op], w)
        def f(st, r):
            x = r[a]
            if type(x) is not int: raise Unsupported('atomic on symbolic pointer')
            old = ld(st, x)
            sr(st, x, r[v] if fn is None else fn(old, r[v]))
            r[dst] = old
        return f

    def i_cmpxchg(self, dst, p):
        self.flags(p)
        pt, a = self.tv(p); p.expect(',')
        t, c = self.tv(p); p.expect(',')
        t2, n = self.tv(p)
        ld = self.loader(t); sr = self.storer(t)
        ex = self.ex
        site = (self.code, len(self.code))
        def f(st, r):
            x = r[a]
            if type(x) is not int: raise Unsupported('atomic on symbolic pointer')
            old = ld(st, x)
            cv = r[c]
            if type(old) is int and type(cv) is int: ok = int(old == cv)
            else: ok = ex.concretize(st, simp(bv(old, t.w) == bv(cv, t.w)), site)
            if ok: sr(st, x, r[n])
            r[dst] = (old, ok)
        return f

    # ------------------------------------------------------------ control flow
    def i_unreachable(self, dst, p):
        ex = self.ex
        def f(st, r): raise PathEnd('unreachable', 'unreachable code reached', ex.where(st))
        return f

    def i_resume(self, dst, p):
        return self.unsupported('resume')

    def i_landingpad(self, dst, p):
        return self.unsupported('landingpad')

    def i_ret(self, dst, p):
        ex = self.ex
        v = None
        if p.peek() != 'void':
            t, v = self.tv(p)
        def f(st, r):
            fr = st.frames.pop()
            if fr.allocas:
                mem = st.mem
                for a in fr.allocas: mem.pop(a, None)
            if not st.frames: raise PathEnd('return')
            if fr.dst is not None: st.frames[-1].r[fr.dst] = r[v]
            return RELOAD
        return f

    def i_br(self, dst, p):
        ex = self.ex
        if p.peek() == 'label':
            p.next()
            j = self.jump(p.next())
            return lambda st, r: j(r)
        t, c = self.tv(p); p.expect(','); p.next()
        l1 = p.next(); p.expect(','); p.next()
        l2 = p.next()
        jt = self.jump(l1); jf = self.jump(l2)
        site = (self.code, len(self.code))
        def f(st, r):
            cv = r[c]
            if type(cv) is int:
                return jt(r) if cv else jf(r)
            cv = boolv(cv)
            st.branches += 1
            m = st.model
            ncv = z3.Not(cv)
            if m is not None:
                if z3.is_true(m.eval(cv, model_completion=True)):
                    mt = m; mf = ex.query(st, ncv)
                else:
                    mf = m; mt = ex.query(st, cv)
            else:
                mt = ex.query(st, cv)
                mf = ex.query(st, ncv)
            if mt is None and mf is None: raise PathEnd('infeasible')
            if mt is None:
                r[c] = 0 if c >= 0 else r[c]
                return jf(r)
            if mf is None:
                if c >= 0: r[c] = 1
                return jt(r)
            if c >= 0: r[c] = 0
            ex.fork_to(st, site, ncv, mf)
            if c >= 0: r[c] = 1
            ex.add(st, cv, mt)
            return jt(r)
        return f

    def i_switch(self, dst, p):
        ex = self.ex
        t, c = self.tv(p); p.expect(','); p.next()
        d = p.next()
        p.expect('[')
        cases = {}
        order = []
        while not p.accept(']'):
            ct = p.type(); v = ex.const(p, ct); p.expect(','); p.next()
            lab = p.next()
            cases[v] = self.jump(lab)
            order.append((v, lab))
        jd = self.jump(d)
        site = (self.code, len(self.code))
        w = t.w
        def f(st, r):
            x = r[c]
            if type(x) is int:
                return cases.get(x, jd)(r)
            st.branches += 1
            x = bv(x, w)
            # group values by target so that each distinct target is one path
            groups = {}
            for v, lab in order: groups.setdefault(lab, []).append(v)
            dflt = z3.And([x != v for v, _ in order]) if order else z3.BoolVal(True)
            alts = []
            for lab, vs in groups.items():
                cond = z3.Or([x == v for v in vs]) if len(vs) > 1 else x == vs[0]
                alts.append((cond, cases[vs[0]], vs[0] if len(vs) == 1 else None))
            alts.append((dflt, jd, None))
            feas = []
            for cond, j, v in alts:
                m = ex.may(st, cond)
                if m is not None: feas.append((cond, j, m, v))
            if not feas: raise PathEnd('infeasible')
            for cond, j, m, v in feas[1:]:
                keep = r[c]
                s = ex.fork_to(st, site, cond, m)
                # the fork takes its edge directly
                sr = s.frames[-1].r
                s.frames[-1].code = j(sr)
                s.frames[-1].ip = 0
                if v is not None: sr[c] = v
            cond, j, m, v = feas[0]
            if len(feas) > 1: ex.add(st, cond, m)
            code = j(r)
            if v is not None: r[c] = v
            return code
        return f

    def i_invoke(self, dst, p):
        return self.call(dst, p, True)

    def i_call(self, dst, p):
        return self.call(dst, p, False)

    def call(self, dst, p, invoke):
        ex = self.ex; comp = self.comp
        self.flags(p)
        # calling convention, return attributes, type
        while True:
            p.skip_attrs()
            x = p.peek()
            break
        rt = p.type()
        if p.peek() == '(':      # function type of a vararg callee
            p.skip_parens()
        if p.peek() == 'asm':
            # inline asm: only empty templates (black_box) are accepted
            p.next()
            while not p.peek().startswith('"'): p.next()
            tmpl = p.next()
            p.expect(','); p.next()
            if tmpl != '""': raise Unsupported('inline asm ' + tmpl)
            args = self.args(p)
            def f(st, r):
                if dst is not None: r[dst] = 0
            return f
        callee = p.next()
        args = self.args(p)
        av = tuple(a for t, a in args)
        nxt = None
        if invoke:
            while p.next() != 'to': pass
            p.next()
            nxt = self.jump(p.next())
        code = self.code
        idx = len(code)
        site = (code, idx)
        hasret = rt.k != 'void'
        d = dst if hasret else None
        if callee[0] == '@':
            if callee not in ex.mod.funcs and callee in ex.mod.globals:
                raise Unsupported('call through alias ' + callee)
            bare = callee[1:].strip('"')
            stub = intrinsics.lookup(ex, bare, args, rt, site)
            if stub is not None:
                if nxt is None:
                    if d is None:
                        def f(st, r): stub(st, [r[a] for a in av])
                    else:
                        def f(st, r): r[d] = stub(st, [r[a] for a in av])
                    return f
                def f(st, r):
                    v = stub(st, [r[a] for a in av])
                    if d is not None: r[d] = v
                    return nxt(r)
                return f
            if callee not in ex.mod.funcs:
                raise Unsupported('external function ' + callee)
            if PANIC_RE.search(bare):
                def f(st, r):
                    raise PathEnd('panic', 'panic', panic_loc(ex, st, [r[a] for a in av]))
                return f
            if nxt is None:
                def f(st, r):
                    fr = st.frames[-1]
                    fr.code = code; fr.ip = idx + 1
                    cf = comp.cache.get(callee) or comp.get(callee)
                    comp.push_call(st, cf, [r[a] for a in av], d)
                    return RELOAD
                return f
            # invoke: after return continue at the normal destination
            cont = [lambda st, r: nxt(r)]
            def f(st, r):
                fr = st.frames[-1]
                fr.code = cont; fr.ip = 0
                cf = comp.get(callee)
                comp.push_call(st, cf, [r[a] for a in av], d)
                return RELOAD
            return f
        # indirect
        if callee[0] != '%': raise Unsupported('callee ' + callee)
        cr = self.reg(callee)
        cont = [lambda st, r: nxt(r)] if nxt is not None else None
        stubs = {}
        def f(st, r):
            x = r[cr]
            if type(x) is not int: x = ex.concretize(st, x, site)
            name = ex.fn_by_addr.get(x)
            if name is None: raise PathEnd('ub', 'indirect call to a non-function 0x%x' % x, ex.where(st))
            if name in stubs: stub = stubs[name]
            else: stub = stubs[name] = intrinsics.lookup(ex, name[1:].strip('"'), args, rt, site)
            fr = st.frames[-1]
            if stub is not None:
                v = stub(st, [r[a] for a in av])
                if d is not None: r[d] = v
                return nxt(r) if nxt is not None else None
            if name not in ex.mod.funcs: raise Unsupported('external function ' + name)
            if PANIC_RE.search(name):
                raise PathEnd('panic', 'panic', panic_loc(ex, st, [r[a] for a in av]))
            if cont is None: fr.code = code; fr.ip = idx + 1
            else: fr.code = cont; fr.ip = 0
            comp.push_call(st, comp.get(name), [r[a] for a in av], d)
            return RELOAD
        return f

    def args(self, p):
        p.expect('(')
        out = []
        if p.accept(')'): return out
        while True:
            t = p.type()
            if t.k == 'metadata':
                x = p.next()
                if p.peek() == '(':
                    p.skip_parens()
                out.append((t, self.cst(0)))
            else:
                p.skip_attrs()
                out.append((t, self.val(p, t)))
            if p.accept(')'): break
            p.expect(',')
        return out


def int_to_f(v, dbl):
    if dbl: return f_enc(float(v), True)
    # correctly rounded int -> f32 (avoid double rounding through f64)
    if abs(v) < (1 << 53): return f_enc(float(v), False)
    e = z3.simplify(z3.fpToIEEEBV(z3.fpRealToFP(RNE, z3.RealVal(v), F32)))
    return e.as_long()


def ite(c, x, y, t):
    """Merged value, or None when the two cannot be merged into one term."""
    if x is y: return x
    if type(x) is int and type(y) is int and x == y: return x
    k = t.k
    if k == 'int' and t.w == 1:
        return simp(z3.If(c, boolv(x), boolv(y)))
    if k in ('int', 'ptr'):
        if k == 'ptr': return None
        return simp(z3.If(c, bv(x, t.w), bv(y, t.w)))
    if k in ('float', 'double'):
        dbl = k == 'double'
        return fsimp(z3.If(c, fp(x, dbl), fp(y, dbl)))
    if k == 'struct':
        out = []
        for a, b, e in zip(x, y, t.els):
            v = ite(c, a, b, e)
            if v is None: return None
            out.append(v)
        return tuple(out)
    if k in ('arr', 'vec'):
        out = []
        for a, b in zip(x, y):
            v = ite(c, a, b, t.el)
            if v is None: return None
            out.append(v)
        return tuple(out)
    return None


def sym_load(ex, st, x, ld, t, site):
    vals = ex.enum_values(st, x, 512)
    if vals is None: raise Unsupported('load through a pointer with more than 512 feasible values')
    acc = None
    for c in vals:
        v = ld(st, c)
        if acc is None: acc = v
        else:
            acc = ite(x == c, v, acc, t)
            if acc is None:
                c = ex.concretize(st, x, site)
                return ld(st, c)
    return acc


def panic_loc(ex, st, args):
    """file:line of the core::panic::Location passed to the panic machinery (last pointer argument that looks like one)."""
    for a in reversed(args):
        if type(a) is not int or a < (1 << PAGE): continue
        try:
            f = ex.load_bits(st, a, 8); n = ex.load_bits(st, a + 8, 8)
            line = ex.load_bits(st, a + 16, 4)
            if type(f) is int and type(n) is int and 3 < n < 300:
                s = bytes(ex.read_bytes(st, f, n)).decode()
                if s.endswith('.rs'):
                    if '/library/' in s or '/.cargo/' in s:
                        return '%s:%d in %s' % (s.split('/library/')[-1].split('/registry/src/')[-1], line, crate_frame(st))
                    return '%s:%d in %s' % (s, line, crate_frame(st))
        except (PathEnd, UnicodeDecodeError, TypeError, ValueError):
            continue
    return 'in ' + crate_frame(st)


def crate_frame(st):
    for f in reversed(st.frames):
        if CRATE_RE.search(f.fn.name): return f.fn.short
    return st.frames[-1].fn.short
