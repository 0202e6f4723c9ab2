"""LLVM intrinsics, libc and harness-interface models.  Anything not listed here is Unsupported."""
import re, math
import z3
from symex import *
from symex import Violation, NeedText, UNFORMATTED

FMT_WRITE = re.compile(r'core3fmt5write$')
STRING_WRITE = re.compile(r'5alloc6string.*6String.*3fmt5Write9write_str$')
INT_SUFFIX = re.compile(r'\.i(\d+)')


def lookup(ex, name, args, rt, site):
    """-> callable(st, argvalues) or None if the function has a body to execute / is unknown."""
    if name.startswith('llvm.'):
        f = llvm(ex, name, args, rt, site)
        if f is None: raise Unsupported('intrinsic ' + name)
        return f
    f = HARNESS.get(name)
    if f is not None: return lambda st, a: f(ex, st, a, site)
    if name in ex.mod_bodies_override:
        pass
    if FMT_WRITE.search(name) and not ex.real_fmt:
        ex.stubs_used.add('core::fmt::write into a String nobody looks at')
        return lambda st, a: fmt_skip(ex, st, a)
    if '@' + name in ex.mod.funcs or '@"%s"' % name in ex.mod.funcs:
        f = BODY_OVERRIDE.get(name)
        return (lambda st, a: f(ex, st, a, site)) if f else None
    f = LIBC.get(name)
    if f is not None:
        return lambda st, a: f(ex, st, a, site)
    return None


Executor.mod_bodies_override = ()


def fmt_skip(ex, st, a):
    """core::fmt::write: the text is left out, the length of the String (its third word) becomes a value that cannot be looked at."""
    out, vt = a[0], a[1]
    if type(out) is not int or type(vt) is not int: raise NeedText()
    f = ex.fn_by_addr.get(ex.load_bits(st, vt + 24, 8), '')
    if not STRING_WRITE.search(f): raise NeedText()
    ex.text_skipped = True
    ex.store_bits(st, out + 16, 8, UNFORMATTED)
    return 0


def con(ex, st, v, site): return v if type(v) is int else ex.concretize(st, v, site)


# ------------------------------------------------------------ harness interface
def h_sym(w):
    def f(ex, st, a, site):
        return ex.fresh(st, w, 'u%d' % w)
    return f


def h_bytes(ex, st, a, site):
    p = con(ex, st, a[0], site); n = con(ex, st, a[1], site)
    for i in range(n):
        ex.store_bits(st, p + i, 1, ex.fresh(st, 8, 'u8'))
    return 0


def h_bool(ex, st, a, site):
    v = ex.fresh(st, 1, 'bool')
    return v == 1


def h_assume(ex, st, a, site):
    c = a[0]
    if type(c) is int:
        if not c: raise PathEnd('assume')
        return 0
    c = boolv(c)
    m = ex.may(st, c)
    if m is None: raise PathEnd('assume')
    ex.add(st, c, m)
    return 0


def text(ex, st, p, n):
    return bytes(ex.read_bytes(st, p, n)).decode('utf-8', 'replace')


def h_check(ex, st, a, site):
    c = a[0]
    msg = text(ex, st, a[1], a[2])
    ex.checks[msg] = ex.checks.get(msg, 0) + 1
    if type(c) is int:
        if not c:
            m = ex.model_of(st)
            ex.violate(st, m, 'check', msg)
            raise PathEnd('checkfail', msg)
        return 0
    c = boolv(c)
    m = ex.query(st, z3.Not(c))
    if m is not None:
        ex.violate(st, m, 'check', msg)
        m2 = ex.query(st, c)
        if m2 is None: raise PathEnd('checkfail', msg)
        ex.add(st, c, m2)
    return 0


def h_cover(ex, st, a, site):
    c = a[0]
    msg = text(ex, st, a[1], a[2])
    if type(c) is int:
        if c: st.covers.add(msg)
    elif ex.covers.get(msg) or msg in st.covers: pass
    elif ex.may(st, boolv(c)) is not None: st.covers.add(msg)
    return 0


def h_emit(ex, st, a, site):
    st.emits.append((64, a[0]))
    return 0


def h_concrete(ex, st, a, site):
    """case split on a value: afterwards it is a constant on every path"""
    return con(ex, st, a[0], site)


class NeedCases(Exception):
    """The harness distinguishes cases: run it once per case."""


def h_case(ex, st, a, site):
    n = a[0]
    if ex.case is None: raise NeedCases(n)
    if ex.case >= n: raise PathEnd('assume')
    v = ex.fresh(st, 64, 'u64')
    c = v == ex.case
    ex.add(st, c, ex.may(st, c))
    return ex.case


def h_tier(ex, st, a, site): return ex.tier


def h_symbolic(ex, st, a, site):
    return 1


HARNESS = {
    'sym_u8': h_sym(8), 'sym_u16': h_sym(16), 'sym_u32': h_sym(32), 'sym_u64': h_sym(64),
    'sym_bytes': h_bytes, 'sym_bool': h_bool, 'sym_assume': h_assume, 'sym_check': h_check, 'sym_cover': h_cover,
    'sym_emit': h_emit, 'sym_split': h_concrete, 'sym_engine': h_symbolic, 'sym_case': h_case, 'sym_tier': h_tier,
}


# ------------------------------------------------------------ libc
def upper(ex, st, n, site):
    """A size the solver shows to be an upper bound of a symbolic allocation size (no case split)."""
    if type(n) is int: return n
    for k in (16, 64, 256, 1024, 4096, 1 << 16, 1 << 20):
        if ex.may(st, z3.UGT(n, BV(k, 64))) is None: return k
    return con(ex, st, n, site)


def m_malloc(ex, st, a, site):
    n = upper(ex, st, a[0], site)
    if n > (1 << 26): raise PathEnd('abort', 'allocation of %d bytes' % n, ex.where(st))
    return ex.alloc(st, n, 'heap')


def m_calloc(ex, st, a, site):
    n = upper(ex, st, a[0], site) * upper(ex, st, a[1], site)
    return m_malloc(ex, st, [n], site)


def m_free(ex, st, a, site):
    p = con(ex, st, a[0], site)
    if p == 0: return 0
    oid = p >> PAGE
    o = st.mem.get(oid)
    if o is None or p & 0xfffff or o.kind != 'heap':
        raise PathEnd('ub', 'free of a pointer that is not a live heap block', ex.where(st))
    del st.mem[oid]
    return 0


def m_realloc(ex, st, a, site):
    p = con(ex, st, a[0], site); n = con(ex, st, a[1], site)
    q = m_malloc(ex, st, [n], site)
    if p:
        o, _ = ex.obj(st, p, 0)
        ex.copy_mem(st, q, p, min(o.size, n))
        m_free(ex, st, [p], site)
    return q


def m_memalign(ex, st, a, site):
    q = m_malloc(ex, st, [a[2]], site)
    ex.store_bits(st, con(ex, st, a[0], site), 8, q)
    return 0


def m_memcpy(ex, st, a, site):
    n = con(ex, st, a[2], site)
    if n == 0: return a[0]
    d = con(ex, st, a[0], site); s = con(ex, st, a[1], site)
    ex.copy_mem(st, d, s, n)
    return d


def m_memset(ex, st, a, site):
    n = con(ex, st, a[2], site)
    if n == 0: return a[0]
    d = con(ex, st, a[0], site)
    v = a[1]
    if type(v) is int: ex.store_bits(st, d, n, int.from_bytes(bytes([v & 255]) * n, 'little'))
    else:
        if v.size() != 8: v = simp(Extract(7, 0, v))
        for i in range(n): ex.store_bits(st, d + i, 1, v)
    return d


def m_bcmp(ex, st, a, site):
    n = con(ex, st, a[2], site)
    if n == 0: return 0
    x = ex.read_bytes(st, con(ex, st, a[0], site), n)
    y = ex.read_bytes(st, con(ex, st, a[1], site), n)
    conds = []
    for i, j in zip(x, y):
        if type(i) is int and type(j) is int:
            if i != j: return 1
        else: conds.append(bv(i, 8) == bv(j, 8))
    if not conds: return 0
    return simp(z3.If(z3.And(conds), BV(0, 32), BV(1, 32)))


def m_memcmp(ex, st, a, site):
    n = con(ex, st, a[2], site)
    if n == 0: return 0
    x = ex.read_bytes(st, con(ex, st, a[0], site), n)
    y = ex.read_bytes(st, con(ex, st, a[1], site), n)
    r = None
    for i, j in zip(reversed(x), reversed(y)):
        rest = BV(0, 32) if r is None else r
        r = z3.If(bv(i, 8) == bv(j, 8), rest, z3.ZeroExt(24, bv(i, 8)) - z3.ZeroExt(24, bv(j, 8)))
    return simp(r)


def m_memchr(ex, st, a, site):
    p = con(ex, st, a[0], site); c = con(ex, st, a[1], site) & 255; n = con(ex, st, a[2], site)
    for i, b in enumerate(ex.read_bytes(st, p, n)):
        if con(ex, st, b, site) == c: return p + i
    return 0


def m_strlen(ex, st, a, site):
    p = con(ex, st, a[0], site)
    n = 0
    while con(ex, st, ex.load_bits(st, p + n, 1), site): n += 1
    return n


def m_abort(ex, st, a, site):
    raise PathEnd('abort', 'abort', ex.where(st))


def m_zero(ex, st, a, site): return 0


def m_errno(ex, st, a, site):
    q = st.notes.get('errno')
    if q is None:
        q = st.notes['errno'] = ex.alloc(st, 4, 'errno')
    return q


def m_atexit(ex, st, a, site): return 0


def m_getrandom(ex, st, a, site):
    # std's hash seed: a fixed one (stated assumption: no property depends on a hash map's order)
    p = con(ex, st, a[0], site); n = con(ex, st, a[1], site)
    for i in range(n): ex.store_bits(st, p + i, 1, (i * 73 + 41) & 255)
    return n


LIBC = {
    'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'realloc': m_realloc, 'posix_memalign': m_memalign,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'bcmp': m_bcmp, 'memcmp': m_memcmp, 'strlen': m_strlen, 'memchr': m_memchr,
    'abort': m_abort, 'getenv': m_zero, '__errno_location': m_errno, '__cxa_thread_atexit_impl': m_atexit,
    'write': lambda ex, st, a, site: a[2],
    'getrandom': m_getrandom,
}
for nm in ('round', 'floor', 'ceil', 'trunc', 'rint', 'roundeven', 'nearbyint', 'fabs', 'sqrt'):
    pass

BODY_OVERRIDE = {
    '__rust_no_alloc_shim_is_unstable_v2': m_zero,
}


# ------------------------------------------------------------ llvm intrinsics
def width(name):
    m = INT_SUFFIX.search(name)
    return int(m.group(1)) if m else None


def llvm(ex, name, args, rt, site):
    n = name
    if n.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.dbg', 'llvm.invariant', 'llvm.prefetch', 'llvm.sideeffect', 'llvm.x86.sse2.pause', 'llvm.va_', 'llvm.stackrestore')):
        return lambda st, a: 0
    if n.startswith(('llvm.memcpy', 'llvm.memmove')): return lambda st, a: m_memcpy(ex, st, a, site)
    if n.startswith('llvm.memset'): return lambda st, a: m_memset(ex, st, a, site)
    if n.startswith(('llvm.trap', 'llvm.ubsantrap')):
        def f(st, a): raise PathEnd('abort', 'trap', ex.where(st))
        return f
    if n.startswith('llvm.expect'): return lambda st, a: a[0]
    if n.startswith('llvm.is.constant'): return lambda st, a: 0
    if n.startswith('llvm.threadlocal.address'): return lambda st, a: a[0]
    if n.startswith('llvm.objectsize'): return lambda st, a: (1 << 64) - 1
    if n.startswith('llvm.ptrmask'):
        return lambda st, a: a[0] & a[1] if type(a[0]) is int and type(a[1]) is int else simp(bv(a[0], 64) & bv(a[1], 64))
    base = n[5:]
    t0 = args[0][0] if args else None
    if t0 is not None and t0.k in ('float', 'double') or base.startswith(('fptoui.sat', 'fptosi.sat')):
        return fllvm(ex, base, args, rt, site)
    if t0 is None or t0.k != 'int': return None
    w = t0.w
    mask = (1 << w) - 1

    def two(cf, sf):
        def f(st, a):
            x, y = a[0], a[1]
            if type(x) is int and type(y) is int: return cf(x, y) & mask
            return simp(sf(bv(x, w), bv(y, w)))
        return f
    If = z3.If
    if base.startswith('umin.'): return two(min, lambda x, y: If(z3.ULT(x, y), x, y))
    if base.startswith('umax.'): return two(max, lambda x, y: If(z3.UGT(x, y), x, y))
    if base.startswith('smin.'): return two(lambda x, y: x if sgn(x, w) < sgn(y, w) else y, lambda x, y: If(x < y, x, y))
    if base.startswith('smax.'): return two(lambda x, y: x if sgn(x, w) > sgn(y, w) else y, lambda x, y: If(x > y, x, y))
    if base.startswith('usub.sat'): return two(lambda x, y: max(0, x - y), lambda x, y: If(z3.ULT(x, y), BV(0, w), x - y))
    if base.startswith('uadd.sat'): return two(lambda x, y: min(mask, x + y), lambda x, y: If(z3.ULT(x + y, x), BV(mask, w), x + y))
    if base.startswith(('sadd.sat', 'ssub.sat')):
        add = base.startswith('sadd')
        lo = -(1 << (w - 1)); hi = (1 << (w - 1)) - 1
        def sf(x, y):
            x1 = z3.SignExt(1, x); y1 = z3.SignExt(1, y)
            s = x1 + y1 if add else x1 - y1
            return If(s > hi, BV(hi, w), If(s < lo, BV(lo & mask, w), Extract(w - 1, 0, s)))
        return two(lambda x, y: max(lo, min(hi, sgn(x, w) + (sgn(y, w) if add else -sgn(y, w)))), sf)
    if base.startswith('abs.'):
        def f(st, a):
            x = a[0]
            if type(x) is int: return abs(sgn(x, w)) & mask
            return simp(If(x < 0, -x, x))
        return f
    if base.startswith('ctpop.'):
        def f(st, a):
            x = a[0]
            if type(x) is int: return bin(x).count('1')
            e = BV(0, w)
            for i in range(w): e = e + z3.ZeroExt(w - 1, Extract(i, i, x))
            return simp(e)
        return f
    if base.startswith(('ctlz.', 'cttz.')):
        lz = base.startswith('ctlz')
        def f(st, a):
            x = a[0]
            if type(x) is int:
                if x == 0: return w
                return w - x.bit_length() if lz else (x & -x).bit_length() - 1
            e = BV(w, w)
            rng = range(w) if lz else range(w - 1, -1, -1)
            for i in rng:
                e = If(Extract(i, i, x) == 1, BV(w - 1 - i if lz else i, w), e)
            return simp(e)
        return f
    if base.startswith('bswap.'):
        def f(st, a):
            x = a[0]
            if type(x) is int: return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            return simp(z3.Concat(*[Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
        return f
    if base.startswith('bitreverse.'):
        def f(st, a):
            x = a[0]
            if type(x) is int: return int(bin(x)[2:].zfill(w)[::-1], 2)
            return simp(z3.Concat(*[Extract(i, i, x) for i in range(w)]))
        return f
    if base.startswith(('fshl.', 'fshr.')):
        left = base.startswith('fshl')
        def f(st, a):
            x, y, s = a
            if type(s) is not int: s = con(ex, st, simp(z3.URem(s, BV(w, w))), site)
            s %= w
            if type(x) is int and type(y) is int:
                c = (x << w) | y
                return ((c << s) >> w) & mask if left else (c >> s) & mask
            c = z3.Concat(bv(x, w), bv(y, w))
            return simp(Extract(2 * w - 1 - s, w - s, c)) if left else simp(Extract(w - 1 + s, s, c))
        return f
    m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
    if m:
        s = m.group(1) == 's'; op = m.group(2)
        lo = -(1 << (w - 1)); hi = (1 << (w - 1)) - 1
        def f(st, a):
            x, y = a[0], a[1]
            if type(x) is int and type(y) is int:
                if s: x = sgn(x, w); y = sgn(y, w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ov = not (lo <= r <= hi) if s else not (0 <= r <= mask)
                return (r & mask, int(ov))
            x = bv(x, w); y = bv(y, w)
            if op == 'add':
                r = x + y
                ov = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))) if s else z3.ULT(r, x)
            elif op == 'sub':
                r = x - y
                ov = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))) if s else z3.ULT(x, y)
            else:
                r = x * y
                ov = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y) if s else z3.BoolVal(True)))
            return (simp(r), simp(ov))
        return f
    if base.startswith(('ucmp.', 'scmp.')):
        rw = rt.w
        u = base[0] == 'u'
        def f(st, a):
            x, y = a
            if type(x) is int and type(y) is int:
                if not u: x = sgn(x, w); y = sgn(y, w)
                return ((x > y) - (x < y)) & ((1 << rw) - 1)
            x = bv(x, w); y = bv(y, w)
            lt = z3.ULT(x, y) if u else x < y
            return simp(If(x == y, BV(0, rw), If(lt, BV((1 << rw) - 1, rw), BV(1, rw))))
        return f
    return None


def pyround(v):  # half away from zero
    if not math.isfinite(v): return v
    r = math.floor(abs(v)); d = abs(v) - r
    if d >= 0.5: r += 1
    return math.copysign(float(r), v)


def few(ex, st, e, site, limit=300):
    if ex.enum_values(st, e, limit) is None: raise Unsupported('more than %d values' % limit)
    return ex.concretize(st, e, site)


def float_bits(x): return z3.fpToIEEEBV(x) if isfp(x) else x


def few_floats(ex, st, x, dbl, limit): return ex.enum_values(st, float_bits(x), limit) is not None


def one_float(ex, st, x, dbl, site): return ex.concretize(st, float_bits(x), site)


def fllvm(ex, base, args, rt, site):
    t0 = args[0][0]
    dbl = t0.k == 'double'
    so = F64 if dbl else F32
    def un(cf, sf):
        def f(st, a):
            x = a[0]
            if type(x) is int: return f_enc(cf(f_dec(x, dbl)), dbl)
            return fsimp(sf(fp(x, dbl)))
        return f
    fin = lambda g: (lambda v: math.copysign(float(g(v)), v) if math.isfinite(v) else v)
    RI = z3.fpRoundToIntegral
    if base.startswith('fabs.'): return un(abs, z3.fpAbs)
    if base.startswith('floor.'): return un(fin(math.floor), lambda x: RI(RTN, x))
    if base.startswith('ceil.'): return un(fin(math.ceil), lambda x: RI(RTP, x))
    if base.startswith('trunc.'): return un(fin(math.trunc), lambda x: RI(RTZ, x))
    if base.startswith('round.'): return un(pyround, lambda x: RI(RNA, x))
    if base.startswith(('rint.', 'roundeven.', 'nearbyint.')): return un(fin(round), lambda x: RI(RNE, x))
    if base.startswith('sqrt.'): return un(lambda v: math.sqrt(v) if v >= 0 else math.nan, lambda x: z3.fpSqrt(RNE, x))
    if base.startswith('copysign.'):
        sb = 1 << (63 if dbl else 31)
        def f(st, a):
            x, y = a
            if type(x) is int and type(y) is int: return (x & ~sb) | (y & sb)
            X = z3.fpAbs(fp(x, dbl)); Y = fp(y, dbl)
            return fsimp(z3.If(z3.fpIsNegative(Y), z3.fpNeg(X), X))
        return f
    m = re.match(r'(minnum|maxnum|minimumnum|maximumnum|minimum|maximum)\.', base)
    if m:
        mn = m.group(1).startswith('min')
        prop = m.group(1) in ('minimum', 'maximum')
        def f(st, a):
            x, y = a[0], a[1]
            if type(x) is int and type(y) is int:
                u = f_dec(x, dbl); v = f_dec(y, dbl)
                if u != u: return x if prop else y
                if v != v: return y if prop else x
                return (x if u < v else y) if mn else (x if u > v else y)
            X = fp(x, dbl); Y = fp(y, dbl)
            pick = z3.fpLT(X, Y) if mn else z3.fpGT(X, Y)
            e = z3.If(z3.fpIsNaN(X), X if prop else Y, z3.If(z3.fpIsNaN(Y), Y if prop else X, z3.If(pick, X, Y)))
            return fsimp(e)
        return f
    if base.startswith(('fma.', 'fmuladd.')):
        def f(st, a):
            if all(type(x) is int for x in a) and base.startswith('fmuladd.') is None: pass
            return fsimp(z3.fpFMA(RNE, fp(a[0], dbl), fp(a[1], dbl), fp(a[2], dbl)))
        return f
    m = re.match(r'fpto([us])i\.sat\.', base)
    if m:
        s = m.group(1) == 's'; w = rt.w
        lo = -(1 << (w - 1)) if s else 0
        hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        mask = (1 << w) - 1
        def f(st, a):
            x = a[0]
            if type(x) is int:
                v = f_dec(x, dbl)
                if v != v: return 0
                if math.isinf(v): return (hi if v > 0 else lo) & mask
                return max(lo, min(hi, int(v))) & mask
            X = fp(x, dbl)
            ww = w + 1
            # saturate by comparing with bounds in the float domain (truncation towards zero)
            T_ = z3.fpRoundToIntegral(RTZ, X)
            flo = z3.fpRealToFP(RTP, z3.RealVal(lo), so) if False else z3.simplify(z3.fpToFP(RTP, z3.RealVal(lo), so))
            fhi = z3.simplify(z3.fpToFP(RTN, z3.RealVal(hi), so))
            conv = z3.fpToSBV(RTZ, X, z3.BitVecSort(w)) if s else z3.fpToUBV(RTZ, X, z3.BitVecSort(w))
            e = z3.If(z3.fpIsNaN(X), BV(0, w), z3.If(z3.fpLT(T_, flo), BV(lo & mask, w), z3.If(z3.fpGT(T_, fhi), BV(hi, w), conv)))
            return simp(e)
        return f
    if base.startswith('is.fpclass'):
        def f(st, a):
            x, k = a
            if type(x) is int:
                X = fp(x, dbl)
            else: X = fp(x, dbl)
            neg = z3.fpIsNegative(X)
            cl = []
            if k & 0x003: cl.append(z3.fpIsNaN(X))
            for bit, c in ((0x004, z3.And(z3.fpIsInf(X), neg)), (0x008, z3.And(z3.fpIsNormal(X), neg)), (0x010, z3.And(z3.fpIsSubnormal(X), neg)),
                           (0x020, z3.And(z3.fpIsZero(X), neg)), (0x040, z3.And(z3.fpIsZero(X), z3.Not(neg))), (0x080, z3.And(z3.fpIsSubnormal(X), z3.Not(neg))),
                           (0x100, z3.And(z3.fpIsNormal(X), z3.Not(neg))), (0x200, z3.And(z3.fpIsInf(X), z3.Not(neg)))):
                if k & bit: cl.append(c)
            return simp(z3.Or(cl) if cl else z3.BoolVal(False))
        return f
    if base.startswith('powi.'):
        def f(st, a):
            x, n = a[0], a[1]
            if type(n) is not int: n = few(ex, st, n, site)
            n = sgn(n, 32)
            if type(x) is not int and few_floats(ex, st, x, dbl, 64): x = one_float(ex, st, x, dbl, site)
            if type(x) is int:
                # compiler-rt: repeated squaring in the type itself, reciprocal at the end
                r, b, k = 1.0, f_dec(x, dbl), abs(n)
                rnd = lambda v: f_dec(f_enc(v, dbl), dbl)
                while k:
                    if k & 1: r = rnd(r * b)
                    k >>= 1
                    if k: b = rnd(b * b)
                if n < 0: r = rnd(1.0 / r) if r else math.copysign(math.inf, r)
                return f_enc(r, dbl)
            r, b, k = z3.FPVal(1.0, so), fp(x, dbl), abs(n)
            while k:
                if k & 1: r = z3.fpMul(RNE, r, b)
                k >>= 1
                if k: b = z3.fpMul(RNE, b, b)
            if n < 0: r = z3.fpDiv(RNE, z3.FPVal(1.0, so), r)
            return fsimp(r)
        return f
    if base.startswith('ldexp.'):
        def f(st, a):
            x, n = a[0], a[1]
            if type(n) is not int: n = few(ex, st, n, site)
            n = sgn(n, 32)
            if type(x) is int:
                try: return f_enc(math.ldexp(f_dec(x, dbl), n), dbl)
                except OverflowError: return f_enc(math.copysign(math.inf, f_dec(x, dbl)), dbl)
            if abs(n) > (1022 if dbl else 126): raise Unsupported('ldexp by %d' % n)
            return fsimp(z3.fpMul(RNE, fp(x, dbl), z3.FPVal(2.0 ** n, so)))
        return f
    m = re.match(r'(log2|log10|log|exp2|exp|sin|cos|pow)\.f', base)
    if m:
        # library functions without an SMT theory: one path per argument value, when there are few
        g = {'exp2': lambda v: 2.0 ** v}.get(m.group(1)) or getattr(math, m.group(1))
        def f(st, a):
            xs = []
            for x in a:
                if type(x) is not int:
                    if not few_floats(ex, st, x, dbl, 300): raise Unsupported('symbolic ' + base)
                    x = one_float(ex, st, x, dbl, site)
                xs.append(f_dec(x, dbl))
            try: return f_enc(g(*xs), dbl)
            except OverflowError: return f_enc(math.inf, dbl)
            except ValueError: return f_enc(-math.inf if m.group(1)[:3] == 'log' and xs[0] == 0 else math.nan, dbl)
        return f
    return None
