"""Parser for the subset of textual LLVM IR that rustc emits (fat-LTO module of a harness crate).

Functions are split out of the module eagerly (cheap) and parsed lazily (only what is executed)."""
import re

TOK = re.compile(r'''
   (?P<str>c?"[^"]*")
 | (?P<loc>%"[^"]*"|%[\w.$\-]+)
 | (?P<glob>@"[^"]*"|@[\w.$\-]+)
 | (?P<meta>![\w.\\]*(?:"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][+\-]?\d+)?|f?0x[HKLMR]?[0-9A-Fa-f]+|-?\d+(?![\w.]))
 | (?P<dots>\.\.\.)
 | (?P<word>[+\-]?[A-Za-z_$][\w.$\-]*|\d+[\w.]*:?)
 | (?P<p>[\[\](){}<>,=*|:])
 | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j + 1
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot tokenize: ' + s[i:i + 60])
        i = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', '_size', '_align', '_offs')

    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False):
        self.k = k; self.w = w; self.n = n; self.el = el; self.els = els; self.packed = packed
        self._size = None; self._align = None; self._offs = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.els))
        return self.k

    def align(self):
        if self._align is None:
            k = self.k
            if k == 'int':
                b = (self.w + 7) // 8
                a = 1
                while a < b: a *= 2
                self._align = min(a, 16)
            elif k == 'ptr': self._align = 8
            elif k == 'float': self._align = 4
            elif k == 'double': self._align = 8
            elif k == 'arr': self._align = self.el.align()
            elif k == 'vec': self._align = max(1, self.size())
            elif k == 'struct': self._align = 1 if self.packed else max([e.align() for e in self.els] or [1])
            else: raise ParseError('align of ' + k)
        return self._align

    def size(self):
        """Allocation size (stride)."""
        if self._size is None:
            k = self.k
            if k == 'int':
                b = (self.w + 7) // 8
                a = self.align()
                self._size = (b + a - 1) // a * a
            elif k == 'ptr': self._size = 8
            elif k == 'float': self._size = 4
            elif k == 'double': self._size = 8
            elif k == 'arr': self._size = self.n * self.el.size()
            elif k == 'vec': self._size = (self.n * (self.el.w if self.el.k == 'int' else self.el.size() * 8) + 7) // 8
            elif k == 'struct': self.offs()
            else: raise ParseError('size of ' + k)
        return self._size

    def offs(self):
        if self._offs is None:
            o = 0
            l = []
            for e in self.els:
                if not self.packed:
                    a = e.align()
                    o = (o + a - 1) // a * a
                l.append(o)
                o += e.size()
            if not self.packed:
                a = self.align()
                o = (o + a - 1) // a * a
            self._size = o
            self._offs = l
        return self._offs


_ints = {}


def IntT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = T('int', w)
    return t


PTR = T('ptr', 64)
FLOAT = T('float', 32)
DOUBLE = T('double', 64)
VOID = T('void')
META = T('metadata')
LABEL = T('label')

INT_RE = re.compile(r'i(\d+)$')


class P:
    """Token cursor."""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def peek2(self):
        return self.t[self.i + 1] if self.i + 1 < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise ParseError('expected %r got %r near %r' % (s, x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

    def type(self):
        x = self.next()
        m = INT_RE.match(x)
        if m: t = IntT(int(m.group(1)))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif x == 'float': t = FLOAT
        elif x == 'double': t = DOUBLE
        elif x == 'void': t = VOID
        elif x == 'metadata': t = META
        elif x == 'label': t = LABEL
        elif x == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']')
            t = T('arr', n=n, el=el)
        elif x == '{':
            t = T('struct', els=self._types('}'))
        elif x == '<':
            if self.accept('{'):
                els = self._types('}')
                self.expect('>')
                t = T('struct', els=els, packed=True)
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>')
                t = T('vec', n=n, el=el)
        elif x[0] == '%':
            t = self.mod.named_type(x)
        else:
            raise ParseError('type? %r near %r' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))
        # function type: "T (args)" appears in varargs calls
        return t

    def _types(self, end):
        els = []
        if self.accept(end): return els
        while True:
            els.append(self.type())
            if self.accept(end): return els
            self.expect(',')

    VAL_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'ptrtoint', 'ptrtoaddr',
                 'inttoptr', 'bitcast', 'trunc', 'add', 'sub', 'xor', 'blockaddress', 'dso_local_equivalent', 'no_cfi', 'asm', 'splat'}

    def skip_attrs(self):
        """Skip parameter/return attributes in front of a value (or type)."""
        while True:
            x = self.peek()
            if x is None: return
            c = x[0]
            if c in '%@{[<(' or x in self.VAL_WORDS: return
            if c == '"' :
                self.next()
                if self.accept('='): self.next()
                continue
            if c == 'c' and x.startswith('c"'): return
            if c.isdigit() or c == '-' or x.startswith('f0x'): return
            if c.isalpha():
                # type keyword?
                if INT_RE.match(x) or x in ('ptr', 'float', 'double', 'void', 'metadata', 'label'): return
                self.next()
                if x == 'align' and self.peek() != '(':
                    self.next()
                elif self.peek() == '(':
                    self.skip_parens()
                continue
            return


class Func:
    __slots__ = ('name', 'text', 'params', 'rett', 'blocks', 'parsed', 'mod', 'compiled', 'demangled')

    def __init__(self, name, text, mod):
        self.name = name; self.text = text; self.parsed = False; self.mod = mod; self.compiled = None

    def header(self):
        p = P(tokenize(self.text[0][self.text[0].index('define') + 6:]), self.mod)
        # linkage etc. until return type
        while True:
            x = p.peek()
            if INT_RE.match(x) or x in ('ptr', 'float', 'double', 'void') or x in '[{<' or x[0] == '%': break
            p.next()
            if p.peek() == '(' : p.skip_parens()
            elif x == 'align': p.next()
        self.rett = p.type()
        p.next()  # @name
        p.expect('(')
        self.params = []
        if not p.accept(')'):
            while True:
                if p.peek() == '...':
                    p.next(); p.expect(')'); break
                t = p.type()
                p.skip_attrs()
                self.params.append((t, p.next()))
                if p.accept(')'): break
                p.expect(',')


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globals = {}     # name -> line
        self.decls = set()
        self.types = {}
        self._tcache = {}
        self.aliases = {}
        cur = None
        with open(path, 'r', encoding='utf-8', errors='surrogateescape') as f:
            for line in f:
                if cur is not None:
                    if line[0] == '}':
                        cur = None
                    else:
                        cur.append(line)
                    continue
                c = line[0]
                if c == 'd':
                    m = re.match(r'(define|declare)\b.*?(@"[^"]*"|@[\w.$\-]+)\(', line)
                    if not m: continue
                    if m.group(1) == 'declare':
                        self.decls.add(m.group(2))
                    else:
                        cur = [line]
                        self.funcs[m.group(2)] = Func(m.group(2), cur, self)
                elif c == '@':
                    m = re.match(r'(@"[^"]*"|@[\w.$\-]+) = (.*)', line)
                    self.globals[m.group(1)] = m.group(2)
                elif c == '%':
                    m = re.match(r'(%"[^"]*"|%[\w.$\-]+) = type (.*)', line)
                    self.types[m.group(1)] = m.group(2)

    def named_type(self, n):
        t = self._tcache.get(n)
        if t is None:
            t = self._tcache[n] = P(tokenize(self.types[n]), self).type()
        return t
