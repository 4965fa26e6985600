"""Reader for LLVM 18 textual IR: types with layout, functions, blocks, instructions."""
import re

TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
 | (?P<attr>\#[0-9]+)
 | (?P<dq>"(?:[^"\\]|\\.)*")
 | (?P<num>-?(?:0x[0-9A-Fa-fKLMH]+|[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|[0-9]+))
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ValueError('lex: ' + s[i:i + 60])
        out.append(m.group(0))
        i = m.end()
    return out


class Ty:
    pass


class TyInfo:
    """Types are tuples: ('i',n) ('f',32|64) ('ptr',) ('void',) ('arr',n,t) ('st',(..),packed) ('named',n) ('vec',n,t) ('fn',)"""

    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            if p > 16: p = 16
            return p, min(p, 16)
        if k == 'f':
            return (t[1] // 8 if t[1] != 80 else 16), (t[1] // 8 if t[1] != 80 else 16)
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'st':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque':
            return 0, 1
        raise ValueError('size of %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IndexError


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'returned', 'immarg', 'nofree', 'swiftself', 'inreg', 'allocptr', 'allocalign', 'nest', 'dso_local', 'dead_on_unwind', 'writable', 'nofpclass', 'nonull', 'nosync'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated', 'inalloca', 'elementtype', 'range', 'initializes', 'memory', 'allockind', 'vscale_range', 'uwtable', 'nofpclass', 'addrspace'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nneg', 'disjoint', 'volatile', 'nusw'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
           'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'localdynamic', 'initialexec', 'localexec', 'externally_initialized', 'fastcc', 'ccc', 'coldcc', 'tailcc', 'constant', 'global'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise ValueError('expected %r at %r' % (x, self.t[max(0, self.i - 3):self.i + 6]))
        self.i += 1

    def skip_balanced(self, o, c):
        d = 0
        while True:
            x = self.next()
            if x == o: d += 1
            elif x == c:
                d -= 1
                if d == 0: return

    def ty(self):
        x = self.next()
        if x == 'void': r = ('void',)
        elif x == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.skip_balanced('(', ')')
        elif x in ('float', 'double', 'half', 'x86_fp80', 'fp128'): r = ('f', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}[x])
        elif x == 'label' or x == 'token' or x == 'metadata' or x == 'opaque': r = (x,)
        elif re.fullmatch(r'i[0-9]+', x): r = ('i', int(x[1:]))
        elif x[0] == '%': r = ('named', x)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.ty(); self.expect(']'); r = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); r = ('st', tuple(self.tylist('}')), True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.ty(); self.expect('>'); r = ('vec', n, e)
        elif x == '{':
            r = ('st', tuple(self.tylist('}')), False)
        else:
            raise ValueError('type %r in %r' % (x, ' '.join(self.t)[:200]))
        while self.peek() == '(':  # function type
            self.next()
            while not self.accept(')'):
                if self.accept('...') or self.accept(','): continue
                self.ty()
                self.attrs()
            r = ('fn', r)
        return r

    def tylist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.ty())
            self.accept(',')
        return out

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PAREN_ATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_balanced('(', ')')
                elif x == 'align':
                    self.next()
            elif x and x[0] == '"':
                self.next()
                if self.accept('='): self.next()
            else:
                return

    def val(self, ty):
        """operand of the given type -> ('reg',n) ('glob',n) ('int',v) ('fp',x) ('null',) ('undef',) ('zero',) ('agg',..) ('ce',op,...)"""
        x = self.next()
        if x[0] == '%': return ('reg', x)
        if x[0] == '@': return ('glob', x)
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x[0] == 'c' and x[1:2] == '"': return ('str', x)
        if x == 'blockaddress':
            self.skip_balanced('(', ')'); return ('undef',)
        if x in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next(); end = '}'
                els = self.vals(end); self.expect('>')
                return ('agg', els)
            els = self.vals(end)
            return ('agg', els)
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'sub', 'add', 'icmp', 'select', 'xor', 'mul', 'shl', 'addrspacecast', 'dso_local_equivalent', 'no_cfi'):
            while self.peek() in FLAGS: self.next()
            if self.peek() == 'inrange': self.next()
            pred = None
            if x == 'icmp': pred = self.next()
            self.expect('(')
            if x == 'getelementptr':
                t = self.ty(); self.expect(',')
                ops = []
                while True:
                    if self.peek() == 'inrange': self.next()
                    tt = self.ty(); ops.append((tt, self.val(tt)))
                    if not self.accept(','): break
                self.expect(')')
                return ('ce', 'getelementptr', t, ops)
            if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                tt = self.ty(); v = self.val(tt); self.expect('to'); t2 = self.ty(); self.expect(')')
                return ('ce', x, tt, v, t2)
            ops = []
            while True:
                tt = self.ty(); ops.append((tt, self.val(tt)))
                if not self.accept(','): break
            self.expect(')')
            return ('ce', x, pred, ops)
        if re.fullmatch(r'-?[0-9]+', x): 
            return ('int', int(x)) if ty[0] != 'f' else ('fp', float(x))
        if x.startswith('0x'):
            return ('fp', _hexfp(x, ty))
        return ('fp', float(x))

    def vals(self, end):
        out = []
        while not self.accept(end):
            t = self.ty(); out.append((t, self.val(t))); self.accept(',')
        return out

    def tval(self):
        t = self.ty(); self.attrs(); return t, self.val(t)


def _hexfp(x, ty):
    import struct
    if x[2] in 'KLMH': return float('nan')
    v = struct.unpack('>d', int(x[2:], 16).to_bytes(8, 'big'))[0]
    return v


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'exact')

    def __init__(self, op, dst, ty, a, line=None):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line
        self.exact = False

    def __repr__(self):
        return '%s = %s %r' % (self.dst, self.op, self.a)


class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs
        self.blocks = {}   # label -> [Inst]
        self.order = []


class Module:
    def __init__(self, text):
        self.types = TyInfo()
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.ctors = []
        self.attr = {}
        self.md = {}
        lines = text.split('\n')
        # attribute groups first
        for l in lines:
            if l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attr[m.group(1)] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = type (.*)', l)
                p = P(lex(m.group(2)), self)
                self.types.named[m.group(1)] = p.ty()
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self._func(lines[i:j + 1])
                i = j
            elif l.startswith('declare'):
                self._decl(l)
            elif l.startswith('@'):
                self._global(l)
            i += 1

    def _header(self, l):
        toks = lex(l.rstrip('{ '))
        p = P(toks, self)
        p.next()
        while p.peek() in LINKAGE: p.next()
        p.attrs()
        while p.peek() in LINKAGE: p.next()
        rt = p.ty()
        name = p.next()
        p.expect('(')
        params = []
        while not p.accept(')'):
            if p.accept('...'):
                params.append((('varargs',), None)); continue
            t = p.ty(); p.attrs()
            n = p.next() if p.peek() and p.peek()[0] == '%' else None
            params.append((t, n))
            p.accept(',')
        attrs = set()
        raw = ''
        for x in toks[p.i:]:
            if x[0] == '#': raw += self.attr.get(x, '')
        for w in ('noreturn', 'nounwind', 'readnone', 'readonly'):
            if re.search(r'\b%s\b' % w, raw): attrs.add(w)
        return Func(unq(name), rt, params, attrs)

    def _decl(self, l):
        f = self._header(l)
        self.decls[f.name] = f

    def _global(self, l):
        try:
            m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)', l)
            name = unq(m.group(1))
            rest = m.group(2)
            if 'llvm.global_ctors' in name:
                self.ctors = [unq(x) for x in re.findall(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)), ptr', rest)]
                return
            if ' alias ' in ' ' + rest:
                mm = re.search(r', ptr (@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))', rest)
                if mm: self.aliases[name] = unq(mm.group(1))
                return
            toks = lex(rest)
            p = P(toks, self)
            const = False
            while p.peek() in LINKAGE or p.peek() == 'comdat':
                x = p.next()
                if x == 'constant': const = True
                if x == 'thread_local' and p.peek() == '(': p.skip_balanced('(', ')')
            t = p.ty()
            init = None
            if p.peek() not in (None, ',') and 'external' not in toks[:3]:
                init = p.val(t)
            self.globals[name] = (t, init, const)
        except Exception:
            self.globals[unq(l.split(' ')[0])] = (('opaque',), None, False)

    def _func(self, ls):
        f = self._header(ls[0])
        self.funcs[f.name] = f
        # implicit numbering of entry label
        cnt = 0
        for t, n in f.params:
            pass
        nums = [int(n[1:]) for t, n in f.params if n and re.fullmatch(r'%\d+', n)]
        unnamed = len([1 for t, n in f.params if n and re.fullmatch(r'%\d+', n)])
        cur = '%' + str(unnamed)
        f.blocks[cur] = []
        f.order.append(cur)
        first = True
        k = 1
        while k < len(ls) - 1:
            l = ls[k]
            k += 1
            if not l.strip() or l.strip().startswith(';'): continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', l)
            if m and not l.startswith(' '):
                lab = '%' + m.group(1)
                if first and not f.blocks[cur]:
                    del f.blocks[cur]; f.order.pop()
                cur = lab
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                continue
            # multi-line: switch / landingpad / invoke
            s = l
            if re.search(r'\bswitch\b.*\[\s*$', s):
                while ls[k - 1].strip() != ']' and not ls[k - 1].strip().startswith(']'):
                    s += ' ' + ls[k].strip(); k += 1
            while k < len(ls) - 1 and re.match(r'\s+(to label|catch |filter |cleanup)', ls[k]):
                s += ' ' + ls[k].strip(); k += 1
            f.blocks[cur].append(self._inst(s))
            first = False

    def _inst(self, s):
        toks = lex(s)
        # strip metadata suffix
        depth = 0
        for n, x in enumerate(toks):
            if x in '([{': depth += 1
            elif x in ')]}': depth -= 1
            if x[0] == '!' and depth == 0 and n > 0 and toks[n - 1] == ',' :
                toks = toks[:n - 1]
                break
        p = P(toks, self)
        dst = None
        if p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        tail = False
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            exact = False
            while p.peek() in FLAGS: exact = p.next() == 'exact' or exact
            t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            r = Inst(op, dst, t, (a, b))
            r.exact = exact
            return r
        if op == 'fneg':
            while p.peek() in FLAGS: p.next()
            t = p.ty(); return Inst(op, dst, t, (p.val(t),))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pred = p.next()
            while p.peek() in FLAGS: p.next()
            t = p.ty(); a = p.val(t); p.expect(','); b = p.val(t)
            return Inst(op, dst, t, (pred, a, b))
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in FLAGS: p.next()
            t = p.ty(); a = p.val(t); p.expect('to'); t2 = p.ty()
            return Inst(op, dst, t2, (t, a))
        if op == 'select':
            while p.peek() in FLAGS: p.next()
            ct, c = p.tval(); p.expect(','); t, a = p.tval(); p.expect(','); t2, b = p.tval()
            return Inst(op, dst, t, (c, a, b))
        if op == 'phi':
            while p.peek() in FLAGS: p.next()
            t = p.ty(); inc = []
            while True:
                p.expect('['); v = p.val(t); p.expect(','); lab = p.next(); p.expect(']')
                inc.append((v, lab))
                if not p.accept(','): break
            return Inst(op, dst, t, inc)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Inst('br', None, None, (p.next(),))
            t, c = p.tval(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return Inst('condbr', None, None, (c, a, b))
        if op == 'switch':
            t, v = p.tval(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                tt, c = p.tval(); p.expect(','); p.expect('label'); cases.append((c, p.next()))
            return Inst('switch', None, t, (v, d, cases))
        if op == 'ret':
            t = p.ty()
            if t == ('void',): return Inst('ret', None, t, None)
            p.attrs()
            return Inst('ret', None, t, p.val(t))
        if op == 'unreachable':
            return Inst(op, None, None, None)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.ty(); n = None
            while p.accept(','):
                if p.peek() == 'align': p.next(); p.next()
                else:
                    nt = p.ty(); n = p.val(nt)
            return Inst(op, dst, t, n)
        if op == 'load':
            p.accept('atomic')
            while p.peek() in FLAGS: p.next()
            t = p.ty(); p.expect(','); pt, a = p.tval()
            return Inst(op, dst, t, a)
        if op == 'store':
            p.accept('atomic')
            while p.peek() in FLAGS: p.next()
            t, v = p.tval(); p.expect(','); pt, a = p.tval()
            return Inst(op, None, t, (v, a))
        if op == 'getelementptr':
            while p.peek() in FLAGS: p.next()
            t = p.ty(); p.expect(','); ops = []
            while True:
                ops.append(p.tval())
                if not p.accept(','): break
            return Inst(op, dst, t, ops)
        if op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in LINKAGE: p.next()
            p.attrs()
            rt = p.ty()
            if rt[0] == 'fn': rt = rt[1]
            callee = p.val(('ptr',)) if p.peek() != 'asm' else ('asm', None)
            if callee[0] == 'asm':
                while p.peek() != '(': p.next()
            p.expect('('); args = []
            while not p.accept(')'):
                t = p.ty(); p.attrs()
                if t == ('metadata',):
                    # metadata operand
                    d = 0
                    while not (p.peek() in (',', ')') and d == 0):
                        x = p.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append((t, ('undef',)))
                else:
                    args.append((t, p.val(t)))
                p.accept(',')
            attrs = []
            noret = False
            while p.peek() and p.peek() not in ('to', '[', ','):
                x = p.next()
                if x[0] == '#' and 'noreturn' in self.attr.get(x, ''): noret = True
            if p.peek() == '[':
                p.skip_balanced('[', ']')
            dests = None
            if op == 'invoke':
                p.expect('to'); p.expect('label'); n = p.next(); p.expect('unwind'); p.expect('label'); u = p.next()
                dests = (n, u)
            return Inst(op, dst, rt, (callee, args, noret, dests))
        if op == 'extractvalue':
            t, v = p.tval(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Inst(op, dst, t, (v, idx))
        if op == 'insertvalue':
            t, v = p.tval(); p.expect(','); t2, e = p.tval(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Inst(op, dst, t, (v, t2, e, idx))
        if op == 'freeze':
            t, v = p.tval(); return Inst(op, dst, t, v)
        if op == 'landingpad':
            return Inst(op, dst, p.ty(), None)
        if op == 'resume':
            t, v = p.tval(); return Inst(op, None, t, v)
        if op == 'atomicrmw':
            while p.peek() in FLAGS: p.next()
            k = p.next(); pt, a = p.tval(); p.expect(','); t, v = p.tval()
            return Inst(op, dst, t, (k, a, v))
        if op == 'cmpxchg':
            return Inst(op, dst, ('st', (('i', 32), ('i', 1)), False), None)
        if op == 'fence':
            return Inst(op, None, None, None)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            ops = []
            while True:
                ops.append(p.tval())
                if not p.accept(','): break
            return Inst(op, dst, ops[0][0], ops)
        return Inst(op, dst, None, toks)


def unq(n):
    n = n[1:] if n[0] in '@%' else n
    if n.startswith('"'): n = n[1:-1]
    return n
