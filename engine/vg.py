"""Gated value graphs of LLVM IR functions.

A function is summarised, without running it, as
  ret     : node of its result (phi nodes become `ite` gates on branch conditions)
  stops   : [(guard, kind)]          paths on which the program stops with a report (assertions, terminate, MPI_Abort)
  events  : [Event]                  externally visible calls / stores in program order, each under its guard
  loops   : affine loops are summarised as indexed families of events (see Loop)
"""
import os, sys, math, struct
from irparse import Inst
sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ('op', 'args', 'w', 'id')

    def __repr__(self):
        return show(self)


FOLDED = ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg')


class Graph:
    def __init__(self):
        self.tab = {}
        self.nodes = []
        self.n = 0
        self.unknowns = False
        self.lins = {}
        self.late, self.counts, self.unmet = {}, {}, False     # see laws.late_model
        self.true = self.mk('const', (1,), 1)
        self.false = self.mk('const', (0,), 1)

    generic = False

    def mk(self, op, args, w):
        k = (op, tuple(a.id if isinstance(a, Node) else ('#', repr(a) if isinstance(a, float) else a) for a in args), w)
        r = self.tab.get(k)
        if r is None:
            if op == 'pack' and args[0].op == 'const' == args[1].op and isinstance(args[0].args[0], int) and isinstance(args[1].args[0], int):
                return self.const((args[0].args[0] & 0xffffffff) | (args[1].args[0] & 0xffffffff) << 32, 64)
            if op in FOLDED:
                c = self.ffold(op, args, w)
                if c is not None: return c
            if self.generic and op == 'fcmp' and args[0] in ('oeq', 'ueq', 'one', 'une') and args[1] is not args[2]:
                return self.false if args[0] in ('oeq', 'ueq') else self.true   # data in general position
            r = Node()
            r.op, r.args, r.w, r.id = op, tuple(args), w, self.n
            self.n += 1
            self.tab[k] = r
            self.nodes.append(r)
        return r

    def ffold(self, op, args, w):
        """floating-point operations on constants (double precision only)"""
        ns = [a for a in args if isinstance(a, Node)]
        if not ns or any(n.op != 'const' or n.w not in ('f64', 'f32') for n in ns): return None
        fw = ns[0].w
        v = [float(n.args[0]) for n in ns]
        if op == 'fcmp':
            p, (a, b) = args[0], v
            if p in ('false', 'true'): return self.true if p == 'true' else self.false
            nan = a != a or b != b
            if p == 'ord': return self.false if nan else self.true
            if p == 'uno': return self.true if nan else self.false
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
            return self.true if (r and not nan if p[0] == 'o' else r or nan) else self.false
        if op == 'fneg': return self.const(-v[0], fw)
        a, b = v
        if op == 'fadd': r = a + b
        elif op == 'fsub': r = a - b
        elif op == 'fmul': r = a * b
        elif op == 'fdiv' and b != 0: r = a / b
        else: return None
        if fw == 'f32':   # the exact result in double rounds once more: correct for these operations
            try: r = struct.unpack('f', struct.pack('f', r))[0]
            except (OverflowError, struct.error): return None
        return self.const(r, fw)

    # ---- constructors -------------------------------------------------
    def const(self, v, w):
        if isinstance(w, int):
            v &= (1 << w) - 1
            if w > 1 and v >= 1 << (w - 1): v -= 1 << w
        return self.mk('const', (v,), w)

    def var(self, name, w):
        return self.mk('var', (name,), w)

    def isc(self, n):
        return n.op == 'const'

    # sums are kept in linear normal form: sorted terms with constant coefficients, constant outermost
    def lin(self, n):
        """-> (constant, ((term, coefficient), ...))"""
        r = self.lins.get(n.id)
        if r is None:
            if self.isc(n): r = (n.args[0], ())
            elif n.op == 'mul' and self.isc(n.args[1]): r = (0, ((n.args[0], n.args[1].args[0]),))
            else: r = (0, ((n, 1),))
            self.lins[n.id] = r
        return r

    def unlin(self, c, terms, w):
        r, n = None, 0
        for t, k in terms:
            x = t if k == 1 else self.mk('mul', (t, self.const(k, w)), w)
            r = x if r is None else self.mk('add', (r, x), w)
            n += 1
            if n > 1: self.lins[r.id] = (0, tuple(terms[:n]))
        if r is None: return self.const(c, w)
        k = self.const(c, w)
        if k.args[0] != 0: r = self.mk('add', (r, k), w)
        self.lins[r.id] = (k.args[0], tuple(terms))
        return r

    def add(self, a, b):
        w = a.w
        if self.isc(a) and self.isc(b): return self.const(a.args[0] + b.args[0], w)
        ca, ta = self.lin(a)
        cb, tb = self.lin(b)
        if not ta: ta, tb, ca, cb = tb, ta, cb, ca
        if not tb: return self.unlin(ca + cb, ta, w)
        d = {}
        for t, k in ta + tb: d[t.id] = (t, d[t.id][1] + k) if t.id in d else (t, k)
        m = (1 << w) - 1
        terms = [(t, self.const(k, w).args[0]) for t, k in d.values() if k & m]
        terms.sort(key=lambda x: x[0].id)
        return self.unlin(ca + cb, terms, w)

    def neg(self, a):
        return self.mul(a, self.const(-1, a.w))

    def sub(self, a, b):
        if a is b: return self.const(0, a.w)
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        w = a.w
        if self.isc(a): a, b = b, a
        if self.isc(b):
            c = b.args[0]
            if self.isc(a): return self.const(a.args[0] * c, w)
            if c == 0: return b
            if c == 1: return a
            ca, ta = self.lin(a)
            m = (1 << w) - 1
            return self.unlin(ca * c, [(t, self.const(k * c, w).args[0]) for t, k in ta if (k * c) & m], w)
        # a common constant factor is moved outside
        for x, y in ((a, b), (b, a)):
            if x.op == 'mul' and self.isc(x.args[1]): return self.mul(self.mul(x.args[0], y), x.args[1])
        if a.id > b.id: a, b = b, a
        return self.mk('mul', (a, b), w)

    def exactdiv(self, a, d):
        """a / d where the division is known to be exact"""
        c, ts = self.lin(a)
        if c % d == 0 and all(k % d == 0 for _, k in ts): return self.unlin(c // d, [(t, k // d) for t, k in ts], a.w)
        return None

    def factor(self, n):
        """constant that divides n"""
        from math import gcd
        c, ts = self.lin(n)
        r = abs(c)
        for _, k in ts: r = gcd(r, abs(k))
        return r

    def bin(self, op, a, b):
        w = a.w
        if op == 'add': return self.add(a, b)
        if op == 'sub': return self.sub(a, b)
        if op == 'mul': return self.mul(a, b)
        if w == 1:
            if op == 'and': return self.band(a, b)
            if op == 'or': return self.bor(a, b)
            if op == 'xor':
                if self.isc(b): return self.bnot(a) if b.args[0] else a
                if self.isc(a): return self.bnot(b) if a.args[0] else b
                return self.ite(a, self.bnot(b), b)
        if self.isc(a) and self.isc(b):
            x, y = a.args[0], b.args[0]
            m = (1 << w) - 1
            if op in ('sdiv', 'srem'):
                if y != 0:
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0): q = -q
                    return self.const(q if op == 'sdiv' else x - q * y, w)
            elif op in ('udiv', 'urem'):
                if y != 0:
                    return self.const((x & m) // (y & m) if op == 'udiv' else (x & m) % (y & m), w)
            elif op == 'and': return self.const(x & y, w)
            elif op == 'or': return self.const(x | y, w)
            elif op == 'xor': return self.const(x ^ y, w)
            elif op == 'shl': return self.const(x << (y & 127), w)
            elif op == 'lshr': return self.const((x & m) >> y, w)
            elif op == 'ashr': return self.const(x >> y, w)
        if self.isc(b):
            y = b.args[0]
            if op in ('sdiv', 'udiv') and y == 1: return a
            if op in ('srem', 'urem') and y == 1: return self.const(0, w)
            if op in ('shl', 'lshr', 'ashr', 'or', 'xor') and y == 0: return a
            if op == 'and' and y == 0: return b
            if op == 'and' and y == -1: return a
            if op == 'shl' and not (y == 32 and w == 64): return self.mul(a, self.const(1 << y, w))
            if op == 'shl' and y == 32:
                if a.op in ('zext', 'sext') and a.args[0].w == 32: return self.mk('pack', (self.const(0, 32), a.args[0]), 64)
                if a.op == 'pack': return self.mk('pack', (self.const(0, 32), a.args[0]), 64)
                return self.mul(a, self.const(1 << 32, w))
            if op == 'lshr' and y == 32 and a.op == 'pack': return self.ext('zext', a.args[1], 64)
            if op == 'ashr' and y == 32 and a.op == 'pack': return self.ext('sext', a.args[1], 64)
            if op == 'and' and a.op == 'pack' and w == 64:
                if y == 0xffffffff: return self.mk('pack', (a.args[0], self.const(0, 32)), 64)
                if y == -(1 << 32): return self.mk('pack', (self.const(0, 32), a.args[1]), 64)
        if op == 'or' and w == 64:
            if a.op == 'pack' or b.op == 'pack':
                p, q = self.halves(a), self.halves(b)
                if p and q:
                    def h(x, y):
                        if self.isc(x) and self.isc(y): return self.const(x.args[0] | y.args[0], 32)
                        return y if self.isc(x) and x.args[0] == 0 else x if self.isc(y) and y.args[0] == 0 else None
                    lo, hi = h(p[0], q[0]), h(p[1], q[1])
                    if lo and hi: return self.mk('pack', (lo, hi), 64)
        if op == 'and' or op == 'or' or op == 'xor':
            if a is b and op != 'xor': return a
            if a.id > b.id: a, b = b, a
        return self.mk(op, (a, b), w)

    def halves(self, a):
        """low and high 32 bits of a 64-bit value, when they are separate"""
        if a.op == 'pack': return a.args
        if a.op == 'zext' and a.args[0].w == 32: return a.args[0], self.const(0, 32)
        if self.isc(a):
            u = a.args[0] & ((1 << 64) - 1)
            sg = lambda x: x - (1 << 32) if x >> 31 else x
            return self.const(sg(u & 0xffffffff), 32), self.const(sg(u >> 32), 32)

    @property
    def wmemo(self):
        return self.__dict__.setdefault('_wmemo', {})

    def ext(self, op, a, w):
        if a.w == w: return a
        if self.isc(a):
            v = a.args[0]
            if op == 'zext': v &= (1 << a.w) - 1
            if op == 'sext' and a.w == 1: v = -v
            return self.const(v, w)
        if a.w == 1:
            return self.ite(a, self.const(1 if op == 'zext' else -1, w), self.const(0, w))
        if a.op == 'zext': return self.ext('zext', a.args[0], w)
        if a.op == 'sext' and op == 'sext': return self.ext('sext', a.args[0], w)
        if a.op == 'ite':
            r = self.wmemo.get((op, a.id, w))
            if r is None: self.wmemo[op, a.id, w] = r = self.ite(a.args[0], self.ext(op, a.args[1], w), self.ext(op, a.args[2], w))
            return r
        return self.mk(op, (a,), w)

    def trunc(self, a, w):
        if a.w == w: return a
        if self.isc(a): return self.const(a.args[0], w)
        if a.op in ('zext', 'sext'):
            if a.args[0].w == w: return a.args[0]
            if a.args[0].w < w: return self.ext(a.op, a.args[0], w)
            return self.trunc(a.args[0], w)
        if a.op == 'pack' and w <= 32: return self.trunc(a.args[0], w)
        if a.op == 'ite':
            r = self.wmemo.get(('trunc', a.id, w))
            if r is None: self.wmemo['trunc', a.id, w] = r = self.ite(a.args[0], self.trunc(a.args[1], w), self.trunc(a.args[2], w))
            return r
        if a.op == 'lshr' and self.isc(a.args[1]) and a.args[1].args[0] == 32 and w == 32:
            return self.mk('hi32', (a.args[0],), 32)
        if w == 1: return self.bnot(self.icmp('eq', self.bin('and', a, self.const(1, a.w)), self.const(0, a.w)))
        return self.mk('trunc', (a,), w)

    def bnot(self, a):
        if self.isc(a): return self.false if a.args[0] else self.true
        if a.op == 'not': return a.args[0]
        return self.mk('not', (a,), 1)

    def band(self, a, b):
        if self.isc(a): return b if a.args[0] else a
        if self.isc(b): return a if b.args[0] else b
        if a is b: return a
        if self.bnot(a) is b: return self.false
        if a.id > b.id: a, b = b, a
        return self.mk('and', (a, b), 1)

    def bor(self, a, b):
        if self.isc(a): return a if a.args[0] else b
        if self.isc(b): return b if b.args[0] else a
        if a is b: return a
        if self.bnot(a) is b: return self.true
        # (g and c) or (g and not c) = g
        if a.op == 'and' and b.op == 'and':
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j] and self.bnot(a.args[1 - i]) is b.args[1 - j]: return a.args[i]
        for x, y in ((a, b), (b, a)):
            if x.op == 'and' and y in x.args: return y
            if x.op == 'and':
                for i in (0, 1):
                    if self.bnot(x.args[i]) is y: return self.bor(x.args[1 - i], y)
        if a.id > b.id: a, b = b, a
        return self.mk('or', (a, b), 1)

    def ite(self, c, a, b):
        if self.isc(c): return a if c.args[0] else b
        if a is b: return a
        if c.op == 'not': return self.ite(c.args[0], b, a)
        if a.w == 1:
            if self.isc(a): return self.bor(c, b) if a.args[0] else self.band(self.bnot(c), b)
            if self.isc(b): return self.bor(self.bnot(c), a) if b.args[0] else self.band(c, a)
        if a.op == 'ite' and a.args[0] is c: a = a.args[1]
        if b.op == 'ite' and b.args[0] is c: b = b.args[2]
        if a is b: return a
        return self.mk('ite', (c, a, b), a.w)

    def icmp(self, pred, a, b):
        if pred == 'ne': return self.bnot(self.icmp('eq', a, b))
        if pred in ('sgt', 'sge', 'ugt', 'uge'):
            return self.icmp({'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[pred], b, a)
        if pred in ('sle', 'ule'): return self.bnot(self.icmp(pred[0] + 'lt', b, a))
        # eq, slt, ult remain
        if a is b: return self.true if pred == 'eq' else self.false
        if self.isc(a) and self.isc(b):
            x, y = a.args[0], b.args[0]
            if pred == 'ult':
                m = (1 << a.w) - 1
                x &= m; y &= m
            return self.true if (x == y if pred == 'eq' else x < y) else self.false
        if pred == 'ult' and self.isc(b) and b.args[0] == 0: return self.false
        if a.w == 1 and pred == 'eq':
            if self.isc(b): return a if b.args[0] else self.bnot(a)
            if self.isc(a): return b if a.args[0] else self.bnot(b)
        if pred == 'eq':
            if a.op == 'ite' and self.isc(b) and (self.isc(a.args[1]) or self.isc(a.args[2])):
                return self.ite(a.args[0], self.icmp(pred, a.args[1], b), self.icmp(pred, a.args[2], b))
            # distinct objects
            (ba, oa), (bb, ob) = self.split(a), self.split(b)
            if ba.op in ('obj', 'glob') and bb.op in ('obj', 'glob') and ba is not bb: return self.false
            if ba.op == 'glob' and isinstance(oa, int) and 0 <= oa < 1 << 30 and self.isc(b) and b.args[0] == 0 or bb.op == 'glob' and isinstance(ob, int) and 0 <= ob < 1 << 30 and self.isc(a) and a.args[0] == 0: return self.false
            if ba.op == 'obj' and self.isc(b): return self.false
            if bb.op == 'obj' and self.isc(a): return self.false
            if ba is bb and ba.op != 'const': return self.true if oa == ob else self.false
            if a.id > b.id: a, b = b, a
        if pred == 'ult':   # places of one object
            (ba, oa), (bb, ob) = self.split(a), self.split(b)
            if ba is bb and ba.op in ('obj', 'glob') and 0 <= oa < 1 << 40 and 0 <= ob < 1 << 40: return self.true if oa < ob else self.false
        return self.mk(pred, (a, b), 1)

    def split(self, a):
        """pointer -> (base, constant offset)"""
        if a.op == 'add' and self.isc(a.args[1]): return a.args[0], a.args[1].args[0]
        return a, 0

    def fun(self, name, args, w):
        if name.startswith(('llvm.ceil.f', 'llvm.floor.f')) and isinstance(args[0], Node) and args[0].op == 'const' and abs(float(args[0].args[0])) < 1 << 52:
            return self.const(float((math.ceil if 'ceil' in name else math.floor)(float(args[0].args[0]))), w)
        return self.mk('uf', (name,) + tuple(args), w)


def show(n, d=0):
    if d > 12: return '...'
    o = n.op
    if o == 'const': return str(n.args[0])
    if o == 'var': return n.args[0]
    s = [show(a, d + 1) if isinstance(a, Node) else str(a) for a in n.args]
    if o in ('add', 'mul', 'and', 'or', 'sdiv', 'srem', 'slt', 'eq', 'ult', 'udiv', 'urem', 'xor'):
        sym = {'add': '+', 'mul': '*', 'and': '&', 'or': '|', 'sdiv': '/', 'srem': '%', 'slt': '<', 'eq': '==', 'ult': '<u', 'udiv': '/u', 'urem': '%u', 'xor': '^'}[o]
        return '(%s %s %s)' % (s[0], sym, s[1])
    if o == 'ite': return '(%s ? %s : %s)' % tuple(s)
    if o == 'not': return '!' + s[0]
    return '%s<%s>(%s)' % (o, n.w, ', '.join(s))


class Event:
    """kind: 'call' (name, args) | 'store' (addr, size, value) | 'loop'"""
    __slots__ = ('guard', 'kind', 'name', 'args', 'extra', 'seq', 'loop', 'index')

    def __init__(self, guard, kind, name, args, extra=None, loop=()):
        self.guard, self.kind, self.name, self.args, self.extra, self.loop = guard, kind, name, args, extra, loop

    def __repr__(self):
        return '[%s] %s %s(%s)%s' % (show(self.guard)[:200], self.kind, self.name, ', '.join(show(a) if isinstance(a, Node) else str(a) for a in self.args), ' loop %r' % (self.loop,) if self.loop else '')


class Mem:
    """base id -> {'cells': {off: (size, node)}, 'regions': [(off, n, srcbase, srcoff, Mem snapshot)], 'clob': version}"""
    __slots__ = ('o', 'dead')

    def __init__(self, o=None, dead=frozenset()):
        self.o = o or {}
        self.dead = dead   # local objects whose lifetime is over, released storage (kept only on request)

    def copy(self):
        return Mem(dict(self.o), self.dead)

    def take(self, other):
        self.o, self.dead = other.o, other.dead


class Obj:
    __slots__ = ('cells', 'regions', 'ver', 'alts', 'seq')

    def __init__(self, cells=None, regions=(), ver=0, alts=None, seq=None):
        self.cells = cells or {}
        self.seq = seq or {}       # offset -> time of the last store (cells reached through a symbolic address may be the same location)
        self.regions = regions
        self.ver = ver
        self.alts = alts


NORETURN_STOP = {'verif_stop', 'verif_stop_moderate', 'verif_stop_heavy', '_ZSt9terminatev', 'abort', 'MPI_Abort', 'exit', '__clang_call_terminate'}
THROWS = {'__cxa_throw', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '__cxa_rethrow', '_ZSt20__throw_out_of_rangePKc', '_ZSt20__throw_system_errori', '_ZSt25__throw_bad_function_callv'}
RELEASE = {'free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'}   # the content of released storage is not read any more
IGNORED = {'llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.assume', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.experimental.noalias.scope.decl', 'llvm.invariant.start', 'llvm.donothing', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.var.annotation'}


class Summary:
    def __init__(self):
        self.ret = None
        self.stops = []
        self.events = []
        self.mem = None
        self.notes = []
        self.loops = []
        self.throws = []


class Interp:
    def __init__(self, module, graph, models=None, maxdepth=120):
        self.m = module
        self.g = graph
        self.models = models or {}
        self.nobj = 0
        self.nloop = 0
        self.out = None
        self.depth = 0
        self.maxdepth = maxdepth
        self.callno = 0
        self.const_cache = {}
        self.loopctx = ()
        self.functions_seen = set()
        self.unroll = 6
        self.maxconst = 300
        self.objsize = {}
        self.pointers = set()   # nodes known to be pointers
        self.throwing = set()
        self.occ = {}
        self.nthrow = 0

    # ---- operand evaluation
    def width(self, t):
        t = self.m.types.resolve(t)
        if t[0] == 'i': return t[1]
        if t[0] == 'ptr': return 64
        if t[0] == 'f': return 'f%d' % t[1]
        return 'agg'

    def zero(self, t):
        g = self.g
        t = self.m.types.resolve(t)
        if t[0] == 'st': return tuple(self.zero(x) for x in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 'f': return g.mk('const', (0.0,), self.width(t))
        return g.const(0, self.width(t))

    def undef(self, t):
        t = self.m.types.resolve(t)
        if t[0] == 'st': return tuple(self.undef(x) for x in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.undef(t[2]) for _ in range(t[1]))
        return self.g.mk('undef', (), self.width(t))

    def ev(self, v, t, env):
        g = self.g
        k = v[0]
        if k == 'reg':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined register ' + v[1])
        if k == 'int': return g.const(v[1], self.width(t))
        if k == 'fp': return g.mk('const', (float(v[1]),), self.width(t))
        if k == 'null': return g.const(0, 64)
        if k == 'zero': return self.zero(t)
        if k == 'undef': return self.undef(t)
        if k == 'glob': return g.mk('glob', (v[1].lstrip('@').strip('"'),), 64)
        if k == 'agg': return tuple(self.ev(x, tt, env) for tt, x in v[1])
        if k == 'ce':
            if v[1] == 'getelementptr': return self.gep(v[2], [(tt, self.ev(x, tt, env)) for tt, x in v[3]])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                a = self.ev(v[3], v[2], env)
                w = self.width(v[4])
                return g.trunc(a, w) if isinstance(w, int) and w < a.w else a
            if v[1] in ('trunc', 'zext', 'sext'):
                a = self.ev(v[3], v[2], env)
                return g.trunc(a, self.width(v[4])) if v[1] == 'trunc' else g.ext(v[1], a, self.width(v[4]))
            ops = [self.ev(x, tt, env) for tt, x in v[3]]
            if v[1] in ('sub', 'add', 'xor', 'mul', 'shl'): return g.bin(v[1], *ops)
            if v[1] == 'icmp': return g.icmp(v[2], *ops)
            if v[1] == 'select': return g.ite(*ops)
        raise Unsupported('operand %r' % (v,))

    def gep(self, t, ops):
        g = self.g
        T = self.m.types
        p = ops[0][1]
        idx = ops[1][1]
        s, _ = T.size_align(t)
        idx = g.ext('sext', idx, 64) if idx.w < 64 else idx
        p = g.add(p, g.mul(idx, g.const(s, 64)))
        cur = t
        for tt, i in ops[2:]:
            r = T.resolve(cur)
            if r[0] == 'st':
                if not g.isc(i): raise Unsupported('gep')
                off, cur = T.field_off(r, i.args[0])
                p = g.add(p, g.const(off, 64))
            else:
                cur = r[2]
                s, _ = T.size_align(cur)
                i = g.ext('sext', i, 64) if i.w < 64 else i
                p = g.add(p, g.mul(i, g.const(s, 64)))
        return p

    # ---- memory
    def newobj(self, kind):
        self.nobj += 1
        return self.g.mk('obj', (kind, self.nobj), 64)

    def obj(self, mem, base):
        return mem.o.get(base.id)

    def load(self, mem, addr, t):
        if addr.op == 'ite' or self.g.split(addr)[0].op == 'ite':
            top = self.loadmemo is None
            if top: self.loadmemo = {}
            try:
                key = (id(mem), addr.id, t)
                r = self.loadmemo.get(key)
                if r is None: self.loadmemo[key] = r = self.load1(mem, addr, t)
                return r
            finally:
                if top: self.loadmemo = None
        return self.load1(mem, addr, t)

    loadmemo = None

    def load1(self, mem, addr, t):
        g = self.g
        T = self.m.types
        r = T.resolve(t)
        if r[0] == 'st':
            return tuple(self.load(mem, g.add(addr, g.const(T.field_off(r, i)[0], 64)), f) for i, f in enumerate(r[1]))
        if r[0] in ('arr', 'vec'):
            s, _ = T.size_align(r[2])
            return tuple(self.load(mem, g.add(addr, g.const(s * i, 64)), r[2]) for i in range(r[1]))
        if addr.op == 'ite':
            return self.ite(addr.args[0], self.load(mem, addr.args[1], t), self.load(mem, addr.args[2], t))
        base, off = g.split(addr)
        if base.op == 'ite':
            k = g.const(off, 64)
            return self.ite(base.args[0], self.load(mem, g.add(base.args[1], k), t), self.load(mem, g.add(base.args[2], k), t))
        alt = self.alternatives(addr)
        if alt is not None:
            return self.ite(alt[0], self.load(mem, alt[1], t), self.load(mem, alt[2], t))
        size = T.size_align(r)[0]
        ob = self.objbase(base)
        if ob is not None:
            bo, so = ob
            so = g.add(so, g.const(off, 64))
            w = self.width(r)
            cand, bounded = self.candidates(mem, bo, size)
            v = g.mk('undef', (), w) if bounded else self.unknown(w)
            for co in cand:
                v = g.ite(g.icmp('eq', so, g.const(co, 64)), self.load_raw(mem, bo, co, size, w), v)
            return v
        v = self.load_raw(mem, base, off, size, self.width(r))
        if r[0] == 'ptr' and v.op in ('mem', 'fun'): self.pointers.add(v.id)
        return v

    def unknown(self, w):
        """a value the analysis does not track: obligations that depend on it stay undecided"""
        self.callno += 1
        self.g.unknowns = True
        return self.g.mk('unknown', (self.callno,), w)

    def alternatives(self, addr):
        """p + symbolic offset where p is one of several local objects -> (condition, address, address)"""
        g = self.g
        if addr.op != 'add': return None
        terms, st = [], [addr]
        while st:
            x = st.pop()
            if x.op == 'add': st.extend(x.args)
            else: terms.append(x)

        def local(x):
            if x.op == 'ite': return local(x.args[1]) or local(x.args[2])
            if x.op == 'add': return any(local(y) for y in x.args)
            return x.op == 'obj'
        for x in terms:
            y = x.args[0] if x.op == 'mul' and g.isc(x.args[1]) else x
            if y.op == 'ite' and local(y):
                c = y.args[0]
                yes, no = {c.id: g.true}, {c.id: g.false}
                for k in conj(c): yes[k.id] = g.true
                for sub in (yes, no):
                    for k, v in list(sub.items()):
                        n = c if k == c.id else next(q for q in conj(c) if q.id == k)
                        if n.op == 'not': sub[n.args[0].id] = g.bnot(v)
                return c, rebuild(g, addr, yes, {}), rebuild(g, addr, no, {})
        return None

    def islocal(self, n):
        if n.op == 'obj': return True
        if n.op == 'ite': return self.islocal(n.args[1]) or self.islocal(n.args[2])
        if n.op == 'add': return any(self.islocal(x) for x in n.args)
        return False

    def leaves(self, n):
        """nested choice -> [(condition, value)] with different values"""
        import heapq
        g = self.g
        cond, heap, out = {n.id: g.true}, [(-n.id, n)], []
        while heap:
            _, x = heapq.heappop(heap)
            c = cond[x.id]
            if x.op != 'ite':
                out.append((c, x)); continue
            for k, y in ((x.args[0], x.args[1]), (g.bnot(x.args[0]), x.args[2])):
                ck = g.band(c, k)
                if ck is g.false: continue
                if y.id in cond: cond[y.id] = g.bor(cond[y.id], ck)
                else:
                    cond[y.id] = ck
                    heapq.heappush(heap, (-y.id, y))
        return out

    def objects(self, n):
        if n.op == 'obj': return {n}
        if n.op == 'ite': return self.objects(n.args[1]) | self.objects(n.args[2])
        if n.op == 'add': return set().union(*[self.objects(x) for x in n.args])
        return set()

    def known_global(self, n):
        if n.id in self.objsize: return True
        gl = self.m.globals.get(n.args[0])
        if not gl or gl[1] is None: return False
        size = self.m.types.size_align(gl[0])[0]
        if size > 512 and not (gl[2] or getattr(self, 'initial', False)): return False
        self.objsize[n.id] = size
        return True

    def objbase(self, n):
        """address = local object + symbolic offset"""
        g = self.g
        if n.op != 'add': return None
        terms = []
        st = [n]
        while st:
            x = st.pop()
            if x.op == 'add': st.extend(x.args)
            else: terms.append(x)
        obs = [x for x in terms if x.op == 'obj' or x.op == 'glob' and self.known_global(x)]
        if len(obs) != 1: return None
        r = g.const(0, 64)
        for x in terms:
            if x is not obs[0]: r = g.add(r, x)
        return obs[0], r

    def candidates(self, mem, bo, size):
        o = mem.o.get(bo.id)
        offs = set(off for off, (s, _) in (o.cells.items() if o else ()) if s == size)
        n = self.objsize.get(bo.id)
        if n is not None and n <= 512: offs |= set(range(0, n - size + 1, size))
        if o:
            for r in o.regions:
                if r[1] <= 512: offs |= set(range(r[0], r[0] + r[1] - size + 1, size))
        bounded = n is not None and n <= 512
        if not bounded: offs |= set(range(0, (self.unroll + 3) * size, size))
        return sorted(offs), bounded

    def tick(self):
        self.time = getattr(self, 'time', 0) + 1
        return self.time

    def terms(self, n):
        memo = self.__dict__.setdefault('_terms', {})
        r = memo.get(n.id)
        if r is None:
            r, st = [], [n]
            while st:
                x = st.pop()
                if x.op == 'add': st.extend(x.args)
                else: r.append(x)
            memo[n.id] = r
        return r

    def root(self, n):
        """the object a symbolic address points into, if it is known"""
        r = [x for x in self.terms(n) if x.op in ('obj', 'glob') or x.id in self.pointers]
        return r[0] if len(r) == 1 else None

    def load_raw(self, mem, base, off, size, w):
        v = self.load_exact(mem, base, off, size, w)
        if base.op in ('obj', 'glob'): return v
        o = mem.o.get(base.id)
        t0 = o.seq.get(off, -1) if o and off in o.cells and o.cells[off][0] == size else -1
        later = []
        r = self.root(base)
        if r is None: return v
        for b, x in mem.o.items():
            if b == base.id or not x.seq: continue
            if all(t <= t0 for t in x.seq.values()): continue
            n = self.byid(b)
            if n.op in ('obj', 'glob'): continue
            q = self.root(n)
            if r is None or r is not q: continue
            for k, t in x.seq.items():
                c = x.cells.get(k)
                if t > t0 and c and c[0] == size and c[1].w == w: later.append((t, n, k, c[1]))
        if later:
            g = self.g
            a = g.add(base, g.const(off, 64))
            for t, n, k, c in sorted(later, key=lambda y: y[0]): v = g.ite(g.icmp('eq', a, g.add(n, g.const(k, 64))), c, v)
        return v

    def load_exact(self, mem, base, off, size, w):
        g = self.g
        o = mem.o.get(base.id)
        if base.op == 'glob' and o is None:
            c = self.load_global(base.args[0], off, w)
            if c is not None: return c
        if o is not None:
            c = o.cells.get(off)
            if c is not None and c[0] == size: return self.retype(c[1], w)
            # composed / partial
            if c is not None and c[0] > size:
                v = c[1]
                if isinstance(v.w, int) and isinstance(w, int): return g.trunc(v, w)
            for (po, (ps, pv)) in o.cells.items():
                if po < off and po + ps >= off + size and isinstance(pv.w, int) and isinstance(w, int):
                    return g.trunc(g.bin('lshr', pv, g.const(8 * (off - po), pv.w)), w)
            parts = [(po, ps, pv) for po, (ps, pv) in o.cells.items() if off <= po < off + size]
            if parts and size == 8 and isinstance(w, int):
                lo = self.load_raw(mem, base, off, 4, 32)
                hi = self.load_raw(mem, base, off + 4, 4, 32)
                return g.mk('pack', (lo, hi), 64)
            if parts and sum(p[1] for p in parts) == size and all(isinstance(p[2].w, int) and p[2].w <= 8 * p[1] for p in parts):
                v = None
                for po, ps, pv in sorted(parts, key=lambda p: p[0]):
                    x = g.ext('zext', pv, 8 * size)
                    if po > off: x = g.bin('shl', x, g.const(8 * (po - off), 8 * size))
                    v = x if v is None else g.bin('or', v, x)
                return self.retype(v, w)
            for (ro, rn, sb, so, sm) in reversed(o.regions):
                if ro <= off and off + size <= ro + rn:
                    if isinstance(w, int) and w == 8 * size: return self.load(sm, g.add(sb, g.const(so + off - ro, 64)), ('i', w))
                    return self.load_addr_raw(sm, g.add(sb, g.const(so + off - ro, 64)), size, w)
            if o.alts:
                v = None
                for c, x in reversed(o.alts):
                    y = self.load_raw(Mem({base.id: x} if x else {}), base, off, size, w)
                    v = y if v is None else g.ite(c, y, v)
                return v
            if isinstance(o.ver, tuple) and o.ver[0] == '?': return g.mk('unknown', (base, off, o.ver), w)
            if o.ver: return g.mk('mem', (base, off, o.ver), w)
            if base.op == 'glob':
                c = self.load_global(base.args[0], off, w)
                if c is not None: return c
        if base.op == 'obj': return g.mk('undef', (base.id, off), w)
        return g.mk('mem', (base, off, 0), w)

    def load_addr_raw(self, mem, addr, size, w):
        g = self.g
        base, off = g.split(addr)
        if base.op == 'ite':
            k = g.const(off, 64)
            return g.ite(base.args[0], self.load_addr_raw(mem, g.add(base.args[1], k), size, w), self.load_addr_raw(mem, g.add(base.args[2], k), size, w))
        return self.load_raw(mem, base, off, size, w)

    def retype(self, v, w):
        if v.w == w: return v
        if isinstance(v.w, int) and isinstance(w, int): return self.g.trunc(v, w) if w < v.w else self.g.ext('zext', v, w)
        if v.op == 'undef': return self.g.mk('undef', (), w)
        return self.g.mk('bitcast', (v,), w)

    def load_global(self, name, off, w):
        gl = self.m.globals.get(name)
        if not gl or not (gl[2] or getattr(self, 'initial', False)) or gl[1] is None: return None
        t, init, const = gl
        T = self.m.types
        cur = T.resolve(t)
        v = init
        while True:
            cur = T.resolve(cur)
            if v[0] == 'zero': return self.zero(('i', w)) if isinstance(w, int) else self.zero(('f', int(w[1:])))
            if v[0] == 'str' and cur[0] == 'arr':
                import re
                s = v[1][2:-1]
                bs = []
                i = 0
                while i < len(s):
                    if s[i] == '\\': bs.append(int(s[i + 1:i + 3], 16)); i += 3
                    else: bs.append(ord(s[i])); i += 1
                if w == 8 and 0 <= off < len(bs): return self.g.const(bs[off], 8)
                return None
            if cur[0] == 'arr':
                s, _ = T.size_align(cur[2])
                i = off // s
                if i < 0 or i >= cur[1] or v[0] != 'agg': return None
                off -= i * s
                cur = cur[2]; v = v[1][i][1]
                continue
            if cur[0] == 'st':
                if v[0] != 'agg': return None
                for i, f in enumerate(cur[1]):
                    fo, _ = T.field_off(cur, i)
                    fs, _ = T.size_align(f)
                    if fo <= off < fo + fs:
                        off -= fo; cur = f; v = v[1][i][1]
                        break
                else: return None
                continue
            if off != 0: return None
            try:
                return self.retype(self.ev(v, cur, {}), w)
            except Exception:
                return None

    def store(self, mem, addr, val, t, guard, out):
        g = self.g
        T = self.m.types
        r = T.resolve(t)
        if isinstance(val, tuple):
            if r[0] == 'st':
                for i, f in enumerate(r[1]): self.store(mem, g.add(addr, g.const(T.field_off(r, i)[0], 64)), val[i], f, guard, out)
            else:
                s, _ = T.size_align(r[2])
                for i in range(r[1]): self.store(mem, g.add(addr, g.const(s * i, 64)), val[i], r[2], guard, out)
            return
        base, off = g.split(addr)
        size = T.size_align(r)[0]
        if base.op == 'ite':
            k = g.const(off, 64)
            for c, p in self.leaves(base):
                a = g.add(p, k)
                old = self.load(mem, a, t)
                self.store(mem, a, g.ite(c, val, old), t, g.band(guard, c), out)
            return
        alt = self.alternatives(addr)
        if alt is not None:
            for c, a in ((alt[0], alt[1]), (g.bnot(alt[0]), alt[2])):
                old = self.load(mem, a, t)
                self.store(mem, a, g.ite(c, val, old), t, g.band(guard, c), out)
            return
        ob = self.objbase(base)
        if ob is not None:
            bo, so = ob
            so = g.add(so, g.const(off, 64))
            cand, bounded = self.candidates(mem, bo, size)
            for co in cand:
                hit = self.covering(mem, bo, co, size)
                if hit is not None:   # part of a wider value, or across several: those change only if this is the place
                    c = g.icmp('eq', so, g.const(co, 64))
                    if c is not g.false:
                        o = mem.o[bo.id]
                        cells = dict(o.cells)
                        for po in hit: cells[po] = (cells[po][0], g.ite(c, self.combine(cells[po], po, co, size, val), cells[po][1]))
                        mem.o[bo.id] = Obj(cells, o.regions, o.ver, o.alts, o.seq)
                    continue
                old = self.load_raw(mem, bo, co, size, val.w)
                self.store_raw(mem, bo, co, size, g.ite(g.icmp('eq', so, g.const(co, 64)), val, old))
            if not bounded:
                inside = g.false
                for co in cand: inside = g.bor(inside, g.icmp('eq', so, g.const(co, 64)))
                over = g.band(guard, g.bnot(inside))
                if over is not g.false: out.stops.append((over, 'loop_bound'))
            if bo.op != 'obj': out.events.append(Event(guard, 'store', 'store', [addr, size, val], loop=self.loopctx))
            return
        self.store_raw(mem, base, off, size, val)
        if base.op != 'obj':
            out.events.append(Event(guard, 'store', 'store', [addr, size, val], loop=self.loopctx))

    def covering(self, mem, base, off, size):
        """the cells of another extent which a value at this place would overlap, unless it is just half of one"""
        o = mem.o.get(base.id)
        if not o: return None
        hit = [po for po, (ps, _) in o.cells.items() if po < off + size and off < po + ps and (po, ps) != (off, size)]
        if not hit: return None
        if any(o.cells[po][0] > size for po in hit): return hit
        whole = sum(min(po + o.cells[po][0], off + size) - max(po, off) for po in hit) == size
        return hit if whole else None

    def combine(self, cell, po, off, size, val):
        """what a cell at po holds after val was written at off"""
        g = self.g
        ps, pv = cell
        if off <= po and po + ps <= off + size and isinstance(val.w, int) and val.w == 8 * size:
            return self.retype(g.trunc(g.bin('lshr', val, g.const(8 * (po - off), val.w)), 8 * ps), pv.w)
        if not (isinstance(pv.w, int) and isinstance(val.w, int)) or off < po or off + size > po + ps or pv.w != 8 * ps or val.w > 8 * size: return self.unknown(pv.w)
        sh, w = 8 * (off - po), pv.w
        v = g.ext('zext', val, w) if val.w < w else val
        keep = g.const(~(((1 << (8 * size)) - 1) << sh) & ((1 << w) - 1), w)
        return g.bin('or', g.bin('and', pv, keep), g.bin('shl', v, g.const(sh, w)))

    def store_raw(self, mem, base, off, size, val):
        o = mem.o.get(base.id)
        cells = dict(o.cells) if o else {}
        for po in list(cells):   # a part of a wider value
            ps, pv = cells[po]
            if po <= off and off + size <= po + ps and size < ps and not (ps == 8 and size == 4) and isinstance(pv.w, int) and isinstance(val.w, int) and pv.w == 8 * ps:
                cells[po] = (ps, self.combine(cells[po], po, off, size, val))
                seq = o.seq
                if base.op not in ('obj', 'glob'): seq = dict(o.seq or {}); seq[po] = self.tick()
                mem.o[base.id] = Obj(cells, o.regions, o.ver, o.alts, seq)
                return
        for po in list(cells):
            ps, pv = cells[po]
            if po < off + size and off < po + ps and (po, ps) != (off, size):
                # split an overlapped 8 byte cell
                del cells[po]
                g = self.g
                if ps == 8 and size == 4 and isinstance(pv.w, int):
                    cells[po] = (4, g.trunc(pv, 32))
                    cells[po + 4] = (4, g.trunc(g.bin('lshr', pv, g.const(32, 64)), 32))
        cells[off] = (size, val)
        seq = None
        if base.op not in ('obj', 'glob'):
            seq = dict(o.seq) if o else {}
            seq[off] = self.tick()
        mem.o[base.id] = Obj(cells, o.regions if o else (), o.ver if o else 0, o.alts if o else None, seq)

    def memcpy(self, mem, dst, src, n, guard, out, name='memcpy'):
        g = self.g
        db, do = g.split(dst)
        sb, so = g.split(src)
        if not self.islocal(dst) and self.islocal(src):
            # written out element by element, up to the unrolling bound
            es = next((x for x in (16, 8, 4) if g.factor(n) % x == 0), 0)
            if es:
                ew = min(es, 8)
                U = (self.unroll + 2) * es // ew
                if g.isc(n) and n.args[0] // ew <= 64: U = n.args[0] // ew
                t = ('i', 8 * ew)
                for k in range(U):
                    c = g.icmp('slt', g.const(k * ew, 64), n)
                    if c is g.false: break
                    v = self.load(mem, g.add(src, g.const(k * ew, 64)), t)
                    a = g.add(dst, g.const(k * ew, 64))
                    if c is not g.true: v2 = g.ite(c, v, self.load(mem, a, t))
                    else: v2 = v
                    q, mark = Summary(), len(out.events)
                    self.store(mem, a, v2, t, g.band(guard, c), out)
                    for e in out.events[mark:]:
                        if e.kind == 'store' and c is not g.true: e.args[2] = v if e.args[2] is v2 else e.args[2]
                over = g.band(guard, g.icmp('slt', g.const(U * ew, 64), n))
                if over is not g.false: out.stops.append((over, 'loop_bound'))
                return
        if db.op != 'obj':
            out.events.append(Event(guard, 'call', 'memcpy', [dst, src, n], loop=self.loopctx))
        if db.op == 'ite' or not g.isc(n):
            # unknown extent: destination becomes unknown
            es = next((x for x in (16, 8, 4) if g.factor(n) % x == 0), 0)
            if es and self.islocal(dst):
                # element by element, up to the unrolling bound
                ew = min(es, 8)
                U = self.unroll + 2
                if g.isc(n) and n.args[0] // es <= 64: U = n.args[0] // es
                t = ('i', 8 * ew)
                vals = [self.load(mem, g.add(src, g.const(k * ew, 64)), t) for k in range(U * es // ew)]
                for k, v in enumerate(vals):
                    a = g.add(dst, g.const(k * ew, 64))
                    old = self.load(mem, a, t)
                    c = g.icmp('slt', g.const(k * ew, 64), n)
                    if c is g.false: break
                    self.store(mem, a, g.ite(c, v, old), t, g.band(guard, c), out)
                over = g.band(guard, g.icmp('slt', g.const(U * es, 64), n))
                if over is not g.false: out.stops.append((over, 'loop_bound'))
                return
            if self.islocal(dst):
                for x in self.objects(dst): self.forget(mem, x)
            else: self.havoc(mem, db)
            return
        nn = n.args[0]
        o = mem.o.get(db.id)
        cells = dict(o.cells) if o else {}
        for po in list(cells):
            if po < do + nn and do < po + cells[po][0]: del cells[po]
        regions = tuple(o.regions) if o else ()
        so_obj = mem.o.get(sb.id)
        if so_obj:
            for po, (ps, pv) in so_obj.cells.items():
                if so <= po and po + ps <= so + nn: cells[po - so + do] = (ps, pv)
        regions = regions + ((do, nn, sb, so, mem.copy()),)
        mem.o[db.id] = Obj(cells, regions, o.ver if o else 0, o.alts if o else None)

    expired = None   # list of uses of objects whose lifetime is over, if they are looked for
    owner = {}

    def alive(self, m, addr, how, bg):
        b = self.g.split(addr)[0]
        if b.op == 'add':
            ob = self.objbase(b)
            b = ob[0] if ob else b
        if b.id in m.dead: self.expired.append((bg, b, how, list(self.stack)))

    def forget(self, mem, base):
        """the content of a local object is not tracked any more"""
        self.g.unknowns = True
        self.callno += 1
        mem.o[base.id] = Obj({}, (), ('?', self.callno))

    def havoc(self, mem, base):
        self.callno += 1
        mem.o[base.id] = Obj({}, (), self.callno)

    def ite(self, c, a, b):
        if isinstance(a, tuple): return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        return self.g.ite(c, a, b)

    def merge(self, preds):
        """preds: [(edge condition, Mem)]"""
        g = self.g
        if len(preds) == 1: return preds[0][1].copy()
        res = Mem()
        res.dead = frozenset.intersection(*[m.dead for _, m in preds])
        ids = set()
        for _, m in preds: ids |= set(m.o)
        for b in ids:
            objs = [m.o.get(b) for _, m in preds]
            if all(x is objs[0] for x in objs):
                res.o[b] = objs[0]
                continue
            base = self.byid(b)
            offs = {}
            for x in objs:
                if x:
                    for off, (s, v) in x.cells.items(): offs.setdefault(off, (s, v.w))
            cells, seq = {}, {}
            for off, (s, w) in offs.items():
                ts = set(x.seq.get(off) if x else None for x in objs)
                if ts != {None}: seq[off] = ts.pop() if len(ts) == 1 else self.tick()
                vs = [self.load_raw(m, base, off, s, w) for _, m in preds]
                v = vs[-1]
                for (c, _), x in list(zip(preds, vs))[-2::-1]: v = g.ite(c, x, v)
                cells[off] = (s, v)
            vers = set((x.ver if x else 0) for x in objs)
            same = len(vers) == 1 and all((x.regions if x else ()) == (objs[0].regions if objs[0] else ()) and not (x and x.alts) for x in objs)
            if same: res.o[b] = Obj(cells, objs[0].regions if objs[0] else (), vers.pop(), None, seq)
            else: res.o[b] = Obj(cells, (), 0, [(c, x) for (c, _), x in zip(preds, objs)], seq)
        return res

    def byid(self, i):
        return self.g.nodes[i]

    # ---- function summaries
    def run(self, fname, args, mem=None, guard=None, out=None):
        name = self.m.aliases.get(fname, fname)
        f = self.m.funcs[name]
        top = out is None
        if top: out = Summary()
        if guard is None: guard = self.g.true
        if mem is None: mem = Mem()
        self.depth += 1
        self.stack = getattr(self, 'stack', [])
        self.stack.append(name)
        if self.depth > self.maxdepth:
            if os.environ.get('VERIF_DEBUG'): print('DEPTH', ' < '.join(x[-60:] for x in self.stack[::-1][:12]), conds(guard))
            raise Unsupported('depth')
        self.functions_seen.add(name)
        env = {}
        for (t, n), a in zip(f.params, args):
            if n: env[n] = a
            if top and not isinstance(a, tuple) and self.m.types.resolve(t)[0] == 'ptr': self.pointers.add(a.id)
        cfg = CFG(f, self.throwing)
        ret, mem, live = self.region(f, cfg, cfg.entry, None, env, mem, guard, out)
        self.depth -= 1
        self.stack.pop()
        if self.expired is not None and not top and mem is not None:   # the locals of the function are gone
            mine = [env[I.dst].id for I in allocas(f) if I.dst in env]
            if mine: mem.dead = mem.dead | frozenset(mine)
        if top:
            out.ret, out.mem = ret, mem
            return out
        return ret, mem, live

    def region(self, f, cfg, entry, loop, env, mem, guard, out, header_phis=None):
        """Interprets blocks of the function (loop is None) or one iteration of a loop, in topological order.
        Returns for functions (ret, mem, live guard)."""
        g = self.g
        rets = []
        pending = {entry: [(guard, None, mem)]}   # block -> [(edge path cond, pred, mem)]
        order = cfg.topo(entry, loop)
        backedges = []
        exits = []
        for b in order:
            if b not in pending: continue
            inc = pending.pop(b)
            inc = [x for x in inc if not (g.isc(x[0]) and x[0].args[0] == 0)]
            if not inc: continue
            if loop is None or b != entry:
                lp = cfg.loops.get(b)
                if lp is not None and (loop is None or lp is not loop):
                    # whole inner loop as one step
                    for (c, src, dst, m) in self.run_loop(f, cfg, lp, inc, env, out):
                        self.route(cfg, loop, entry, pending, backedges, exits, c, src, dst, m)
                    continue
            bg = inc[0][0]
            for x in inc[1:]: bg = g.bor(bg, x[0])
            m = self.merge([(c, mm) for c, _, mm in inc])
            insts = f.blocks[b]
            # phis
            newv = {}
            for I in insts:
                if I.op != 'phi': break
                if header_phis is not None and b == entry:
                    newv[I.dst] = header_phis[I.dst]
                    continue
                vals = []
                for (c, src, mm) in inc:
                    vv = [v for v, lab in I.a if lab == src]
                    vals.append((c, self.ev(vv[0], I.ty, env)))
                r = vals[-1][1]
                for c, v in vals[-2::-1]: r = self.ite(self.rel(c, bg), v, r)
                newv[I.dst] = r
            env.update(newv)
            done = False
            for I in insts:
                if I.op == 'phi': continue
                r = self.step(f, cfg, I, env, m, bg, out)
                if r == 'dead':
                    done = True
                    break
                if I.op == 'ret':
                    rets.append((bg, None if I.a is None else self.ev(I.a, I.ty, env), m))
                    done = True
                elif I.op in ('br', 'condbr', 'switch', 'invoke'):
                    for c, dst in self.targets(cfg, I, env, bg, out):
                        self.route(cfg, loop, entry, pending, backedges, exits, c, b, dst, m)
                    done = True
                elif I.op in ('unreachable', 'resume'):
                    if I.op == 'resume': out.throws.append((bg, 'resume'))
                    done = True
                if done: break
        if loop is not None:
            return backedges, exits, rets
        if not rets: return None, mem, g.false
        live = rets[0][0]
        for x in rets[1:]: live = g.bor(live, x[0])
        r = rets[-1][1]
        for c, v, _ in rets[-2::-1]:
            if v is not None: r = self.ite(c, v, r)
        return r, self.merge([(c, mm) for c, _, mm in rets]), live

    def rel(self, c, bg):
        """edge condition relative to the block guard: strips the common conjuncts"""
        g = self.g
        cs = conj(c)
        bs = set(x.id for x in conj(bg))
        left = [x for x in cs if x.id not in bs]
        r = g.true
        for x in left: r = g.band(r, x)
        return r if left else c

    def route(self, cfg, loop, entry, pending, backedges, exits, c, src, dst, m):
        if loop is not None:
            if dst == entry:
                backedges.append((c, src, m)); return
            if dst not in loop.blocks:
                exits.append((c, src, dst, m)); return
        pending.setdefault(dst, []).append((c, src, m))

    def targets(self, cfg, I, env, bg, out):
        g = self.g
        if I.op == 'br': return [(bg, I.a[0])]
        if I.op == 'invoke':
            if cfg.unwinds(I):
                self.nthrow += 1
                t = g.var('throws%d' % self.nthrow, 1)
                return [(g.band(bg, g.bnot(t)), I.a[3][0]), (g.band(bg, t), I.a[3][1])]
            return [(bg, I.a[3][0])]
        if I.op == 'condbr':
            c = self.ev(I.a[0], ('i', 1), env)
            tl, fl = I.a[1], I.a[2]
            if tl in cfg.dead and fl not in cfg.dead:
                # the other side continues under the assumption that the program was not stopped
                return [(g.band(bg, c), tl), (bg if not g.isc(c) else g.band(bg, g.bnot(c)), fl)]
            if fl in cfg.dead and tl not in cfg.dead:
                return [(bg if not g.isc(c) else g.band(bg, c), tl), (g.band(bg, g.bnot(c)), fl)]
            if tl == fl: return [(bg, tl)]
            return [(g.band(bg, c), tl), (g.band(bg, g.bnot(c)), fl)]
        if I.op == 'switch':
            v = self.ev(I.a[0], I.ty, env)
            res = {}
            no = g.true
            for c, lab in I.a[2]:
                cc = g.icmp('eq', v, self.ev(c, I.ty, env))
                res[lab] = g.bor(res.get(lab, g.false), cc)
                no = g.band(no, g.bnot(cc))
            if I.a[1] not in cfg.unreach:
                res[I.a[1]] = g.bor(res.get(I.a[1], g.false), no)
            live = [l for l in res if l not in cfg.dead]
            out_ = []
            for l, c in res.items():
                if len(live) == 1 and l == live[0]: out_.append((bg, l))
                else: out_.append((g.band(bg, c), l))
            return out_

    # ---- loops
    def run_loop(self, f, cfg, lp, inc, env, out):
        """Gates the first `unroll` iterations of a natural loop into the graph; executions that need more iterations leave
        through the stop kind 'loop_bound' (they are outside of what is decided). Loops with a constant number of iterations
        are gated completely."""
        g = self.g
        h = lp.header
        phis = [I for I in f.blocks[h] if I.op == 'phi']
        defs = getattr(lp, 'defs', None)
        if defs is None:
            defs = lp.defs = [I.dst for b in lp.blocks for I in f.blocks[b] if I.dst]
        n = sym = 0
        exits = []
        cur = dict(env)
        while True:
            inc = [x for x in inc if not (g.isc(x[0]) and x[0].args[0] == 0)]
            if not inc: break
            bg = inc[0][0]
            for x in inc[1:]: bg = g.bor(bg, x[0])
            if sym >= self.unroll or n >= self.maxconst:
                if os.environ.get('VERIF_DEBUG'): print('STOP loop bound', str(conds(bg))[:300], ' < '.join(self.stack[::-1])[:1500])
                out.stops.append((bg, 'loop_bound'))
                break
            m0 = self.merge([(c, mm) for c, _, mm in inc])
            init = {}
            for I in phis:
                vals = []
                for (c, src, mm) in inc:
                    vv = [v for v, lab in I.a if lab == src]
                    vals.append((c, self.ev(vv[0], I.ty, cur)))
                r = vals[-1][1]
                for c, v in vals[-2::-1]: r = self.ite(self.rel(c, bg), v, r)
                init[I.dst] = r
            cur = dict(cur)
            be, ex, rets = self.region(f, cfg, h, lp, cur, m0, bg, out, header_phis=init)
            if rets: raise Unsupported('return inside loop')
            ex = [e for e in ex if not (g.isc(e[0]) and e[0].args[0] == 0)]
            for (c, src, dst, mm) in ex: exits.append((c, src, dst, mm, cur))
            inc = be
            n += 1
            nb = g.false
            for c, *_ in be: nb = g.bor(nb, c)
            if nb is not bg: sym += 1
        out.loops.append(n)
        for d in defs:
            vs = [(c, e[d]) for c, _, _, _, e in exits if d in e]
            if not vs: continue
            r = vs[-1][1]
            for c, v in vs[-2::-1]: r = self.ite(c, v, r)
            env[d] = r
        return [(c, src, dst, mm) for c, src, dst, mm, _ in exits]

    def subst_obj(self, o, sub, memo):
        return Obj({k: (s, self.subst(v, sub, memo)) for k, (s, v) in o.cells.items()}, o.regions, o.ver, None, o.seq)

    def subst(self, n, sub, memo):
        if isinstance(n, tuple): return tuple(self.subst(x, sub, memo) for x in n)
        return rebuild(self.g, n, sub, memo)

    def symlike(self, v, name):
        if isinstance(v, tuple): return tuple(self.symlike(x, name + '.%d' % i) for i, x in enumerate(v))
        return self.g.var(name, v.w)

    def simp(self, d):
        """linear simplification of a difference"""
        lin = {}
        g = self.g
        def go(n, c):
            if n.op == 'add':
                go(n.args[0], c); go(n.args[1], c)
            elif n.op == 'mul' and g.isc(n.args[1]): go(n.args[0], c * n.args[1].args[0])
            elif n.op == 'const': lin[None] = lin.get(None, 0) + c * n.args[0]
            else: lin[n.id] = lin.get(n.id, 0) + c; nodes[n.id] = n
        nodes = {}
        go(d, 1)
        r = g.const(lin.get(None, 0), d.w)
        for i, c in lin.items():
            if i is None: continue
            cc = g.const(c, d.w)
            if cc.args[0] == 0: continue
            r = g.add(r, g.mul(nodes[i], cc))
        return r

    # ---- instructions
    def step(self, f, cfg, I, env, m, bg, out):
        g = self.g
        op = I.op
        if op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'resume'): return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = self.ev(I.a[0], I.ty, env), self.ev(I.a[1], I.ty, env)
            if isinstance(a, tuple):
                env[I.dst] = tuple(g.bin(op, x, y) for x, y in zip(a, b))
            else:
                r = None
                if op == 'sdiv' and I.exact and g.isc(b) and b.args[0] > 0: r = g.exactdiv(a, b.args[0])
                env[I.dst] = r if r is not None else g.bin(op, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.ev(I.a[0], I.ty, env), self.ev(I.a[1], I.ty, env)
            if isinstance(a, tuple): env[I.dst] = tuple(g.mk(op, (x, y), x.w) for x, y in zip(a, b))
            else:
                if op in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
                env[I.dst] = g.mk(op, (a, b), a.w)
        elif op == 'fneg':
            a = self.ev(I.a[0], I.ty, env)
            env[I.dst] = tuple(g.mk(op, (x,), x.w) for x in a) if isinstance(a, tuple) else g.mk(op, (a,), a.w)
        elif op == 'icmp':
            a, b = self.ev(I.a[1], I.ty, env), self.ev(I.a[2], I.ty, env)
            env[I.dst] = g.icmp(I.a[0], a, b)
        elif op == 'fcmp':
            a, b = self.ev(I.a[1], I.ty, env), self.ev(I.a[2], I.ty, env)
            env[I.dst] = g.mk('fcmp', (I.a[0], a, b), 1)
        elif op in ('trunc', 'zext', 'sext'):
            a = self.ev(I.a[1], I.a[0], env)
            env[I.dst] = g.trunc(a, self.width(I.ty)) if op == 'trunc' else g.ext(op, a, self.width(I.ty))
        elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            a = self.ev(I.a[1], I.a[0], env)
            w = self.width(I.ty)
            env[I.dst] = g.trunc(a, w) if w < a.w else g.ext('zext', a, w)
        elif op == 'bitcast':
            a = self.ev(I.a[1], I.a[0], env)
            env[I.dst] = a if isinstance(a, tuple) else self.retype(a, self.width(I.ty))
        elif op in ('fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
            a, w = self.ev(I.a[1], I.a[0], env), self.width(I.ty)
            c = a.args[0] if isinstance(a, Node) and a.op == 'const' else None
            if op == 'sitofp' and isinstance(c, int) and isinstance(a.w, int) and w in ('f64', 'f32') and abs(c) < (1 << 53 if w == 'f64' else 1 << 24): env[I.dst] = g.const(float(c), w)
            elif op in ('fptosi', 'fptoui') and c is not None and a.w in ('f64', 'f32') and isinstance(w, int) and (-1 if op == 'fptoui' else -(1 << 30)) < float(c) < 1 << 30: env[I.dst] = g.const(int(float(c)), w)
            else: env[I.dst] = g.mk(op, (a,), w)
        elif op == 'select':
            c = self.ev(I.a[0], ('i', 1), env)
            env[I.dst] = self.ite(c, self.ev(I.a[1], I.ty, env), self.ev(I.a[2], I.ty, env))
        elif op == 'alloca':
            env[I.dst] = self.newobj('alloca')
            if self.expired is not None: self.owner[env[I.dst].id] = self.stack[-1]
            try: self.objsize[env[I.dst].id] = self.m.types.size_align(I.ty)[0]
            except Exception: pass
        elif op == 'load':
            if m.dead: self.alive(m, self.ev(I.a, ('ptr',), env), 'read', bg)
            env[I.dst] = self.load(m, self.ev(I.a, ('ptr',), env), I.ty)
        elif op == 'store':
            if m.dead: self.alive(m, self.ev(I.a[1], ('ptr',), env), 'written', bg)
            self.store(m, self.ev(I.a[1], ('ptr',), env), self.ev(I.a[0], I.ty, env), I.ty, bg, out)
        elif op == 'getelementptr':
            env[I.dst] = self.gep(I.ty, [(t, self.ev(v, t, env)) for t, v in I.a])
        elif op == 'extractvalue':
            v = self.ev(I.a[0], I.ty, env)
            for i in I.a[1]: v = v[i]
            env[I.dst] = v
        elif op == 'insertvalue':
            v = self.ev(I.a[0], I.ty, env)
            e = self.ev(I.a[2], I.a[1], env)
            env[I.dst] = ins(v, I.a[3], e)
        elif op == 'freeze':
            env[I.dst] = self.ev(I.a, I.ty, env)
        elif op == 'landingpad':
            env[I.dst] = (g.mk('undef', (), 64), g.mk('undef', (), 32))
        elif op in ('call', 'invoke'):
            return self.call(f, cfg, I, env, m, bg, out)
        elif op == 'atomicrmw':
            a = self.ev(I.a[1], ('ptr',), env)
            v = self.ev(I.a[2], I.ty, env)
            old = self.load(m, a, I.ty)
            env[I.dst] = old
            k = I.a[0]
            new = {'add': lambda: g.add(old, v), 'sub': lambda: g.sub(old, v), 'xchg': lambda: v}.get(k, lambda: g.mk('rmw' + k, (old, v), v.w))()
            self.store(m, a, new, I.ty, bg, out)
        elif op == 'fence':
            pass
        elif op == 'extractelement':
            v = self.ev(I.a[0][1], I.a[0][0], env); i = self.ev(I.a[1][1], I.a[1][0], env)
            if not g.isc(i): raise Unsupported(op)
            env[I.dst] = v[i.args[0]]
        elif op == 'insertelement':
            v = self.ev(I.a[0][1], I.a[0][0], env); e = self.ev(I.a[1][1], I.a[1][0], env); i = self.ev(I.a[2][1], I.a[2][0], env)
            env[I.dst] = ins(v, [i.args[0]], e)
        else:
            raise Unsupported('instruction ' + op)

    def call(self, f, cfg, I, env, m, bg, out):
        g = self.g
        callee, args, noret, dests = I.a
        name = None
        if callee[0] == 'glob':
            name = callee[1].lstrip('@').strip('"')
            name = self.m.aliases.get(name, name)
        vals = [self.ev(v, t, env) if t != ('metadata',) else None for t, v in args]
        if name is None:
            fp = self.ev(callee, ('ptr',), env) if callee[0] == 'reg' else None
            if fp is not None and fp.op == 'glob': name = fp.args[0]
            elif fp is not None and fp.op == 'ite' and self.anyglob(fp):
                return self.call_either(f, cfg, I, env, m, bg, out, fp, args, noret, dests)
            else: name = '(indirect)'; vals = ([fp] if fp is not None else []) + vals
        if name.startswith('llvm.'):
            return self.intrinsic(name, I, vals, env, m, bg, out)
        if name in NORETURN_STOP:
            if os.environ.get('VERIF_DEBUG'): print('STOP', name, str(conds(bg))[:300] if not g.isc(bg) else '', ' < '.join(self.stack[::-1])[:3000])
            if os.environ.get('VERIF_DEBUG'):
                for fb in getattr(self, 'fibers', {}).values(): print('SUSPENDED', ' < '.join(fb.stack[::-1])[:1500])
            out.stops.append((bg, name))
            return 'dead'
        if name in THROWS:
            out.throws.append((bg, name)); 
            return 'dead'
        md = self.models.get(name)
        if md:
            r = md(self, vals, m, bg, out, I)
            if isinstance(r, str): return 'dead'
            if I.dst: env[I.dst] = r
            return
        if name in self.m.funcs and name not in self.models.get('#opaque', ()):
            r, mm, live = self.run(name, vals, m.copy(), bg, out)
            m.take(mm)
            if g.isc(live) and live.args[0] == 0: return 'dead'
            if I.dst: env[I.dst] = r
            return
        if name == 'sqrt' and I.dst and isinstance(vals[0], Node) and vals[0].op == 'const' and float(vals[0].args[0]) >= 0:
            env[I.dst] = g.const(float(vals[0].args[0]) ** 0.5, 'f64')
            return
        # external call: an observable event
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            o = self.newobj('new')
            env[I.dst] = o
            if g.isc(vals[0]): self.objsize[o.id] = vals[0].args[0]
            out.events.append(Event(bg, 'call', 'alloc', [vals[0], o], loop=self.loopctx))
            return
        snap = []
        outp = OUT_PARAMS.get(name)
        for j, ((t, _), v) in enumerate(zip(args, vals)):
            if t == ('ptr',) and v is not None and isinstance(v, Node):
                b, off = g.split(v)
                if outp is not None and j in outp: continue
                if b.op == 'obj':
                    o = m.o.get(b.id)
                    if o: snap.append((j, [(k - off, sz, x) for k, (sz, x) in sorted(o.cells.items()) if k >= off]))
        self.callno += 1
        cn = self.callno
        ev = Event(bg, 'call', name, vals, {'snap': snap, 'call': cn}, loop=self.loopctx)
        ev.index = len(out.events)
        out.events.append(ev)
        pure = name in self.m.decls and ('readnone' in self.m.decls[name].attrs or 'readonly' in self.m.decls[name].attrs)
        if name in RELEASE and self.expired is not None:
            b, off = g.split(vals[0])
            if b.op == 'obj' and off == 0: m.dead = m.dead | {b.id}
        if not pure and name not in RELEASE:
            for j, ((t, _), v) in enumerate(zip(args, vals)):
                if t == ('ptr',) and isinstance(v, Node):
                    b, off = g.split(v)
                    o = m.o.get(b.id)
                    if b.op == 'obj' or o is not None:
                        # the callee may write through the pointer
                        if outp is not None:
                            if j in outp:
                                w = 64 if outp[j] == 8 else 32
                                self.store_raw(m, b, off, outp[j], g.mk('mem', (b, off, ('out', name, ev.index, j, off)), w))
                            continue
                        m.o[b.id] = Obj({}, (), ('out', name, ev.index, j, off))
        if I.dst:
            env[I.dst] = self.retsym(I.ty, name, cn, ev)
        if noret:
            if os.environ.get('VERIF_DEBUG'): print('STOP', name, str(conds(bg))[:300], ' < '.join(self.stack[::-1])[:3000])
            if os.environ.get('VERIF_DEBUG'):
                for fb in getattr(self, 'fibers', {}).values(): print('SUSPENDED', ' < '.join(fb.stack[::-1])[:1500])
            out.stops.append((bg, name))
            return 'dead'

    def anyglob(self, n):
        if n.op == 'glob': return True
        return n.op == 'ite' and (self.anyglob(n.args[1]) or self.anyglob(n.args[2]))

    def call_either(self, f, cfg, I, env, m, bg, out, fp, args, noret, dests):
        """call through one of several known functions"""
        g = self.g
        alts = []
        for c, p in self.leaves(fp):
            gd = g.band(bg, c)
            if gd is g.false: continue
            mm = m.copy()
            e2 = dict(env)
            reg = '%#callee'
            e2[reg] = p
            J = Inst(I.op, I.dst, I.ty, (('reg', reg), args, noret, dests), I.line)
            r = self.call(f, cfg, J, e2, mm, gd, out)
            if r == 'dead': continue
            alts.append((gd, c, mm, e2.get(I.dst) if I.dst else None))
        if not alts: return 'dead'
        m.take(self.merge([(x[0], x[2]) for x in alts]) if len(alts) > 1 else alts[0][2])
        if I.dst:
            r = alts[-1][3]
            for x in alts[-2::-1]: r = self.ite(x[1], x[3], r)
            env[I.dst] = r

    def retsym(self, t, name, cn, ev, path=()):
        t = self.m.types.resolve(t)
        if t[0] == 'st': return tuple(self.retsym(x, name, cn, ev, path + (i,)) for i, x in enumerate(t[1]))
        if t == ('void',): return None
        return self.g.mk('ret', (name, cn, ev.index) + path, self.width(t))

    def intrinsic(self, name, I, vals, env, m, bg, out):
        g = self.g
        base = '.'.join(name.split('.')[:3])
        k = name.split('.')
        if self.expired is not None and name.startswith('llvm.lifetime.'):
            b, off = g.split(vals[1])
            if b.op == 'obj' and off == 0: m.dead = m.dead | {b.id} if name.startswith('llvm.lifetime.end') else m.dead - {b.id}
            return
        if any(name.startswith(x) for x in IGNORED): return
        if k[1] in ('smax', 'smin', 'umax', 'umin'):
            p = 'slt' if k[1][0] == 's' else 'ult'
            c = g.icmp(p, vals[0], vals[1])
            env[I.dst] = g.ite(c, vals[1], vals[0]) if k[1][1:] == 'max' else g.ite(c, vals[0], vals[1])
        elif k[1] == 'abs':
            env[I.dst] = g.ite(g.icmp('slt', vals[0], g.const(0, vals[0].w)), g.neg(vals[0]), vals[0])
        elif k[1] in ('memcpy', 'memmove'):
            if m.dead:
                self.alive(m, vals[0], 'written', bg)
                self.alive(m, vals[1], 'read', bg)
            self.memcpy(m, vals[0], vals[1], vals[2], bg, out)
        elif k[1] == 'memset':
            b, off = g.split(vals[0])
            if b.op != 'obj': out.events.append(Event(bg, 'call', 'memset', vals[:3], loop=self.loopctx))
            if g.isc(vals[2]) and g.isc(vals[1]) and vals[2].args[0] <= 4096:
                n = vals[2].args[0]
                c = vals[1].args[0] & 255
                i = 0
                while i < n:
                    s = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
                    self.store_raw(m, b, off + i, s, g.const(int.from_bytes(bytes([c] * s), 'little'), 8 * s))
                    i += s
            else: self.havoc(m, b)
        elif k[1] in ('expect',): env[I.dst] = vals[0]
        elif k[1] == 'objectsize': env[I.dst] = g.const(-1, 64)
        elif k[1] == 'is' and k[2] == 'constant': env[I.dst] = g.false
        elif k[1] == 'trap':
            if os.environ.get('VERIF_DEBUG'): print('STOP trap', str(conds(bg))[:300], ' < '.join(self.stack[::-1])[:1500])
            out.stops.append((bg, 'trap')); return 'dead'
        elif len(k) > 2 and k[2] == 'with' and k[1] in ('umul', 'uadd', 'sadd', 'smul', 'usub', 'ssub'):
            op = {'mul': 'mul', 'add': 'add', 'sub': 'sub'}[k[1][1:]]
            env[I.dst] = (g.bin(op, vals[0], vals[1]), g.mk('ovf', (k[1], vals[0], vals[1]), 1))
        elif k[1] in ('stacksave',): env[I.dst] = g.const(0, 64)
        elif k[1] == 'eh': 
            if I.dst: env[I.dst] = g.const(0, 32)
        elif k[1] == 'threadlocal': env[I.dst] = vals[0]
        else:
            if I.dst: env[I.dst] = g.fun(name, [v for v in vals if v is not None], self.width(I.ty)) if not any(isinstance(v, tuple) for v in vals) else self.undef(I.ty)


# external functions whose effect on memory is known: argument -> bytes written (every other argument is only read)
OUT_PARAMS = {
    'MPI_Comm_dup': {1: 8}, 'MPI_Comm_split': {3: 8}, 'MPI_Comm_free': {0: 8}, 'MPI_Comm_rank': {1: 4}, 'MPI_Comm_size': {1: 4},
    'MPI_Comm_create': {2: 8}, 'MPI_Comm_group': {1: 8}, 'MPI_Type_vector': {4: 8}, 'MPI_Type_contiguous': {2: 8},
    'MPI_Type_create_struct': {4: 8}, 'MPI_Type_commit': {0: 8}, 'MPI_Type_free': {0: 8}, 'MPI_Type_create_hvector': {4: 8},
    'MPI_Type_create_resized': {3: 8}, 'MPI_Query_thread': {0: 4}, 'MPI_Initialized': {0: 4}, 'MPI_Finalized': {0: 4},
    'MPI_Isend': {6: 8}, 'MPI_Irecv': {6: 8}, 'MPI_Ibcast': {5: 8}, 'MPI_Iallreduce': {6: 8}, 'MPI_Ireduce': {7: 8},
    'MPI_Send': {}, 'MPI_Ssend': {}, 'MPI_Bcast': {}, 'MPI_Reduce': {}, 'MPI_Allreduce': {}, 'MPI_Barrier': {}, 'MPI_Recv': {6: 8},
    'MPI_Group_free': {0: 8}, 'MPI_Comm_compare': {2: 4}, 'MPI_Error_string': {}, 'MPI_Wait': {0: 8, 1: 8},
}


def ins(v, idx, e):
    if not idx: return e
    l = list(v)
    l[idx[0]] = ins(l[idx[0]], idx[1:], e)
    return tuple(l)


def conj(n):
    if n.op == 'and': return conj(n.args[0]) + conj(n.args[1])
    return [n]


def depends(n, pred, memo=None):
    memo = {} if memo is None else memo
    if n.id in memo: return memo[n.id]
    r = pred(n) or any(isinstance(a, Node) and depends(a, pred, memo) for a in n.args)
    memo[n.id] = r
    return r


def rebuild(g, n, sub, memo):
    if n.id in sub: return sub[n.id]
    if n.id in memo: return memo[n.id]
    if not any(isinstance(a, Node) for a in n.args):
        memo[n.id] = n
        return n
    a = [rebuild(g, x, sub, memo) if isinstance(x, Node) else x for x in n.args]
    if all(x is y for x, y in zip(a, n.args)): r = n
    else:
        o = n.op
        if o in ('add', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'xor', 'shl', 'lshr', 'ashr'): r = g.bin(o, *a)
        elif o in ('and', 'or'): r = g.bin(o, *a)
        elif o in ('eq', 'slt', 'ult'): r = g.icmp(o, *a)
        elif o == 'ite': r = g.ite(*a)
        elif o == 'not': r = g.bnot(a[0])
        elif o in ('zext', 'sext'): r = g.ext(o, a[0], n.w)
        elif o == 'trunc': r = g.trunc(a[0], n.w)
        else: r = g.mk(o, a, n.w)
    memo[n.id] = r
    return r


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}


def allocas(f):
    r = getattr(f, 'allocas', None)
    if r is None: r = f.allocas = [I for b in f.blocks.values() for I in b if I.op == 'alloca']
    return r


class CFG:
    def __init__(self, f, throwing=()):
        self.f = f
        self.throwing = throwing
        self.entry = f.order[0]
        self.succ = {}
        for b in f.order:
            I = f.blocks[b][-1]
            if I.op == 'br': s = [I.a[0]]
            elif I.op == 'condbr': s = [I.a[1], I.a[2]]
            elif I.op == 'switch': s = [I.a[1]] + [l for _, l in I.a[2]]
            elif I.op == 'invoke': s = [I.a[3][0]] + ([I.a[3][1]] if self.unwinds(I) else [])
            else: s = []
            self.succ[b] = s
        # reachable (without unwinding)
        reach = set()
        st = [self.entry]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b)
            st.extend(self.succ[b])
        self.reach = reach
        pred = {b: [] for b in reach}
        for b in reach:
            for s in self.succ[b]: pred[s].append(b)
        self.pred = pred
        # dominators
        order = self._rpo(self.entry, lambda b: self.succ[b])
        num = {b: i for i, b in enumerate(order)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b): raise Unsupported('irreducible loop')
                    lp = self.loops.setdefault(s, Loop(s))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in lp.blocks: continue
                        lp.blocks.add(x)
                        st.extend(pred[x])
        self.order = order
        # dead blocks: no path to a return, i.e. the program stops there
        ok = set()
        st = [b for b in reach if f.blocks[b][-1].op in ('ret', 'resume')]
        while st:
            b = st.pop()
            if b in ok: continue
            ok.add(b)
            st.extend(pred[b])
        self.dead = set(b for b in reach if b not in ok)
        self.unreach = set(b for b in reach if f.blocks[b][0].op == 'unreachable')

    def unwinds(self, I):
        c = I.a[0]
        return c[0] == 'glob' and c[1].lstrip('@').strip('"') in self.throwing

    def _rpo(self, e, succ):
        seen = set()
        out = []
        st = [(e, iter(succ(e)))]
        seen.add(e)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ(s))))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def topo(self, entry, loop):
        """topological order in which inner loops are collapsed into their header"""
        inner = {}
        for h, lp in self.loops.items():
            if loop is not None and (lp is loop or h not in loop.blocks or not lp.blocks < loop.blocks): continue
            for b in lp.blocks:
                cur = inner.get(b)
                if cur is None or len(cur.blocks) < len(lp.blocks): inner[b] = lp
        def rep(b):
            return inner[b].header if b in inner else b
        def succ(b):
            res = []
            blocks = inner[b].blocks if b in inner else [b]
            for x in blocks:
                for s in self.succ[x]:
                    if b in inner and s in blocks: continue
                    if loop is not None and (s not in loop.blocks or s == entry): continue
                    res.append(rep(s))
            return res
        return self._rpo(rep(entry) if loop is None else entry, succ)


def conds(n):
    """smallest conditions inside of n"""
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.w == 1 and x.op in ('eq', 'slt', 'ult', 'fcmp'): out.append(x)
        st.extend(a for a in x.args if isinstance(a, Node))
    return [show(x)[:300] for x in sorted(out, key=lambda x: x.id)[:3]]
