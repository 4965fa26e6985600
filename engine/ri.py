"""Identity test of value graphs (random interpretation, Gulwani & Necula, POPL 2003/2004).

The nodes of a value graph are valued, all at once, over a vector of valuations of the graph's variables; uninterpreted operations
(results of external functions, contents of memory behind pointers) get values that depend only on the values of their arguments.
Two graphs that differ as functions are told apart by some valuation with high probability; no valuation is ever produced by
executing the program."""
import numpy as np
from vg import Node, Unsupported, Event

M64 = (1 << 64) - 1
ERR = dict(over='ignore', invalid='ignore', divide='ignore')


def mix(h):
    h = h.astype(np.uint64)
    with np.errstate(**ERR):
        h = (h ^ (h >> np.uint64(30))) * np.uint64(0xbf58476d1ce4e5b9)
        h = (h ^ (h >> np.uint64(27))) * np.uint64(0x94d049bb133111eb)
        return h ^ (h >> np.uint64(31))


def shash(s):
    h = 1469598103934665603
    for c in str(s).encode(): h = ((h ^ c) * 1099511628211) & M64
    return np.uint64(h)


def fold(seed, arrs, n):
    h = np.full(n, shash(seed), dtype=np.uint64)
    with np.errstate(**ERR):
        for a in arrs: h = mix(h * np.uint64(0x9e3779b97f4a7c15) + bits(a))
    return h


def bits(a):
    if a.dtype == np.float64: return a.view(np.uint64)
    if a.dtype == np.float32: return a.view(np.uint32).astype(np.uint64)
    if a.dtype == np.bool_: return a.astype(np.uint64)
    return a.astype(np.int64).view(np.uint64)


def wrap(a, w):
    if w == 64: return a
    if w == 1: return (a & 1).astype(np.bool_)
    s = np.int64(64 - w)
    with np.errstate(**ERR): return (a << s) >> s


def uns(a, w):
    if w == 64: return a.view(np.uint64)
    return (a & np.int64((1 << w) - 1)).view(np.uint64)


def fdt(w): return {'f32': np.float32, 'f64': np.float64}.get(w, np.float64)


class Cycle(Exception):
    """a value depends on itself: processes wait for each other"""


class Eval:
    def __init__(self, graph, summary, n, vars, salt=0):
        """vars: name -> array"""
        self.g, self.sum, self.n, self.vars, self.memo, self.salt = graph, summary, n, vars, {}, salt
        self.occ_cache = {}
        self.pmemo = {}

    def __call__(self, node):
        memo = self.memo
        r = memo.get(node.id)
        if r is not None: return r
        # iterative post-order
        st = [node]
        late, openl = self.g.late, set()
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop(); continue
            todo = [a for a in self.deps(x) if a.id not in memo]
            if todo:
                if late and x.op == 'var' and x.args[0] in late:
                    if x.id in openl: raise Cycle(x.args[0])
                    openl.add(x.id)
                st.extend(todo); continue
            memo[x.id] = self.one(x)
            st.pop()
        return memo[node.id]

    def poison(self, node):
        """valuations for which the value depends on something the analysis does not track"""
        if not self.g.unknowns: return np.zeros(self.n, dtype=bool)
        P = self.pmemo
        st = [node]
        while st:
            x = st[-1]
            if x.id in P:
                st.pop(); continue
            todo = [a for a in self.deps(x) if a.id not in P]
            if todo:
                st.extend(todo); continue
            ps = [P[a.id] for a in self.deps(x)]
            if x.op == 'unknown': r = np.ones(self.n, dtype=bool)
            elif not any(p.any() for p in ps): r = np.zeros(self.n, dtype=bool)
            elif x.op == 'ite':
                c = self(x.args[0])
                r = P[x.args[0].id] | np.where(c, P[x.args[1].id], P[x.args[2].id])
            elif x.op in ('and', 'or') and x.w == 1:
                a, b = x.args
                va, vb = self(a), self(b)
                if x.op == 'or': va, vb = ~va, ~vb
                r = (P[a.id] & P[b.id]) | (P[a.id] & vb) | (P[b.id] & va)
            else:
                r = np.zeros(self.n, dtype=bool)
                for p in ps: r = r | p
            P[x.id] = r
            st.pop()
        return P[node.id]

    def deps(self, x):
        if x.op == 'var':
            b = self.g.late.get(x.args[0])
            return () if b is None else (b,)
        return [a for a in x.args if isinstance(a, Node)]

    def full(self, v, w):
        if isinstance(w, str): return np.full(self.n, v, dtype=fdt(w))
        if w == 1: return np.full(self.n, bool(v))
        return np.full(self.n, v, dtype=np.int64)

    def fromhash(self, h, w):
        if isinstance(w, str):
            # a moderate number
            return ((h % np.uint64(2001)).astype(np.int64) - 1000).astype(fdt(w)) / fdt(w)(8)
        if w == 1: return (h & np.uint64(1)).astype(np.bool_)
        return wrap(h.view(np.int64), w)

    def occ(self, name, index):
        """how many earlier events of that name are executed in each valuation"""
        k = (name, index)
        if k not in self.occ_cache:
            c = np.zeros(self.n, dtype=np.int64)
            for e in self.sum.events[:index]:
                if e.name == name: c += self(e.guard).astype(np.int64)
            self.occ_cache[k] = c
        return self.occ_cache[k]

    def one(self, x):
        o, w = x.op, x.w
        V = self.memo
        A = [V[a.id] if isinstance(a, Node) else a for a in x.args]
        with np.errstate(**ERR):
            if o == 'const': return self.full(x.args[0], w)
            if o == 'var':
                b = self.g.late.get(x.args[0])   # a value that is sent by another process
                if b is not None: return V[b.id]
                v = self.vars.get(x.args[0])
                if v is None: return self.fromhash(fold(('v', x.args[0], self.salt), [np.arange(self.n)], self.n), w)
                return v
            if o == 'add': return wrap(A[0] + A[1], w)
            if o == 'mul': return wrap(A[0] * A[1], w)
            if o in ('sdiv', 'srem'):
                a, b = A
                bz = b == 0
                bb = np.where(bz | (b == -1), 1, b)
                q = np.abs(a) // np.abs(bb)
                q = np.where((a < 0) != (bb < 0), -q, q)
                q = np.where(b == -1, -a, q)
                q = np.where(bz, 0, q)
                return wrap(q if o == 'sdiv' else a - q * b, w)
            if o in ('udiv', 'urem'):
                a, b = uns(A[0], w), uns(A[1], w)
                bb = np.where(b == 0, np.uint64(1), b)
                q = np.where(b == 0, np.uint64(0), a // bb)
                return wrap((q if o == 'udiv' else a - q * b).view(np.int64), w)
            if o == 'and': return A[0] & A[1]
            if o == 'or': return A[0] | A[1]
            if o == 'xor': return A[0] ^ A[1]
            if o == 'shl': return wrap(A[0] << (A[1] & 63), w)
            if o == 'lshr': return wrap((uns(A[0], w) >> uns(A[1] & 63, 64)).view(np.int64), w)
            if o == 'ashr': return A[0] >> (A[1] & 63)
            if o == 'not': return ~A[0]
            if o == 'ite': return np.where(A[0], A[1], A[2])
            if o == 'eq': return A[0] == A[1]
            if o == 'slt': return A[0] < A[1]
            if o == 'ult':
                ww = x.args[0].w
                return uns(A[0], ww) < uns(A[1], ww)
            if o == 'zext':
                aw = x.args[0].w
                return A[0].astype(np.int64) if aw == 1 else uns(A[0], aw).view(np.int64)
            if o == 'sext': return A[0]
            if o == 'trunc': return wrap(A[0], w)
            if o == 'pack': return (uns(A[0], 32) | (uns(A[1], 32) << np.uint64(32))).view(np.int64)
            if o == 'hi32': return A[0] >> np.int64(32)
            if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                if w not in ('f32', 'f64'): return self.fromhash(fold(o, A, self.n), w)
                return {'fadd': np.add, 'fsub': np.subtract, 'fmul': np.multiply, 'fdiv': np.divide}[o](A[0], A[1])
            if o == 'fneg': return -A[0]
            if o == 'fcmp':
                p, a, b = x.args[0], A[1], A[2]
                nan = np.isnan(a) | np.isnan(b)
                base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
                if p == 'ord': return ~nan
                if p == 'uno': return nan
                if p in ('true', 'false'): return self.full(p == 'true', 1)
                r = base[p[1:]]
                return (r & ~nan) if p[0] == 'o' else (r | nan)
            if o in ('sitofp', 'uitofp'):
                v = A[0]
                if o == 'uitofp': v = uns(v, x.args[0].w)
                return v.astype(fdt(w))
            if o in ('fptosi', 'fptoui'):
                v = np.where(np.isfinite(A[0]), A[0], 0)
                if o == 'fptoui': v = np.where(v >= 2.0 ** 63, v - 2.0 ** 64, v)
                return wrap(np.clip(v, -2.0 ** 63, 2.0 ** 63 - 1025).astype(np.int64), w)
            if o in ('fptrunc', 'fpext'): return A[0].astype(fdt(w))
            if o == 'bitcast':
                a = A[0]
                if w == 'f64' and a.dtype == np.int64: return a.view(np.float64)
                if w == 'f32': return a.astype(np.int32).view(np.float32)
                if w == 64 and a.dtype == np.float64: return a.view(np.int64)
                if w == 32 and a.dtype == np.float32: return a.view(np.int32).astype(np.int64)
                return self.fromhash(fold('bc', A, self.n), w)
            if o == 'ovf':
                k, a, b = x.args[0], A[1], A[2]
                ww = x.args[1].w
                if k[0] == 'u': fa, fb = uns(a, ww).astype(object), uns(b, ww).astype(object)
                else: fa, fb = a.astype(object), b.astype(object)
                r = fa * fb if k[1:] == 'mul' else fa + fb if k[1:] == 'add' else fa - fb
                lo, hi = (0, (1 << ww) - 1) if k[0] == 'u' else (-(1 << (ww - 1)), (1 << (ww - 1)) - 1)
                return np.array((r < lo) | (r > hi), dtype=np.bool_)
            if o == 'glob': return self.full(int(shash(x.args[0]) >> np.uint64(17)) * 16, 64)
            if o == 'obj': return self.full((1 << 60) + x.args[1] * (1 << 32), 64)
            if o in ('undef', 'unknown'): return self.fromhash(fold(('undef', x.id, self.salt), [np.arange(self.n)], self.n), w)
            if o == 'mem':
                base, off, ver = x.args
                if isinstance(ver, tuple) and ver[0] == 'out':
                    _, name, idx, j, off0 = ver
                    return self.modelled(name, ('out', j, off - off0), idx, w)
                a = self.memo[base.id]
                if base.op == 'glob': return self.fromhash(fold(('gmem', base.args[0], off, ver), [], self.n), w)
                return self.memval(a + np.int64(off), w, ver)
            if o == 'ret':
                name, cn, idx = x.args[0], x.args[1], x.args[2]
                return self.modelled(name, ('ret',) + tuple(x.args[3:]), idx, w)
            if o == 'uf':
                return self.uf(x.args[0], A[1:], w)
        raise Unsupported('evaluate ' + o)

    def memval(self, addr, w, ver=0):
        return self.fromhash(fold(('mem', self.salt, ver if ver else 0), [addr], self.n), w)

    def modelled(self, name, what, idx, w):
        m = MODELS.get((name,) + tuple(what[:1]))
        e = self.sum.events[idx]
        if m is not None:
            r = m(self, e, what, w)
            if r is not None: return r
        if name.startswith('verif_any'):  # a function of its arguments only
            arrs = [self(a) for a in e.args if isinstance(a, Node)]
            return self.fromhash(fold((name, what, self.salt), arrs, self.n), w)
        if name.startswith('MPI_') and what == ('ret',): 
            if self.vars.get('#mpi_fail') is None: return self.full(0, w)
            h = fold(('fail', name), [self.occ(name, idx), self.vars['#mpi_fail']], self.n)
            return np.where(h % np.uint64(4) == 0, (h % np.uint64(50)).astype(np.int64) + 1, 0)
        lane = self.vars.get('#lane')
        return self.fromhash(fold((name, what, self.salt), [self.occ(name, idx)] + ([lane] if lane is not None else []), self.n), w)

    def uf(self, name, args, w):
        k = name.split('.')
        if k[0] == 'llvm' and k[1] in UF1 and len(args) == 1: return UF1[k[1]](args[0]).astype(args[0].dtype)
        if k[0] == 'llvm' and k[1] in ('fmuladd', 'fma'): return args[0] * args[1] + args[2]
        if k[0] == 'llvm' and k[1] == 'copysign': return np.copysign(args[0], args[1])
        if k[0] == 'llvm' and k[1] in ('maxnum', 'minnum'): return (np.fmax if k[1] == 'maxnum' else np.fmin)(args[0], args[1])
        if k[0] == 'llvm' and k[1] in ('ctpop', 'ctlz', 'cttz'): return self.fromhash(fold(name, args, self.n), w)
        if k[0] == 'llvm' and k[1] in ('lround', 'llround'): return lround(args[0], w)
        if k[0] == 'llvm' and k[1] in ('lrint', 'llrint'): return np.rint(args[0]).astype(np.int64)
        return self.fromhash(fold(name, args, self.n), w)


UF1 = {'fabs': np.abs, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint, 'nearbyint': np.rint, 'sqrt': np.sqrt,
       'round': lambda a: np.where(np.isfinite(a), np.sign(a) * np.floor(np.abs(a) + 0.5), a)}


def lround(a, w):
    v = np.where(np.isfinite(a), a, 0)
    r = np.floor(np.abs(v))
    r = r + (np.abs(v) - r >= 0.5)
    return wrap(np.clip(np.sign(v) * r, -2.0 ** 62, 2.0 ** 62).astype(np.int64), w)


def _libm(fn):
    def f(ev, e, what, w):
        return fn(*[ev(a) for a in e.args], w)
    return f


def _tolower(ev, e, what, w):
    c = ev(e.args[0])
    return np.where((c >= 65) & (c <= 90), c + 32, c)


MODELS = {
    ('lround', 'ret'): _libm(lround), ('llround', 'ret'): _libm(lround), ('lroundf', 'ret'): _libm(lround),
    ('floor', 'ret'): _libm(lambda a, w: np.floor(a)), ('ceil', 'ret'): _libm(lambda a, w: np.ceil(a)),
    ('round', 'ret'): _libm(lambda a, w: UF1['round'](a)), ('sqrt', 'ret'): _libm(lambda a, w: np.sqrt(a)),
    ('lrint', 'ret'): _libm(lambda a, w: np.rint(a).astype(np.int64)),
    ('tolower', 'ret'): _tolower,
}
