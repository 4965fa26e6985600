"""Decides laws about /repo's functions from the value graphs of their compiled source (see vg.py, ri.py).

A law source /verif/spec/<group>.cpp contains
  //@ src: a.cpp b.cpp                     units of /repo that are needed
  //@ law NAME | dom ... | about: file: function | opt=...
followed by one of
  extern "C" bool law_NAME(...)            must return true, for every valuation of its parameters inside the domain
  extern "C" void rej_NAME(...)            must stop with a report for every valuation inside the domain
  extern "C" T impl_NAME(...), spec_NAME   must have the same result, the same external calls in the same order, and stop together
verif_assume(c) inside restricts the domain further."""
import sys, os, re, signal, subprocess, tempfile, threading, time, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import irparse
from vg import Graph, Interp, Summary, Unsupported, Node, show, conds
import vg
from ri import Eval, Cycle, fold, mix, bits, shash, ERR

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'
FLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-mno-constructor-aliases', '-emit-llvm', '-S', '-w',
         '-include', VERIF + '/spec/prelude.h', '-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/src',
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-DDLAF_ASSERT_ENABLE', '-DDLAF_ASSERT_MODERATE_ENABLE', '-DDLAF_ASSERT_HEAVY_ENABLE',
         '-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__', '-DDLAF_WITH_OPENMP']
PASSES = ('internalize,globaldce,function(sroa,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg,instsimplify,adce)),'
          'function(sroa,gvn,simplifycfg,instsimplify,adce),globaldce')


class AnalysisError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stdout, p.stderr


def build_ir(spec, srcs, tmp, extra=()):
    """-> text of the optimised, inlined module"""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(spec, os.path.join(tmp, 'o.ll'))]
    for s in srcs: jobs.append((os.path.join(REPO, s), os.path.join(tmp, s.replace('/', '_') + '.ll')))

    def one(j):
        first = [x for x in extra if x.startswith('-I')]
        rest = [x for x in extra if not x.startswith(('-I', '--inline='))]
        return sh(['clang++'] + first + FLAGS + rest + ['-o', j[1], j[0]])
    with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, jobs))
    for j, (rc, o, e) in zip(jobs, res):
        if rc:
            ex = AnalysisError('cannot compile %s:\n%s' % (j[0], '\n'.join(e.splitlines()[:12])))
            ex.text = e if j[0] == spec else ''
            raise ex
    l = os.path.join(tmp, 'l.ll')
    rc, o, e = sh([LL + 'llvm-link', '-S'] + [j[1] for j in jobs] + ['-o', l])
    if rc: raise AnalysisError('llvm-link: ' + e[:2000])
    txt = open(l).read()
    pub = re.findall(r'^define [^@]*@((?:law|rej|impl|spec)_\w+)', txt, re.M)
    x = os.path.join(tmp, 'x.ll')
    # the laws' own helpers must all be inlined
    rc, o, e = sh([LL + 'opt', '-S', '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(pub), '-inline-threshold=' + next((x[9:] for x in extra if x.startswith('--inline=')), '1000000'), l, '-o', x])
    if rc: raise AnalysisError('opt: ' + e[:2000])
    return open(x).read(), pub


# ---------------------------------------------------------------- domains
SPECIAL = {}


def special_values(bits_, signed):
    out = []
    for b in (8, 16, 31, 32, 63, 64, 7, 15):
        for d in (-2, -1, 0, 1, 2):
            out.append((1 << b) + d)
            if signed: out.append(-(1 << b) + d)
    out += [0, 1, 2, 3, 5, 10, 100, 12345, -1, -2, -3, -100]
    lo, hi = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if signed else (0, (1 << bits_) - 1)
    return sorted(set(x for x in out if lo <= x <= hi))


def sample(dom, n, rng):
    """dom: [(name, spec)] -> arrays, validity mask"""
    env = {}
    ok = np.ones(n, dtype=bool)
    ns = {'min': np.minimum, 'max': np.maximum, 'ceil_div': lambda a, b: -((-a) // b), 'where': np.where, 'abs': np.abs}

    def ev(e):
        r = eval(e, {'__builtins__': {}}, {**ns, **env})
        return np.broadcast_to(np.asarray(r), (n,)).astype(np.int64)
    for name, spec in dom:
        spec = spec.strip()
        if spec in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'):
            b = int(spec[1:]); sg = spec[0] == 'i'
            sp = special_values(b, sg)
            v = rng.choice(np.array([x if x < 1 << 63 else x - (1 << 64) for x in sp], dtype=np.int64), n)
            r = rng.integers(-(1 << 63), (1 << 63) - 1, n, dtype=np.int64)
            r = r >> rng.integers(0, 62, n)
            r = np.right_shift(np.left_shift(r, 64 - b), 64 - b) if b < 64 else r
            if not sg and b < 64: r = r & ((1 << b) - 1)
            v = np.where(rng.random(n) < 0.5, v, r)
            if not sg and b < 64: v = np.where(v >= 1 << (b - 1), v - (1 << b), v)   # representation: sign extended
            env[name] = v
            continue
        if spec in ('f64', 'f32'):
            dt = np.float64 if spec == 'f64' else np.float32
            sp = np.array([0.0, -0.0, 1, -1, 0.5, -0.5, 2, 1e-3, 1e6, 100, 50, 33.3, 99.9, -7.25], dtype=dt)
            v = rng.choice(sp, n)
            r = (rng.integers(-4000, 4000, n) / 16).astype(dt)
            env[name] = np.where(rng.random(n) < 0.3, v, r).astype(dt)
            continue
        if spec == 'fspecial':
            sp = np.array([0.0, -0.0, 1, -1, np.inf, -np.inf, np.nan, -np.nan, 5e-324, -5e-324, 1e300, -1e300])
            env[name] = np.where(rng.random(n) < 0.7, rng.choice(sp, n), rng.standard_normal(n))
            continue
        if spec == 'bool':
            env[name] = rng.integers(0, 2, n).astype(bool)
            continue
        if spec == 'ptr':
            env[name] = (rng.integers(1, 1 << 30, n) << 14) + (len(env) << 50)
            continue
        alts = spec.split('|')
        v = np.zeros(n, dtype=np.int64)
        which = rng.integers(0, len(alts), n)
        for i, a in enumerate(alts):
            a = a.strip()
            if a.startswith('{'):
                x = rng.choice(np.array([int(eval(t)) for t in a[1:-1].split(',')], dtype=np.int64), n)
            elif '..' in a:
                lo, hi = [ev(t) for t in a.split('..')]
                bad = hi < lo
                ok &= ~(bad & (which == i))
                hi = np.where(bad, lo, hi)
                span = (hi - lo + 1).astype(np.float64)
                x = lo + np.minimum((rng.random(n) * span).astype(np.int64), hi - lo)
                # bounds are more telling than the inside
                e = rng.random(n)
                x = np.where(e < 0.12, lo, np.where(e > 0.88, hi, x))
            else:
                x = ev(a)
            v = np.where(which == i, x, v)
        env[name] = v
    return env, ok


class Law:
    pass


COMM = ['src/matrix/distribution.cpp'] + ['src/communication/%s.cpp' % x for x in (
    'communicator', 'communicator_impl', 'datatypes', 'kernels/broadcast', 'kernels/reduce', 'kernels/all_reduce', 'kernels/p2p')]


def parse_spec(path):
    txt = open(path).read()
    srcs, laws, extra, dflt = [], [], [], {}
    for l in txt.splitlines():
        m = re.match(r'\s*//@ src:(.*)', l)
        if m: srcs += m.group(1).split()
        m = re.match(r'\s*//@ flags:(.*)', l)
        if m: extra += m.group(1).split()
        m = re.match(r'\s*//@ stubs:(.*)', l)   # stand-ins that come first
        if m: extra += ['-I%s/stubs/%s' % (VERIF, x) for x in m.group(1).split()]
        if re.match(r'\s*//@ algorithm', l):   # whole algorithms: tasks in program order, several processes (spec/algo.h, spec/ranks.h)
            extra += ['-DVERIF_FIBERS', '-I%s/stubs/seq' % VERIF, '-fcx-limited-range', '--inline=30']
            srcs += COMM
            dflt = {'n': '250', 'initial': '1'}
    defs = dict(re.findall(r'^\s*//@ def (\w+) = (.*)$', txt, re.M))
    for k in defs:
        for _ in range(5): defs[k] = re.sub(r'\$(\w+)', lambda m: defs[m.group(1)], defs[k])
    for m in re.finditer(r'^[ \t]*//@ law ([^\n]*(?:\n[ \t]*//@ \+[^\n]*)*)', txt, re.M):
        body = re.sub(r'\n[ \t]*//@ \+', ' ', m.group(1))
        body = re.sub(r'\$(\w+)', lambda mm: defs[mm.group(1)], body)
        parts = [p.strip() for p in body.split(' ; ')]
        L = Law()
        L.name = parts[0]
        L.dom, L.about, L.opt = [], '', dict(dflt)
        for p in parts[1:]:
            if p.startswith('about:'): L.about = p[6:].strip()
            elif p.startswith('dom:'):
                for d in split_top(p[4:]):
                    if not d.strip(): continue
                    k, v = d.split('=', 1)
                    L.dom.append((k.strip(), v.strip()))
            elif '=' in p:
                k, v = p.split('=', 1)
                L.opt[k.strip()] = v.strip()
            elif p: L.opt[p] = '1'
        laws.append(L)
    return srcs, laws, extra, txt


def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '{([': d += 1
        if c in '})]': d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    return out + [cur]


ASSUME = 'verif_assume_failed'
vg.NORETURN_STOP.add(ASSUME)


def ldiv_model(ip, vals, m, bg, out, I):
    g = ip.g
    return (g.bin('sdiv', vals[0], vals[1]), g.bin('srem', vals[0], vals[1]))


def summarise(mod, g, fname, opt):
    ip = Interp(mod, g, dict(DEFAULT_MODELS))
    ip.unroll = int(opt.get('unroll', 6))
    g.generic = bool(opt.get('generic'))
    if opt.get('expired'): ip.expired, ip.owner = [], {}
    ip.throwing = set(opt.get('throwing', '').split()) if opt.get('throwing') else set()
    f = mod.funcs[fname]
    args = []
    for i, (t, n) in enumerate(f.params):
        w = ip.width(t)
        if w == 'agg': raise Unsupported('aggregate parameter')
        args.append(g.var('a%d' % i, w))
    mem = None
    if opt.get('initial'):   # the state right after static initialisation
        ip.initial = True
        mem = vg.Mem()
        for c in mod.ctors:
            _, mem, _ = ip.run(c, [], mem=mem, out=vg.Summary())
    s = ip.run(fname, args, mem=mem)
    s.widths = [a.w for a in args]
    s.functions = ip.functions_seen
    s.nthrow = ip.nthrow
    s.expired = [(bg, b, how, st, ip.owner.get(b.id)) for bg, b, how, st in ip.expired or ()]
    return s


# ---- several processes in one law (spec/ranks.h): what is exchanged is bound by name, whatever the order of the processes
def late_key(ip, vals, bg):
    g = ip.g
    if not all(g.isc(v) for v in vals): raise Unsupported('communication depends on the data')
    if not (g.isc(bg) and bg.args[0]):
        if os.environ.get('VERIF_DEBUG'): print('GUARD', conds(bg), ' < '.join(ip.stack[::-1])[:6000])
        raise Unsupported('communication depends on the data')
    return ':'.join(str(v.args[0]) for v in vals)


def late_model(ip, vals, m, bg, out, I):
    # double verif_late(a, b, c, d, e): the value that verif_bind(a, b, c, d, e, value) gives, now or later
    k = 'late:' + late_key(ip, vals, bg)
    return ip.g.late[k] if k in ip.g.late else ip.g.var(k, 'f64')


def bind_model(ip, vals, m, bg, out, I):
    k = 'late:' + late_key(ip, vals[:-1], bg)
    if k in ip.g.late: ip.g.unmet = True
    ip.g.late[k] = vals[-1]


def seq_model(ip, vals, m, bg, out, I):
    # long verif_seq(a, b, c, d, e): number of earlier calls with these arguments
    k = ('seq', late_key(ip, vals, bg))
    n = ip.g.counts.get(k, 0)
    ip.g.counts[k] = n + 1
    return ip.g.const(n, 64)


def meet_model(ip, vals, m, bg, out, I):
    # void verif_meet(n, who, what1, what2, a, b, c, d, e): process `who` takes part in meeting (a .. e) of n processes
    n, who = vals[0].args[0], vals[1].args[0]
    what, k = late_key(ip, vals[2:4], bg), ('meet', late_key(ip, vals[4:], bg))
    if os.environ.get('VERIF_DEBUG'): print('meet', k[1], 'of', n, 'what', what, 'rank', who)
    e = ip.g.counts.setdefault(k, (n, what, set()))
    if e[0] != n or e[1] != what or who in e[2]: ip.g.unmet = True
    e[2].add(who)


def met_model(ip, vals, m, bg, out, I):
    # bool verif_all_met(): every meeting had all its participants, who agreed on what they do
    late_key(ip, [], bg)
    bad = [k for k, e in ip.g.counts.items() if k[0] == 'meet' and len(e[2]) != e[0]]
    if bad and os.environ.get('VERIF_DEBUG'): print('unmet', bad[:5])
    return ip.g.false if ip.g.unmet or bad else ip.g.true


# ---- fibers: a function interpreted up to where it suspends itself, and from there on later (spec stubs: tasks that block)
class Fiber:
    """A function whose interpretation can be suspended; only one of the threads runs at a time."""
    def __init__(self, ip):
        self.ip, self.go, self.back = ip, threading.Semaphore(0), threading.Semaphore(0)
        threading.stack_size(128 << 20)
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.go.acquire()
            try:
                r, mm, live = self.ip.run(self.fname, self.args, self.mem.copy(), self.bg, self.out)
                self.mem, self.live = mm, live
            except BaseException as e: self.exc = e
            self.done = True
            self.back.release()

    def enter(self, m):
        """runs the fiber until it suspends itself or ends; 'dead' if it stopped"""
        ip = self.ip
        saved = ip.fiber, ip.stack, ip.depth
        ip.fiber, ip.stack, ip.depth, self.mem = self, self.stack, self.depth, m
        self.go.release()
        self.back.acquire()
        self.stack, self.depth = ip.stack, ip.depth
        ip.fiber, ip.stack, ip.depth = saved
        if self.exc: raise self.exc
        if self.done and ip.g.isc(self.live) and self.live.args[0] == 0: return 'dead'
        m.take(self.mem)


def always(ip, bg):
    if os.environ.get('VERIF_DEBUG') and not (ip.g.isc(bg) and bg.args[0]): print('GUARD', str(conds(bg))[:500], ' < '.join(ip.stack[::-1])[:3000])
    if not (ip.g.isc(bg) and bg.args[0]): raise Unsupported('a task that blocks depending on the data')


def fiber_start_model(ip, vals, m, bg, out, I):
    # long verif_fiber_start(void (*f)(void*), void* p): 0 if f(p) ended, else a handle of the suspended call
    g = ip.g
    always(ip, bg)
    if vals[0].op != 'glob': raise Unsupported('indirect fiber')
    if not hasattr(ip, 'fibers'): ip.fibers, ip.idle, ip.fiber = {}, [], None
    f = ip.idle.pop() if ip.idle else Fiber(ip)
    f.fname, f.args, f.bg, f.out, f.stack, f.depth, f.exc, f.done = ip.m.aliases.get(vals[0].args[0], vals[0].args[0]), [vals[1]], bg, out, list(ip.stack), ip.depth, None, False
    if f.enter(m) == 'dead': return 'dead'
    if f.done:
        ip.idle.append(f)
        return g.const(0, 64)
    n = ip.nfibers = getattr(ip, 'nfibers', 0) + 1
    ip.fibers[n] = f
    return g.const(n, 64)


def fiber_resume_model(ip, vals, m, bg, out, I):
    # bool verif_fiber_resume(long h): goes on with a suspended call; whether it ended
    always(ip, bg)
    f = ip.fibers[vals[0].args[0]]
    if f.enter(m) == 'dead': return 'dead'
    if f.done: ip.idle.append(ip.fibers.pop(vals[0].args[0]))
    return ip.g.true if f.done else ip.g.false


def fiber_suspend_model(ip, vals, m, bg, out, I):
    # void verif_fiber_suspend(): back to where the current fiber was started or resumed
    always(ip, bg)
    f = getattr(ip, 'fiber', None)
    if f is None: raise Unsupported('suspended outside of a fiber')
    f.mem = m
    f.back.release()
    f.go.acquire()
    m.take(f.mem)


def here_model(ip, vals, m, bg, out, I):
    # bool verif_here(who, a, b, c, d, e): whether process `who` takes part in meeting (a .. e) by now
    e = ip.g.counts.get(('meet', late_key(ip, vals[1:], bg)))
    return ip.g.true if e and vals[0].args[0] in e[2] else ip.g.false


DEFAULT_MODELS = {'verif_here': here_model, 'verif_fiber_start': fiber_start_model, 'verif_fiber_resume': fiber_resume_model, 'verif_fiber_suspend': fiber_suspend_model, 'verif_late': late_model, 'verif_bind': bind_model, 'verif_seq': seq_model, 'verif_meet': meet_model, 'verif_all_met': met_model, 'ldiv': ldiv_model, 'div': ldiv_model, 'lldiv': ldiv_model}


def bindvars(L, widths, env, n, extra):
    vars = dict(extra)
    if len(L.dom) != len(widths): raise AnalysisError('%s: %d domain entries for %d parameters' % (L.name, len(L.dom), len(widths)))
    for i, ((k, _), w) in enumerate(zip(L.dom, widths)):
        v = env[k]
        if w == 1: v = v.astype(bool)
        elif isinstance(w, int):
            v = v.astype(np.int64)
            if w < 64: v = (v << (64 - w)) >> (64 - w)
        elif w == 'f64': v = v.astype(np.float64)
        elif w == 'f32': v = v.astype(np.float32)
        vars['a%d' % i] = v
    return vars


def untracked(E, s, ret=True):
    """valuations for which the outcome depends on values the analysis does not track"""
    r = np.zeros(E.n, dtype=bool)
    if not E.g.unknowns: return r
    for gd, _ in list(s.stops) + list(s.throws): r |= E.poison(gd)
    if ret and s.ret is not None:
        for x in flat(s.ret): r |= E.poison(x)
    for e in s.events:
        r |= E.poison(e.guard)
        for a in e.args:
            if isinstance(a, Node) and e.kind == 'store' or e.name.startswith('verif_mpi'): r |= E.poison(a) & E(e.guard)
    return r


def guards(E, lst, pred=lambda k: True):
    r = np.zeros(E.n, dtype=bool)
    for gd, k in lst:
        if pred(k): r |= E(gd)
    return r


def trace(E, s, pat, only_mem=False):
    """folded trace of the external calls, per valuation"""
    H = np.full(E.n, 7, dtype=np.uint64)
    calls = []
    rx = re.compile(pat + r'\Z')
    for e in s.events:
        if e.kind != 'call' or not rx.match(e.name): continue
        gd = E(e.guard)
        if not gd.any(): continue
        arrs = []
        snapj = dict((j, c) for j, c in (e.extra or {}).get('snap', []))
        outp = vg.OUT_PARAMS.get(e.name, {})
        for j, a in enumerate(e.args):
            if not isinstance(a, Node): continue
            if isinstance(a.w, str) and a.w == 'agg': continue
            base = vg_base(a)
            if base is not None and base.op == 'obj' and base.args[0] == 'alloca':
                # address of a local: only what is stored there counts
                if j in outp and j not in snapj: continue
                for off, sz, x in snapj.get(j, []):
                    if 0 <= off < 8: arrs.append(E(x))
                continue
            arrs.append(E(a))
        h = fold(('ev', e.name), arrs, E.n)
        with np.errstate(**ERR): H = np.where(gd, mix(H * np.uint64(0x9e3779b97f4a7c15) + h), H)
        calls.append((e, gd, arrs))
    return H, calls


def vg_base(a):
    while a.op == 'add' and a.args[1].op == 'const': a = a.args[0]
    return a if a.op == 'obj' else None


def cell(E, x, lane):
    """what a location holds: the content of a location of the initial memory, or a value"""
    while True:
        if x.op == 'ite': x = x.args[1] if E(x.args[0])[lane] else x.args[2]
        elif x.op in ('bitcast', 'retype') and isinstance(x.args[0], Node): x = x.args[0]
        else: break
    if x.op == 'mem' and not x.args[2] and x.args[0].op != 'obj': return ('mem', int(E(x.args[0])[lane]) + x.args[1])
    return int(bits(E(x))[lane])


OWN = 1 << 60   # where objects of the program live (see Eval)


def final_memory(E, s, lane, elt):
    """external memory written, as {address: content} at granularity elt bytes, for one valuation"""
    memo = {}
    for e in s.events:
        if not E(e.guard)[lane]: continue
        if e.kind == 'store':
            addr, size, val = e.args
            if E.g.split(addr)[0].op == 'glob': continue
            at = int(E(addr)[lane])
            if OWN <= at < 2 * OWN: continue   # an object of the program itself
            memo[at] = (size, cell(E, val, lane))
        elif e.name in ('memcpy', 'memset'):
            d, sarg, nb = [int(E(x)[lane]) for x in e.args[:3]]
            if OWN <= d < 2 * OWN: continue
            if nb < 0 or nb > 1 << 14: memo['huge'] = (d, sarg, nb); continue
            for k in range(0, nb, elt):
                if e.name == 'memset': memo[d + k] = (elt, sarg & 255)
                else: memo[d + k] = memo.get(sarg + k, (elt, ('mem', sarg + k)))
    return memo


def decide(L, mod, seed, nval, pubs):
    """-> dict(status=held|violated|undecided, rule, detail)"""
    g = Graph()
    rng = np.random.default_rng([seed, int(shash(L.name)) & 0xffffffff])
    n = int(L.opt.get('n', nval))
    env, ok = sample(L.dom, n, rng)
    extra = {'#lane': np.arange(n, dtype=np.int64)}
    res = {'law': L.name, 'about': L.about, 'valuations': 0}
    kinds = [k for k in ('law', 'rej', 'impl') if k + '_' + L.name in pubs]
    if not kinds: raise AnalysisError('law %s has no function' % L.name)
    kind = kinds[0]
    s = summarise(mod, g, kind + '_' + L.name, L.opt)
    res['nodes'] = g.n
    res['functions'] = sorted(s.functions)
    t = summarise(mod, g, 'spec_' + L.name, L.opt) if kind == 'impl' else None
    cap = max(2000, int(1.5e9 / (8 * max(1, g.n))))
    if n > cap:   # bounded memory
        n = cap
        env, ok, extra = {k: v[:n] for k, v in env.items()}, ok[:n], {k: v[:n] for k, v in extra.items()}
    vars = bindvars(L, s.widths, env, n, extra)
    if L.opt.get('mpi_fail'): vars['#mpi_fail'] = rng.integers(0, 1 << 30, n)

    def isstop(k): return k not in (ASSUME, 'loop_bound')

    def runs_on(E, s):
        # loops whose number of iterations the domain bounds: an execution beyond the bound does not end as it should
        if not any(k == 'loop_bound' for _, k in s.stops): return False
        bad = guards(E, s.stops, lambda k: k == 'loop_bound') & ~guards(E, s.stops, lambda k: k != 'loop_bound') & ok & ~untracked(E, s, kind != 'rej')
        res['unbounded'] = int(bad.sum())
        if bad.any() and L.opt.get('ends'):
            witness(E, bad, 'a loop does not end within %s iterations' % L.opt.get('unroll', 6))
            return True
        return False

    def witness(E, bad, what):
        i = int(np.argmax(bad))
        res['status'] = 'violated'
        res['detail'] = what + ' for ' + ', '.join('%s=%s' % (k, env[k][i]) for k, _ in L.dom)
        return i
    if L.opt.get('expired'):
        # only whether anything refers to a local variable or storage that is gone by then
        with np.errstate(**ERR):
            E = None
            for bg, b, how, st, own in s.expired:
                if not (g.isc(bg) and bg.args[0] == 1):
                    E = E or Eval(g, s, n, vars)
                    if not (E(bg) & ok).any(): continue
                fn = [demangled(x) for x in st[::-1]]
                where = next((x for x in fn if 'dlaf::' in x), fn[0])
                res.update(status='violated', valuations=n, detail='%s is %s after its lifetime ended, in %s\n   called by %s' % (
                    'a local variable of ' + demangled(own) if own else 'released storage', how, where[:300], '\n             '.join(x[:200] for x in fn[1:8])))
                return res
        res.update(status='held', rule='lifetime typestate', valuations=n)
        return res
    with np.errstate(**ERR):
        if kind in ('law', 'rej'):
            E = Eval(g, s, n, vars)
            excl = guards(E, s.stops, lambda k: not isstop(k)) | ~ok | untracked(E, s, kind == 'law')
            stop = guards(E, s.stops, isstop)
            thrown = guards(E, s.throws)
            valid = ~excl
            res['valuations'] = int(valid.sum())
            res['loops'] = len(s.loops)
            if runs_on(E, s): return res
            if kind == 'law':
                structural = (s.ret.op == 'const' and s.ret.args[0] == 1 if s.ret is not None else True) and not [1 for gd, k in s.stops if isstop(k)] and not s.throws
                bad = valid & (stop | thrown)
                if bad.any():
                    i = witness(E, bad, 'stops although the arguments are in the domain' if stop[np.argmax(bad)] else 'throws')
                    return res
                try: r = E(s.ret) if s.ret is not None else np.ones(n, dtype=bool)
                except Cycle as ex:
                    witness(E, valid, 'what a process sends depends on what it receives in return (%s)' % ex)
                    return res
                r = r if r.dtype == np.bool_ else (r & 1).astype(bool)
                bad = valid & ~r
                if bad.any():
                    witness(E, bad, 'the law is false')
                    return res
                if structural and not any(k == 'loop_bound' for _, k in s.stops):
                    res.update(status='held', rule='value numbering')
                    return res
            else:
                bad = valid & ~stop
                if bad.any():
                    witness(E, bad, 'is accepted although it must be rejected')
                    return res
            if res['valuations'] < n * 0.002 or res['valuations'] < 50:
                res.update(status='undecided', rule='', detail='only %d valuations satisfy the hypothesis' % res['valuations'])
                return res
            res.update(status='held', rule='identity test')
            return res
        # pairs
        E, F = Eval(g, s, n, vars), Eval(g, t, n, vars)
        excl = guards(E, s.stops, lambda k: not isstop(k)) | guards(F, t.stops, lambda k: not isstop(k)) | ~ok | untracked(E, s) | untracked(F, t)
        se, st = guards(E, s.stops, isstop), guards(F, t.stops, isstop)
        te, tt = guards(E, s.throws), guards(F, t.throws)
        valid = ~excl
        res['valuations'] = int(valid.sum())
        res['loops'] = len(s.loops)
        if runs_on(E, s): return res
        bad = valid & (se != st)
        if bad.any():
            i = int(np.argmax(bad))
            witness(E, bad, 'stops with a report although it must not' if se[i] else 'does not stop with a report although it must')
            return res
        live = valid & ~se
        bad = live & (te != tt)
        if bad.any():
            witness(E, bad, 'different exception behaviour')
            return res
        live2 = live & ~te
        structural = True
        if s.ret is not None and t.ret is not None:
            a, b = flat(s.ret), flat(t.ret)
            for x, y in zip(a, b):
                if x is y: continue
                structural = False
                vx, vy = E(x), F(y)
                neq = bits(vx) != bits(vy)
                if vx.dtype.kind == 'f':
                    neq = neq & ~(np.isnan(vx) & np.isnan(vy))
                    if L.opt.get('ulp'): neq = neq & ~np.isclose(vx, vy, rtol=1e-9, atol=0)
                bad = live2 & neq
                if bad.any():
                    i = witness(E, bad, 'different result')
                    res['detail'] += ': %s instead of %s' % (vx[i], vy[i])
                    return res
        pat = L.opt.get('events', DEFAULT_EVENTS)
        if pat != 'none':
            H1, c1 = trace(E, s, pat)
            H2, c2 = trace(F, t, pat)
            res['calls'] = len(c2)
            bad = live & (H1 != H2)
            if bad.any():
                i = witness(E, bad, 'different external calls')
                res['detail'] += ':\n   found    ' + calls_at(c1, i) + '\n   expected ' + calls_at(c2, i)
                return res
        if L.opt.get('mem'):
            structural = False
            idx = np.nonzero(live2)[0][:int(L.opt.get('memlanes', 400))]
            elt = int(L.opt['mem'])
            for i in idx:
                m1, m2 = final_memory(E, s, i, elt), final_memory(F, t, i, elt)
                if m1 != m2:
                    b = np.zeros(n, dtype=bool); b[i] = True
                    witness(E, b, 'different memory written')
                    d = [k for k in set(m1) | set(m2) if m1.get(k) != m2.get(k)]
                    res['detail'] += ' (%d locations differ)' % len(d)
                    return res
        if res['valuations'] < 50:
            res.update(status='undecided', rule='', detail='only %d valuations satisfy the hypothesis' % res['valuations'])
            return res
        res.update(status='held', rule='value numbering' if structural and not c_any(s, t) else 'identity test')
        return res


def demangled(n):
    import subprocess
    try: return subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
    except OSError: return n


def c_any(s, t):
    return bool(s.stops or t.stops or s.events or t.events)


def calls_at(calls, i):
    out = []
    for e, gd, arrs in calls:
        if gd[i]: out.append('%s(%s)' % (e.name, ', '.join(str(a[i]) for a in arrs)))
    return '; '.join(out[:8]) or '(none)'


def flat(x):
    if isinstance(x, tuple): return [z for y in x for z in flat(y)]
    return [x]


DEFAULT_EVENTS = r'(?!alloc|memcpy|memset|_Zdl|_Zda|free|verif_any|__cxa|_ZNSt|strlen|_ZSt).*'


def drop_uncompilable(txt, errors, name):
    """blanks the laws whose source does not compile any more; -> (text, names of the dropped laws)"""
    lines = txt.split('\n')
    orig = list(lines)
    starts = [i for i, l in enumerate(lines) if re.match(r'[ \t]*//@ law ', l)]
    hit = set()
    pend = False
    for l in errors.splitlines():
        m = re.match(r'([^\s:]+):(\d+):\d+: (error|note|fatal error)', l)
        if not m: continue
        if 'error' in m.group(3): pend = True
        if pend and m.group(1).endswith(name):
            hit.add(int(m.group(2)) - 1)
            pend = False
    gone = []
    for h in sorted(hit):
        st = [s for s in starts if s <= h]
        if not st: return txt, []
        a = st[-1]
        b = min([s for s in starts if s > a], default=len(lines))
        while True:   # laws announced directly one after the other share their text
            nm = orig[a].split('//@ law ')[1].split(' ')[0]
            if nm not in gone: gone.append(nm)
            for k in range(a, b): lines[k] = ''
            if a - 1 not in starts: break
            a -= 1
    return '\n'.join(lines), gone


_job = {}


def _decide(i):
    L = _job['laws'][i]
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _timeout)
        signal.alarm(int(os.environ.get('VERIF_LAW_SECONDS', '400' if _job.get('thorough') else '150')))
        r = decide(L, _job['mod'], _job['seed'], _job['nval'], _job['pubs'])
    except (Unsupported, KeyError, RecursionError, IndexError, AttributeError, TypeError, ValueError) as ex:
        if os.environ.get('VERIF_DEBUG'): raise
        r = {'law': L.name, 'about': L.about, 'status': 'undecided', 'rule': '', 'detail': '%s: %s' % (type(ex).__name__, ex), 'valuations': 0}
    finally:
        signal.alarm(0)
    r['seconds'] = round(time.time() - t0, 2)
    return r


def _timeout(*a):
    raise Unsupported('time limit')


def run_spec(path, seed=1, nval=40000, only=None, log=lambda *a: None, thorough=False):
    """//@ variants: Z=a | Z=b   decides every law once per definition
    SPEC:meet    only the laws about several processes, without looking at the values they compute
    SPEC:expired no value is looked at, only whether anything is used after its lifetime ended"""
    mode, expired = '', ':expired' in path
    path = path.replace(':expired', '')
    if '@' in path: path, only = path.split('@')   # SPEC@REGEX: only the laws with such a name
    if path.endswith(':meet'): path, mode, only = path[:-5], '-DVERIF_MEET', '_(2x2|src|1x3)'
    m = re.search(r'^//@ variants:(.*)$', open(path).read(), re.M)
    if not m: return run_variant(path, seed, nval, only, log, thorough, mode or None, expired)
    out = []
    for v in m.group(1).split(' | '):
        for r in run_variant(path, seed, nval, only, log, thorough, v.strip(), expired):
            r['law'] += '[%s]' % v.strip()
            out.append(r)
    return out


def run_variant(path, seed, nval, only, log, thorough, variant, expired=False):
    import multiprocessing
    srcs, laws, extra, txt = parse_spec(path)
    tmp = tempfile.mkdtemp(prefix='verif_law_')
    out = []
    extra = list(extra) + ['-I' + os.path.dirname(path)]
    for d in (variant or '').split(','):
        if d.startswith('mem='):
            for L in laws:
                if 'mem' in L.opt: L.opt['mem'] = d[4:]
        elif d.startswith('-'): extra.append(d)
        elif d: extra.append('-D' + d)
    try:
        t0 = time.time()
        cur, cpath = txt, path
        for attempt in range(12):
            try:
                ir, pubs = build_ir(cpath, srcs, tmp, extra)
                break
            except AnalysisError as ex:
                new, gone = drop_uncompilable(cur, getattr(ex, 'text', '') or '', os.path.basename(cpath)) if getattr(ex, 'text', '') else (cur, [])
                if not gone or attempt == 11: raise
                log('  does not compile any more: %s\n    %s' % (', '.join(gone), '\n    '.join(str(ex).splitlines()[1:6])))
                for L in [L for L in laws if L.name in gone]:
                    out.append({'law': L.name, 'about': L.about, 'status': 'undecided', 'rule': '', 'detail': 'the law does not compile with the current source', 'valuations': 0})
                laws = [L for L in laws if L.name not in gone]
                cur, cpath = new, os.path.join(tmp, os.path.basename(path))
                open(cpath, 'w').write(new)
        mod = irparse.Module(ir)
        log('  %s%s: %d functions in the value-graph input, %.1f s' % (os.path.basename(path), ' ' + variant if variant else '', len(mod.funcs), time.time() - t0))
        named = set(L.name for L in laws)
        for p in pubs:
            if p.split('_', 1)[1] not in named: raise AnalysisError('%s: function %s without a law line' % (path, p))
        def applies(c): return not c or (re.search(c.lstrip('!'), variant or '') is None) == c.startswith('!')   # if=REGEX: only in these variants
        todo = [L for L in laws if (not only or re.search(only, L.name)) and applies(L.opt.get('if'))]
        for L in todo:
            if thorough and 'unroll' not in L.opt: L.opt['unroll'] = '9'
            if expired: L.opt['expired'] = '1'
        _job.update(thorough=thorough, laws=todo, mod=mod, seed=seed, nval=nval, pubs=pubs)
        jobs = int(os.environ.get('VERIF_JOBS', '6'))
        if jobs > 1 and len(todo) > 1:
            with multiprocessing.get_context('fork').Pool(jobs, maxtasksperchild=4) as pool: rs = list(pool.imap(_decide, range(len(todo)), chunksize=1))
        else: rs = map(_decide, range(len(todo)))
        for r in rs:
            out.append(r)
            log('  %-44s %-9s %-16s %7d valuations %6.2fs %s' % (r['law'], r['status'], r.get('rule', ''), r['valuations'], r['seconds'], r.get('detail', '')))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    only = None
    for a in sys.argv[1:]:
        if a.startswith('-k'): only = a[2:]; continue
        run_spec(a, seed=int(os.environ.get('VERIF_SEED', '1')), only=only, log=lambda *x: print(*x, flush=True))
