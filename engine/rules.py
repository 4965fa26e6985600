"""Rules over the library as the front end sees it (engine B). Every rule returns what it analysed and which construct violates it."""
import os, re, subprocess
import facts
from facts import REPO, VERIF


class Result:
    def __init__(self):
        self.obligations, self.violations, self.undecided, self.broken = [], [], [], []

    def ok(self, name, about, rule): self.obligations.append({'name': name, 'about': about, 'rule': rule, 'status': 'held'})

    def bad(self, name, about, rule, text):
        self.obligations.append({'name': name, 'about': about, 'rule': rule, 'status': 'violated'})
        self.violations.append((name, '%s\n  anchor: %s\n  %s' % (name, about, text)))

    def open(self, name, about, rule, text):
        self.obligations.append({'name': name, 'about': about, 'rule': rule, 'status': 'undecided'})
        self.undecided.append('%s: %s' % (name, text))


def rel(f):
    f = os.path.normpath(f)
    return os.path.relpath(f, REPO) if f.startswith(REPO) else f


# ------------------------------------------------------------------ P42
def eti(tier, log):
    """every `extern template` of a header has its definition in a source that the build lists"""
    R, rule = Result(), 'explicit instantiation declarations have definitions'
    listed = open(os.path.join(REPO, 'src', 'CMakeLists.txt')).read()
    listed = re.sub(r'#[^\n]*', '', listed)
    with facts.Tmp() as tmp:
        u, hs = facts.umbrella(tmp)
        srcs = [s for s in facts.sources()]
        rs = facts.each(lambda p: facts.astx(p if p.startswith('/') else os.path.join(REPO, p), tmp), [u] + srcs)
    if not [r for r in rs[0][0] if r['kind'] == 'instantiation']: R.broken.append('the headers do not compile: ' + rs[0][1][:500]); return R
    key = lambda r: (r['q'], r['args'], tuple(r.get('ps', ())) if r.get('fn') else None)
    declared = {}
    for r in rs[0][0]:
        if r['kind'] == 'instantiation' and r['q'].startswith('dlaf'): declared[key(r)] = r
    defined, unlisted = {}, {}
    for s, (recs, err) in zip(srcs, rs[1:]):
        name = os.path.relpath(s, 'src')
        inbuild = re.search(r'(^|[\s"(;:/])' + re.escape(name) + r'($|[\s")>;])', listed, re.M) is not None
        if ' error: ' in err:
            R.open('source ' + s, s, rule, 'does not compile against the model of the runtime: ' + next((l for l in err.splitlines() if ' error: ' in l), ''))
            continue
        for r in recs:
            if r['kind'] == 'instantiation' and r['def'] and r['q'].startswith('dlaf'): (defined if inbuild else unlisted).setdefault(key(r), s)
    broken_sources = bool(R.undecided)
    for k, r in sorted(declared.items(), key=lambda x: str(x[0])):
        name = '%s<%s>%s' % (k[0], k[1], ' (%s)' % ', '.join(k[2]) if k[2] is not None else '')
        name = name if len(name) < 200 else name[:200] + '...'
        about = '%s:%s' % (r['f'], r['l'])
        if k in defined: R.ok(name, about, rule)
        elif k in unlisted: R.bad(name, about, rule, 'its definition is in %s, which src/CMakeLists.txt does not list' % unlisted[k])
        elif broken_sources: R.open(name, about, rule, 'no definition among the sources that compile')
        else: R.bad(name, about, rule, 'declared extern, but no source of the library instantiates it')
    # all element types, or the two real ones
    rule = 'explicit instantiations cover the element types'
    groups = {}
    EL = ('float', 'double', 'std::complex<float>', 'std::complex<double>')
    for k, r in declared.items():
        a = k[1].split(', ')
        for i, x in enumerate(a):
            b = x.replace('const ', '')
            if b in EL:
                groups.setdefault((k[0], ', '.join(a[:i] + ['const T' if x != b else 'T'] + a[i + 1:]), k[2] and tuple(y.replace(b + ' ', 'T ').replace(b + ',', 'T,').replace(b + '>', 'T>') for y in k[2])), []).append((b, r))
                break
    for g, l in sorted(groups.items(), key=str):
        if g[2] is not None: continue   # functions: each stands for itself
        have = set(b for b, _ in l)
        name = 'types of %s<%s>' % g[:2]
        if have == set(EL) or have == set(EL[:2]): R.ok(name, l[0][1]['f'], rule)
        else: R.bad(name, l[0][1]['f'], rule, 'declared for %s only' % ', '.join(sorted(have)))
    return R


# ------------------------------------------------------------------ P30
def discarded(tier, log):
    """no expression that stands for deferred work is evaluated and dropped (types marked [[nodiscard]], all instantiations)"""
    R, rule = Result(), 'deferred work has to be used'
    W = ['-DVERIF_MUST_USE', '-Wno-everything', '-Wunused-result', '-Wunused-variable', '-Wunused-value', '-ferror-limit=0']
    ctl, rc = facts.diagnostics(os.path.join(VERIF, 'witness', 'discard.cpp'), W)
    want = [i + 1 for i, l in enumerate(open(os.path.join(VERIF, 'witness', 'discard.cpp'))) if '// dropped' in l]
    got = set(l for f, l, c, k, t in ctl if k == 'warning' and f.endswith('discard.cpp'))
    if rc or set(want) != got: R.broken.append('the positive controls are not as expected: %s instead of %s' % (sorted(got), want)); return R
    srcs = [s for s in facts.sources()]
    hit = {}
    for s, (d, rc) in zip(srcs, facts.each(lambda s: facts.diagnostics(os.path.join(REPO, s), W), srcs)):
        if rc: R.open(s, s, rule, 'does not compile against the model of the runtime: %s' % next((t for _, _, _, k, t in d if 'error' in k), '')); continue
        n = 0
        for f, l, c, k, t in d:
            if k != 'warning' or not os.path.normpath(f).startswith(REPO): continue
            src = open(f).read().split('\n')[l - 1].strip()
            hit.setdefault('%s: %s' % (rel(f), src[:120]), ('%s:%d:%d' % (rel(f), l, c), t, s))
            n += 1
        if not n: R.ok(s, 'every instantiation of ' + s, rule)
    for k, (at, t, s) in sorted(hit.items()): R.bad(k, at, rule, '%s (instantiated by %s)' % (t, s))
    # variables of a deduced type: the compiler forgets the attribute in templates
    rule = 'a variable that holds deferred work is used'
    with facts.Tmp() as tmp:
        u, hs = facts.umbrella(tmp)
        rs = facts.each(lambda p: facts.astx(p if p.startswith('/') else os.path.join(REPO, p), tmp), [u] + srcs)
    if ' error: ' in rs[0][1]: R.broken.append('the headers do not compile: ' + rs[0][1][:500]); return R
    seen = set()
    for recs, _ in rs:
        for r in recs:
            k0 = (r['f'], r['l'], r['q'])
            if r['kind'] != 'function' or not r.get('body') or k0 in seen: continue
            seen.add(k0)
            refs = set(x.get('d') for x, _ in facts.walk(r['body']) if x.get('k') == 'Ref')
            for v, _ in facts.walk(r['body']):
                if v.get('k') != 'Var' or not v.get('n'): continue
                names = set(callee(x)[1] for x, _ in facts.walk(outer(v)) if x.get('k') in ('Call', 'OpCall'))
                if not names & SENDERS or names & {'sync_wait', 'start_detached', 'ensure_started'}: continue
                at = '%s:%s' % (r['f'], v['l'])
                if v['d'] in refs: R.ok('%s in %s' % (v['n'], r['q']), at, rule)
                else: R.bad('%s in %s' % (v['n'], r['q']), at, rule, 'the work that %s stands for is never started' % v['n'])
    return R


SENDERS = {'then', 'transform', 'let_value', 'bulk', 'when_all', 'whenAllLift', 'when_all_vector', 'split', 'drop_value', 'drop_operation_state', 'transformMPI', 'read', 'readwrite', 'continues_on', 'schedule'}


def outer(v):
    """a tree without what is inside of lambdas"""
    if isinstance(v, dict): return {} if v.get('k') == 'Lambda' else {k: outer(x) for k, x in v.items()}
    if isinstance(v, list): return [outer(x) for x in v]
    return v


# ------------------------------------------------------------------ P33
PLAIN = {'IterableRange2D': 'dlaf::common::IterableRange2D<dlaf::SizeType, dlaf::matrix::LocalTile_TAG>'}   # a move of these is a copy


def moved(tier, log):
    """no use of a moved-from variable on any path of any instantiation (flow-sensitive, clang-tidy bugprone-use-after-move)"""
    R, rule = Result(), 'no use after move'
    run = lambda s: subprocess.run(['clang-tidy', '-checks=-*,bugprone-use-after-move', '--header-filter=.*', '--quiet', s, '--'] + facts.CXX, capture_output=True, text=True).stdout
    ctl = facts.parse(run(os.path.join(VERIF, 'witness', 'moved.cpp')))
    want = [i + 1 for i, l in enumerate(open(os.path.join(VERIF, 'witness', 'moved.cpp'))) if '// moved' in l]
    got = set(l for f, l, c, k, t in ctl if k == 'warning' and f.endswith('moved.cpp'))
    if set(want) != got: R.broken.append('the positive controls are not as expected: %s instead of %s' % (sorted(got), want)); return R
    srcs = facts.sources()
    open_ = {}
    outs = facts.each(lambda s: run(os.path.join(REPO, s)), srcs)
    hit = {}
    for s, o in zip(srcs, outs):
        d = facts.parse(o)
        if [1 for _, _, _, k, _ in d if 'error' in k]: R.open(s, s, rule, 'does not compile against the model of the runtime'); continue
        n = 0
        for i, (f, l, c, k, t) in enumerate(d):
            m = re.match(r"'(.*)' used after it was (?:moved|forwarded)", t)
            if k != 'warning' or not m or not os.path.normpath(f).startswith(REPO): continue
            if copied(f, l, m.group(1)): continue
            notes = []
            for x in d[i + 1:]:
                if x[3] != 'note': break
                notes.append(x)
            if again(f, l, m.group(1), notes):
                open_['%s: %s' % (rel(f), m.group(1))] = ('%s:%d:%d' % (rel(f), l, c), 'it is assigned again on some of the paths from the move to the use; whether on all that are taken is not decided')
                continue
            hit.setdefault('%s: %s' % (rel(f), m.group(1)), ('%s:%d:%d' % (rel(f), l, c), t, s))
            n += 1
        if not n: R.ok(s, 'every instantiation of ' + s, rule)
    for k, (at, t, s) in sorted(hit.items()): R.bad(k, at, rule, '%s (instantiated by %s)' % (t, s))
    for k, (at, t) in sorted(open_.items()): R.open(k, at, rule, t)
    return R


def again(f, use, var, notes):
    """the variable is assigned on some path between the move and the use"""
    mv = next((x for x in notes if re.search('(move|forward) occurred here', x[4])), None)
    if not mv: return False
    loop = any('later loop iteration' in x[4] for x in notes)
    lines = open(f).read().split('\n')
    return any(re.search(r'(?<![\w.>])%s\s*=(?!=)' % re.escape(var), l) for i, l in enumerate(lines, 1)
               if (mv[1] < i < use or (loop and abs(i - mv[1]) < 400 and not re.match(r'\s*(auto|const|ex::\w+)\b', l))))


def copied(f, line, var):
    """the moved variable is an index range: moving it leaves it as it is (witness/moved.cpp checks that the type is trivially copyable)"""
    src = open(f).read().split('\n')[:line]
    for l in reversed(src):
        if re.search(r'\bauto\s+%s\s*=\s*(\w+::)*iterate_range2d\(' % re.escape(var), l): return True
    return False


# ------------------------------------------------------------------ P26
LOCAL_MPI = re.compile(r'MPI_(Type_\w+|Init\w*|Finalize\w*|Initialized|Finalized|Query_thread|Comm_(rank|size|dup|split|free|compare|set_errhandler|c2f|f2c|get_\w+|set_\w+)|Error_string|Wtime|Op_\w+|Abort|Status_\w+|Get_\w+|Test\w*|Wait\w*|Request_\w+|Group_\w+)$')


def mpi_layer(tier, log):
    """outside of the communication layer, MPI communication is only started with a communicator that the enclosing callable was handed"""
    R, rule = Result(), 'communication uses the communicator that ordered access handed out'
    with facts.Tmp() as tmp:
        u, hs = facts.umbrella(tmp)
        srcs = facts.sources()
        rs = facts.each(lambda p: facts.astx(p if p.startswith('/') else os.path.join(REPO, p), tmp), [u] + srcs)
    for s, (recs, err) in zip(['headers'] + srcs, rs):
        if ' error: ' in err and s == 'headers': R.broken.append('the headers do not compile: ' + err[:500]); return R
    seen = set()
    for recs, _ in rs:
        for r in recs:
            if r['kind'] != 'function' or not r.get('body'): continue
            k0 = (r['f'], r['l'], r['q'])
            if k0 in seen: continue
            seen.add(k0)
            f = r['f']
            layer = '/communication/' in f or f.startswith(('src/c_api/', 'include/dlaf_c/'))
            for n, up in facts.walk(r['body']):
                if n.get('k') not in ('Call', 'Ref'): continue
                q = n.get('q') or n.get('n') or ''
                if n['k'] != 'Call': continue
                m = re.search(r'(?:^|::)(P?MPI_\w+)$', q) or (re.search(r'(?:^|::)(P?MPI_\w+)$', (n.get('c') or [{}])[0].get('n', '') or ''))
                if not m: continue
                name = m.group(1)
                at = '%s:%s' % (f, n.get('l'))
                key = '%s in %s' % (name, r['q'])
                if layer: R.ok(key, at, 'inside the communication layer'); continue
                if LOCAL_MPI.match(name): R.ok(key, at, 'no communication'); continue
                # parameters of this function and of the enclosing lambdas, whose type is a communicator
                ps = set()
                for p in r['params']: ps.add((p['d'], p['t']))
                for a in up:
                    if a.get('k') == 'Lambda':
                        for p in a.get('params', []): ps.add((p['d'], p['t']))
                # declarations that are communicators, and what is made from them
                ok = set(d for d, t in ps if 'omm' in t or re.match(r'(const )?(auto|[A-Z]\w*|type-parameter-\S+)( ?&&?)?$', t))
                change = True
                while change:
                    change = False
                    for x, _ in facts.walk(r['body']):
                        if x.get('k') == 'Var' and x.get('d') not in ok and any(y.get('k') == 'Ref' and y.get('d') in ok for y, _ in facts.walk(x)):
                            ok.add(x['d'])
                            change = True
                bad = None
                uses = False
                for a in (n.get('c') or [])[1:]:
                    for x, _ in facts.walk(a):
                        if x.get('k') == 'Ref' and x.get('d') in ok: uses = True
                        if x.get('k') == 'Ref' and re.search(r'ompi_mpi_comm|MPI_COMM_', x.get('n', '') + (x.get('m') or '')): bad = 'a communicator of MPI itself'
                if bad: R.bad(key, at, rule, '%s is used for %s' % (bad, name))
                elif uses: R.ok(key, at, rule)
                else: R.bad(key, at, rule, '%s is called outside of the communication layer with a communicator that was not handed to the enclosing callable' % name)
    return R


# ------------------------------------------------------------------ P31
DEFERRED = {'then', 'transform', 'transformLift', 'transformDetach', 'transform_detach', 'transformMPI', 'let_value', 'let_error', 'bulk', 'withTemporaryTile', 'with_temporary_tile', 'async', 'just', 'for_loop_async'}
SUSPEND = {'arrive_and_wait', 'sync_wait', 'acquire', 'yield', 'yield_while', 'sleep_for', 'waitLocalTiles', 'wait_local_tiles', 'wait'}


def callee(n):
    """(qualified name, last component) of what a call calls"""
    c = (n.get('c') or [{}])[0]
    q = n.get('q') or ''
    if not q or '::' not in q: q = c.get('q') or q or c.get('n') or ''
    return q, re.split(r'::', re.sub(r'<.*', '', q))[-1]


def single_threaded(tier, log):
    """every call of a BLAS or LAPACK routine happens while a SingleThreadedBlasScope is alive, and no task suspends itself meanwhile"""
    R, rule, rule2 = Result(), 'BLAS and LAPACK are called inside of a single-threaded scope', 'a task does not suspend itself inside of a single-threaded scope'
    with facts.Tmp() as tmp:
        u, hs = facts.umbrella(tmp)
        rs = facts.each(lambda p: facts.astx(p if p.startswith('/') else os.path.join(REPO, p), tmp), [u] + facts.sources())
    if ' error: ' in rs[0][1]: R.broken.append('the headers do not compile: ' + rs[0][1][:500]); return R
    fns, seen = [], set()
    for recs, _ in rs:
        for r in recs:
            if r['kind'] != 'function' or not r.get('body'): continue
            k0 = (r['f'], r['l'], r['q'])
            if k0 not in seen: seen.add(k0); fns.append(r)
    calls = []      # (unit, what, callee's last name or declaration, scoped, at)   unit: a function's name, or the declaration of a lambda
    scoped_fns = set()

    def visit(n, unit, scoped, up):
        if not isinstance(n, dict): return
        k = n.get('k')
        if k == 'Lambda':
            par = next((a for a in reversed(up) if a.get('k') in ('Call', 'OpCall', 'Var', 'Decl', 'MCall')), {})
            var = next((a for a in reversed(up) if a.get('k') == 'Var'), None)
            if par.get('k') == 'Var': unit, scoped = ('lambda', var['d']), False
            elif par.get('k') == 'Call' and callee(par)[1] in DEFERRED or par.get('k') == 'OpCall': unit, scoped = ('task', id(n)), False
            for x in n.get('c', []): visit(x, unit, scoped, up + (n,))
            return
        if k in ('Call', 'OpCall', 'MCall'):
            q, last = callee(n)
            calls.append((unit, q, last, scoped, n))
        if k == 'Ref' and n.get('dk') in ('Var',): calls.append((unit, '', ('ref', n.get('d')), scoped, n))
        for f, v in n.items():
            for x in (v if isinstance(v, list) else [v]):
                if not isinstance(x, dict): continue
                visit(x, unit, scoped, up + (n,))
                if k == 'Block' and x.get('k') == 'Decl' and any('SingleThreadedBlasScope' in (y.get('t') or '') for y in x.get('c', []) if isinstance(y, dict)): scoped = True

    where = {}
    for r in fns:
        a = len(calls)
        visit(r['body'], ('function', r['n']), False, ())
        for i in range(a, len(calls)): where[i] = r
    byname, byref = {}, {}
    for i, c in enumerate(calls):
        if isinstance(c[2], tuple): byref.setdefault((where[i]['f'], c[2][1]), []).append(i)
        else: byname.setdefault(c[2], []).append(i)

    def covered(i, depth):
        unit, q, last, scoped, n = calls[i]
        if scoped: return True
        if depth == 0 or unit[0] == 'task': return False
        if unit[0] == 'lambda': at = byref.get((where[i]['f'], unit[1]), [])
        else: at = [j for j in byname.get(unit[1], []) if not (calls[j][0] == unit)]
        return bool(at) and all(covered(j, depth - 1) for j in at)

    for i, c in enumerate(calls):
        if isinstance(c[2], tuple): continue
        unit, q, last, scoped, n = c
        r = where[i]
        at = '%s:%s' % (r['f'], n.get('l'))
        if re.match(r'(::)?(blas|lapack)::\w+$', q) and last.islower() and last not in ('to_c_string', 'from_string') and not r['q'].startswith(('lapack::', 'blas::')):
            key = '%s in %s' % (q, r['q'])
            if covered(i, 3): R.ok(key, at, rule)
            else: R.bad(key, at, rule, '%s is called without a SingleThreadedBlasScope' % q)
        if last in SUSPEND:
            key = '%s in %s' % (last, r['q'])
            if scoped: R.bad(key, at, rule2, 'the task can continue on another worker here, while a SingleThreadedBlasScope is alive: the setting of this worker is not restored')
            else: R.ok(key, at, rule2)
    return R


# ------------------------------------------------------------------ P39
def info(tier, log):
    """the status of every LAPACK routine that returns one is compared with zero, returned or handed on"""
    R, rule = Result(), 'the status of a LAPACK routine is used'
    with facts.Tmp() as tmp:
        u, hs = facts.umbrella(tmp)
        rs = facts.each(lambda p: facts.astx(p if p.startswith('/') else os.path.join(REPO, p), tmp), [u] + facts.sources())
    if ' error: ' in rs[0][1]: R.broken.append('the headers do not compile: ' + rs[0][1][:500]); return R
    seen = set()
    for recs, _ in rs:
        for r in recs:
            k0 = (r['f'], r['l'], r['q'])
            if r['kind'] != 'function' or not r.get('body') or k0 in seen: continue
            seen.add(k0)
            tested = set()
            for x, up in facts.walk(r['body']):
                if x.get('k') == 'Ref' and x.get('dk') == 'Var' and consumed(x, up): tested.add(x['d'])
            for x, up in facts.walk(r['body']):
                if x.get('k') != 'Call': continue
                q, last = callee(x)
                if not re.match(r'lapack::\w+$', q) or last not in FALLIBLE: continue
                key, at = '%s in %s' % (q, r['q']), '%s:%s' % (r['f'], x.get('l'))
                var = next((a for a in reversed(up) if a.get('k') == 'Var'), None)
                near = next((a for a in reversed(up) if a.get('k') not in ('Cast', 'Paren', 'InitList', 'Expr', 'Cleanups')), {})
                if near.get('k') in ('Block', 'For', 'If', 'While', 'Else', 'Case') and not is_condition(near, x, up): R.bad(key, at, rule, 'the status that %s returns is dropped' % q)
                elif near.get('k') == 'Var' and near['d'] not in tested: R.bad(key, at, rule, 'the status of %s is stored in %s, which is neither compared with 0 nor returned' % (q, near['n']))
                else: R.ok(key, at, rule)
    return R


FALLIBLE = {'potrf', 'trtri', 'hegst', 'sygst', 'stedc', 'laed4', 'lauum', 'steqr', 'sterf', 'stemr', 'stebz', 'heevd', 'heev', 'syevd', 'getrf', 'getrs', 'geqrf', 'trtrs', 'potri', 'pbtrf', 'hegv', 'hegvd'}


def consumed(x, up):
    """a use of a variable that decides something: a comparison for (in)equality, a return, an argument of a call of the library"""
    for a in reversed(up):
        k = a.get('k')
        if k in ('Bin', 'Binary') and a.get('op') in ('==', '!='): return True
        if k == 'Return': return True
        if k in ('Call', 'OpCall'):
            q, last = callee(a)
            return not re.search(r'assert|silenceUnused|concat|make_tuple|forward', q)
        if k in ('Block', 'Lambda', 'Var'): return False
    return False


def is_condition(near, x, up): return False


# ------------------------------------------------------------------ P32
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
STD_EFFECT = {'push_back', 'emplace_back', 'pop_back', 'push_front', 'pop_front', 'erase', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'reset', 'release', 'clear', 'resize', 'reserve', 'assign',
              'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'store', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak', 'test_and_set', 'lock', 'unlock', 'try_lock', 'acquire', 'try_acquire',
              'arrive', 'arrive_and_wait', 'wait', 'push', 'pop', 'swap', 'iter_swap', 'sort', 'fill', 'copy', 'transform', 'generate', 'iota', 'memcpy', 'memset', 'call_once', 'start_detached', 'sync_wait', 'advance'}
SHIFT = {'<<', '>>'}


def assertions(tier, log):
    """what an assertion evaluates (condition and message) changes nothing: builds with and without assertions compute the same"""
    R, rule = Result(), 'the arguments of an assertion have no effect'
    with facts.Tmp() as tmp:
        u, hs = facts.umbrella(tmp)
        rs = facts.each(lambda p: facts.astx(p if p.startswith('/') else os.path.join(REPO, p), tmp, ['-DVERIF_ASSERT_ARGS']), [u] + facts.sources())
    if ' error: ' in rs[0][1]: R.broken.append('the headers do not compile: ' + rs[0][1][:500]); return R
    fns, seen = [], set()
    for recs, _ in rs:
        for r in recs:
            if r['kind'] != 'function' or not r.get('body'): continue
            k0 = (r['f'], r['l'], r['q'])
            if k0 not in seen: seen.add(k0); fns.append(r)
    byname = {}
    for r in fns: byname.setdefault(r['n'], []).append(r)
    memo = {}

    def root(x, owned):
        """does the assignment to x stay inside of the objects in `owned`?"""
        while isinstance(x, dict):
            k, c = x.get('k'), x.get('c') or []
            if k == 'Ref': return x.get('d') in owned
            if k == 'Member' and (x.get('implicit') or not c): return False
            if k in ('Member', 'Cast', 'ArraySubscriptExpr', 'OpCall', 'Un', 'Bin') and c: x = c[0]; continue
            return False
        return False

    def effect(tree, owned, depth, busy=()):
        """the first effect of an expression or body on anything but the objects in `owned`"""
        for x, _ in facts.walk(tree):
            k = x.get('k')
            if k == 'Var' and not x.get('static') and not re.search(r'[&*]\s*$', x.get('t') or ''): owned = owned | {x.get('d')}
            if k == 'Lambda': owned = owned | {p['d'] for p in x.get('params', []) if not re.search(r'[&*]\s*$', p['t'])}
        for x, _ in facts.walk(tree):
            k, c = x.get('k'), x.get('c') or []
            if k in ('Bin', 'OpCall', 'CompoundAssignOperator') and x.get('op') in ASSIGN and not root(c[0] if c else None, owned): return 'an assignment', x
            if k in ('Un', 'OpCall') and (x.get('op') or '').replace('post', '') in ('++', '--') and not root(c[0] if c else None, owned): return 'an increment or decrement', x
            if k in ('New', 'Delete', 'CXXThrowExpr'): return 'new, delete or throw', x
            if k == 'Call':
                q, last = callee(x)
                obj = (c[0].get('c') or [None])[0] if c and c[0].get('k') == 'Member' else None
                own = obj is not None and root(obj, owned)
                if last in ('checked',) and 'verif' in q: continue
                if re.match(r'P?MPI_', last) and not re.match(r'P?MPI_(Comm_(size|rank|compare|group|test_inter)|Initialized|Finalized|Is_thread_main|Query_thread|Get_\w+|Type_(size|get_\w+)|Group_(size|rank)|Wtime|Error_\w+)', last): return 'a call of ' + last, x
                known = [r for r in byname.get(last, ()) if not q or '::' not in q or r['q'] == q or x.get('q') is None]
                if last in STD_EFFECT and not known and not own:
                    return 'a call of ' + last, x
                if known and depth < 4 and last not in busy and not own:
                    es = [of(r, depth + 1, busy + (last,)) for r in known]
                    if all(es): return 'a call of %s (%s)' % (last, es[0]), x
        return None

    def of(r, depth, busy):
        key = (r['f'], r['l'], r['q'])
        if key not in memo:
            memo[key] = None
            ps = {p['d'] for p in r['params'] if not re.search(r'[&*]\s*$', p['t'])}
            e = None if r.get('ctor') or r.get('dtor') else effect(r['body'], ps, depth, busy)
            memo[key] = '%s at %s:%s' % (e[0], r['f'], e[1].get('l')) if e else None
        return memo[key]

    n = 0
    for r in fns:
        for x, _ in facts.walk({'k': 'Block', 'c': [r['body']] + [i.get('e') for i in r.get('inits', [])]}):
            if x.get('k') != 'Call' or callee(x)[1] != 'checked' or 'verif' not in callee(x)[0]: continue
            at = '%s:%s' % (r['f'], x.get('l'))
            e = None
            for a in x['c'][1:]: e = e or effect(a, frozenset(), 0)
            key = 'assertion in %s' % r['q']
            n += 1
            if e: R.bad(key, at, rule, 'the argument of the assertion contains %s' % e[0])
            else: R.ok(key, at, rule)
    if n < 100: R.broken.append('only %d assertions found' % n)
    return R


RULES = {'assertions': assertions, 'eti': eti, 'discarded': discarded, 'moved': moved, 'mpi_layer': mpi_layer, 'single_threaded': single_threaded, 'info': info}


def run(name, tier, log):
    r = RULES[name](tier, log)
    log('  rule %s: %d obligations, %d violated, %d undecided' % (name, len(r.obligations), len(r.violations), len(r.undecided)))
    if len(r.undecided) * 3 > len(r.obligations): r.broken.append('%s: %d of %d undecided' % (name, len(r.undecided), len(r.obligations)))
    return r


if __name__ == '__main__':
    import sys
    for n in sys.argv[1:]:
        r = run(n, 'quick', print)
        for k, t in r.violations: print('VIOLATED', t)
        for u in r.undecided: print('undecided', u)
        for b in r.broken: print('broken', b)
        by = {}
        for o in r.obligations: by[o['rule'], o['status']] = by.get((o['rule'], o['status']), 0) + 1
        print(by)
