"""Facts about the whole library for rules: its translation units, compiled by the front end against the model of the runtime."""
import os, re, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '6'))
CXX = ['-std=c++17', '-w', '-I' + VERIF + '/stubs/seq', '-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/src',
       '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-DDLAF_ASSERT_ENABLE', '-DDLAF_ASSERT_MODERATE_ENABLE', '-DDLAF_ASSERT_HEAVY_ENABLE',
       '-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__', '-DDLAF_WITH_OPENMP', '-DDLAF_WITH_SCALAPACK', '-DOMPI_SKIP_MPICXX', '-include', VERIF + '/spec/prelude.h']


def headers():
    inc = os.path.join(REPO, 'include')
    return sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith('.h'))


def sources():
    """the sources of the library that are built without a GPU"""
    src = os.path.join(REPO, 'src')
    return sorted(os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(src) for f in fs
                  if f.endswith('.cpp') and f != 'gpu.cpp' and '/gpu/' not in d + '/' and '/cusolver/' not in d + '/')


def each(f, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex: return list(ex.map(f, items))


def umbrella(tmp):
    """one translation unit with every header"""
    p = os.path.join(tmp, 'headers.cpp')
    hs = headers()
    first = [h for x in ('matrix/allocation_types.h', 'matrix/allocation_io.h') for h in hs if h.endswith(x)]   # not self-contained
    hs = first + [h for h in hs if h not in first]
    open(p, 'w').write(''.join('#include <%s>\n' % h for h in hs))
    return p, hs


def astx(path, tmp, extra=()):
    """records of one translation unit"""
    out = os.path.join(tmp, path.replace('/', '_') + '.jsonl')
    tool = os.path.join(VERIF, 'build', 'astx')
    if not os.path.exists(tool): subprocess.run(['bash', os.path.join(VERIF, 'tools', 'setup.sh')], check=True)
    p = subprocess.run([tool, out, REPO, path, '--'] + CXX + list(extra) + ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18'], capture_output=True, text=True)
    rs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    return rs, p.stderr


def diagnostics(path, flags):
    """(file, line, column, kind, text) of the front end for one translation unit"""
    p = subprocess.run(['clang++', '-fsyntax-only'] + [f for f in CXX if f != '-w'] + flags + [path], capture_output=True, text=True)
    return parse(p.stderr), p.returncode


def parse(txt):
    r = []
    for l in txt.splitlines():
        m = re.match(r'([^\s:][^:]*):(\d+):(\d+): (warning|error|fatal error|note): (.*)', l)
        if m: r.append((m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5)))
    return r


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_facts_')
        return self.d

    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)


def walk(n, up=()):
    """(node, ancestors) of a body tree"""
    if not isinstance(n, dict): return
    yield n, up
    for k, v in n.items():
        if isinstance(v, dict): yield from walk(v, up + (n,))
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict): yield from walk(x, up + (n,))
