"""Engine C: type-level witnesses.
A witness file is C++ that is only type-checked.  Each line
    WITNESS(name, "about", <positive control>, <forbidden construct compiles>)
stands for two static assertions: the positive control (the same construct on an object that may be modified) must be well
formed, the forbidden one must not be.  A line
    MUST(name, "about", <must hold>)
is a single static assertion.  The verdict comes from the compiler's diagnostics on the current headers of the repository:
a failed forbidden / must-hold assertion is a violation at the declaration named in `about`; a failed control, or any other error,
leaves the witness undecided."""
import os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'


def run(path, log=print):
    src = open(path).read()
    names = re.findall(r'^\s*(?:WITNESS|MUST)\((\w+),\s*"([^"]*)"', src, re.M)
    flags = re.findall(r'^//@ flags:\s*(.*)$', src, re.M)
    cmd = [CLANG, '-std=c++17', '-w', '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=1', '-I%s/stubs' % VERIF, '-I%s/include' % REPO, '-I%s/src' % REPO,
           '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I%s/witness' % VERIF, '-DDLAF_ASSERT_ENABLE', '-DDLAF_ASSERT_MODERATE_ENABLE', '-DDLAF_ASSERT_HEAVY_ENABLE',
           '-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__', '-DDLAF_WITH_OPENMP'] + ' '.join(flags).split() + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    bad, ctl, other = {}, {}, []
    for l in p.stdout.splitlines():
        m = re.search(r'error: static assertion failed.*?: (WITNESS|CONTROL) (\w+)', l)
        if m:
            (bad if m.group(1) == 'WITNESS' else ctl).setdefault(m.group(2), l)
        elif re.search(r'\berror:', l): other.append(l)
    out = []
    for n, about in names:
        r = {'name': n, 'about': about, 'rule': 'the type-checked program has no such construct (static assertion over the library\'s own types, with a positive control)', 'detail': ''}
        if other: r['status'], r['detail'] = 'undecided', 'witness file does not compile: ' + other[0][:300]
        elif n in ctl: r['status'], r['detail'] = 'undecided', 'positive control no longer well formed: ' + ctl[n][:200]
        elif n in bad: r['status'], r['detail'] = 'violated', bad[n][:300]
        else: r['status'] = 'held'
        out.append(r)
    if p.returncode != 0 and not other and not bad and not ctl: raise RuntimeError('compiler failed: ' + p.stdout[-500:])
    if other: raise RuntimeError('witness file does not compile: ' + '\n'.join(other[:5]))
    log('%s: %d witnesses, %d violated' % (os.path.basename(path), len(out), sum(r['status'] == 'violated' for r in out)))
    return out


if __name__ == '__main__':
    for r in run(os.path.abspath(sys.argv[1])):
        if r['status'] != 'held': print(r)
