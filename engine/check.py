"""Check driver:  check.py PROPERTY [quick|thorough]
exit 0  the property held on everything analysed (known findings are printed)
exit 1  'VIOLATION property=<id> replay=<path>'
exit 3  the analysis is broken (source does not compile, anchor vanished, too many undecided obligations)"""
import sys, os, json, time, traceback, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p): return out
    for l in open(p):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m: out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    from registry import PROPS
    cfg = PROPS[pid]
    obligations, violations, undecided, notes = [], [], [], []
    broken = []
    log = lambda *a: print(*a, flush=True)
    log('%s (%s): %s' % (pid, tier, cfg['technique']))
    try:
        if cfg.get('laws'):
            import laws
            nval = 40000 if tier == 'quick' else 400000
            for sp in cfg['laws']:
                rs = laws.run_spec(os.path.join(VERIF, 'spec', sp), seed, nval, log=log, thorough=tier == 'thorough')
                nu = 0
                for r in rs:
                    o = {'kind': 'law', 'name': sp + ':' + r['law'], 'about': r['about'], 'rule': r.get('rule', ''), 'status': r['status'],
                         'valuations': r['valuations'], 'functions': len(r.get('functions', []))}
                    obligations.append(o)
                    if r['status'] == 'violated':
                        violations.append((r['law'], '%s\n  anchor: %s\n  %s' % (sp + ':' + r['law'], r['about'], r.get('detail', ''))))
                    elif r['status'] != 'held':
                        undecided.append('%s:%s: %s' % (sp, r['law'], r.get('detail', ''))); nu += 1
                if nu * 3 > len(rs): broken.append('%s: %d of %d laws undecided' % (sp, nu, len(rs)))
        if cfg.get('rules'):
            import rules
            for name in cfg['rules']:
                rr = rules.run(name, tier, log)
                obligations += [dict(o, kind='rule') for o in rr.obligations]
                violations += rr.violations
                undecided += rr.undecided
                broken += rr.broken
        if cfg.get('witness'):
            import witness
            for w in cfg['witness']:
                for r in witness.run(os.path.join(VERIF, 'witness', w), log):
                    obligations.append({'kind': 'type witness', 'name': w + ':' + r['name'], 'about': r['about'], 'rule': r['rule'], 'status': r['status']})
                    if r['status'] == 'violated': violations.append((r['name'], '%s:%s\n  anchor: %s\n  %s' % (w, r['name'], r['about'], r['detail'])))
                    if r['status'] == 'undecided': undecided.append('%s:%s: %s' % (w, r['name'], r['detail']))
    except Exception as ex:
        broken.append('%s: %s' % (type(ex).__name__, ex))
        traceback.print_exc()
    known = [(k, t) for p, k, t in known_findings() if p == pid]
    new, seen = [], []
    for key, txt in violations:
        hit = [k for k in known if k[0] == key]
        if hit: seen.append((hit[0], txt))
        else: new.append((key, txt))
    for (k, t), txt in seen: log('KNOWN-FINDING: property=%s %s %s' % (pid, k, t))
    if not obligations: broken.append('nothing was analysed')
    st = {}
    for o in obligations: st[o['status']] = st.get(o['status'], 0) + 1
    ru = {}
    for o in obligations: ru[o.get('rule', '')] = ru.get(o.get('rule', ''), 0) + 1
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'other'), 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'coverage': {'explanation': cfg['note'], 'technique': cfg['technique'], 'obligations_analysed': len(obligations), 'by_status': st, 'by_rule': ru,
                       'undecided': undecided, 'known_findings': [k for (k, t), _ in seen], 'obligation_list': obligations[:600]},
          'assumptions': cfg.get('assumptions', [])}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for u in undecided: log('  undecided: ' + u)
    log('%s: %d obligations (%s), %.1f s' % (pid, len(obligations), ', '.join('%d %s' % (v, k) for k, v in sorted(st.items())), time.time() - t0))
    if new:
        path = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as f:
            for k, t in new: f.write('[%s] %s\n\n' % (k, t))
        for k, t in new: log('[%s] %s' % (k, t))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if broken:
        for b in broken: log('BROKEN: ' + b)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
