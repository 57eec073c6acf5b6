import os, sys, json, time, re
from common import *

def known():
    out, p = {}, os.path.join(VERIF, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def main(argv):
    t0 = time.time()
    prop = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        with Work() as w:
            import props
            rep = props.decide(prop, w, tier == 'thorough')
    except ToolError as e:
        print('ERROR: %s' % e, file=sys.stderr); return 2
    if getattr(rep, 'missing', None):
        print('ERROR: anchors not found in the source: %s' % (rep.missing,), file=sys.stderr); return 2
    if not rep.inst and not rep.viol:
        print('ERROR: no instance was analysed', file=sys.stderr); return 2
    kn = known(); fresh = []; old = []; seen = set()
    for p, key, msg in rep.viol:
        if p != prop or key in seen: continue
        seen.add(key)
        (old if (p, key) in kn else fresh).append((key, msg))
    cov = props.coverage(prop, rep)
    cov['violations_found'] = [{'key': k, 'what': m} for k, m in fresh]; cov['known_findings'] = [{'key': k, 'what': m} for k, m in old]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': props.LEVELS.get(prop, 'other'), 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'assumptions': props.ASSUMPTIONS.get(prop, props.ASSUME),
          'violations': len(fresh)}
    ed = os.path.join(VERIF, 'evidence'); os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, prop + '.json'), 'w'), indent=1)
    for k, m in old: print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, m))
    for u in sorted(set(rep.undecided))[:20]: print('UNDECIDED: %s' % u)
    print('%s: %d obligations analysed, %d undecided, %d violations (%d known), %.1f s' % (prop, len(rep.inst) + len(seen), len(set(rep.undecided)), len(fresh) + len(old), len(old), time.time() - t0))
    if fresh:
        rp = os.path.join(ed, prop + '.violations.txt')
        with open(rp, 'w') as f:
            for k, m in fresh: f.write('%s\n    %s\n' % (k, m))
        for k, m in fresh[:20]: print('  %s: %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
