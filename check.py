#!/usr/bin/env python3
"""Decides one property on /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: holds (listed known findings are printed); 1: VIOLATION; 2: the analysis itself is broken.
"""
import argparse, hashlib, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = False

def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> :: text
                h, _, txt = l[len('finding: '):].partition(' :: ')
                kv = dict(x.split('=', 1) for x in h.split(' ', 1))
                out.setdefault(kv['property'], {})[kv['key'].strip()] = txt
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    import registry
    spec = registry.PROPS[a.prop]
    mod = importlib.import_module('props.' + spec['module'])
    import program, world
    P = program.load(spec.get('config', 'release'))
    ctx = Ctx(P, tier)
    res = getattr(mod, spec.get('func', 'run'))(ctx)
    kf = known().get(a.prop, {})
    new = []; seen = set(); hit = []
    for v in res['violations']:
        if v['key'] in seen: continue
        seen.add(v['key'])
        if v['key'] in kf: hit.append(v)
        else: new.append(v)
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    ob = res['obligations']
    cov = {'obligations': ob, 'discharged': ob - len(seen) if ob >= len(seen) else 0,
           'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (a.prop, tier),
           'explanation': spec['rule'],
           'rule': spec['rule'], 'known_findings': [v['key'] for v in hit]}
    cov.update(res.get('coverage', {}))
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(evd, a.prop + '.json'), 'w'), indent=1, default=str)
    if ob < spec.get('min', 1):
        print('analysis broken: only %d obligations for %s, expected at least %d' % (ob, a.prop, spec.get('min', 1)))
        return 2
    for v in hit:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, v['key'] + ' :: ' + kf[v['key']]))
    for i, v in enumerate(new):
        p = os.path.join('evidence', '%s.violation%d.txt' % (a.prop, i + 1))
        with open(os.path.join(HERE, p), 'w') as f:
            f.write('property: %s\nrule: %s\nat: %s\nkey: %s\n%s\n' % (a.prop, spec['rule'], v['loc'], v['key'], v['msg']))
        print('%s: %s' % (v['loc'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
    print('%s: %d obligations, %d violations, %d known findings, %.1fs' % (a.prop, ob, len(new), len(hit), time.time() - t0))
    return 1 if new else 0

class Ctx:
    def __init__(self, P, tier):
        self.P = P; self.tier = tier; self._W = None
    @property
    def W(self):
        if self._W is None:
            import world
            self._W = world.World(self.P)
        return self._W

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        print('analysis broken')
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
