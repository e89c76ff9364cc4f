#!/usr/bin/env python3
"""Check driver: run.py <property> [quick|thorough].  Builds the harness for the property from the current /repo tree, explores,
writes evidence/<property>.json, prints VIOLATION lines; exit 0 held, 1 violated, 2 machinery problem."""
import sys, os, json, time, subprocess, shutil
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import vb
from concurrent.futures import ThreadPoolExecutor
import props

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    d = vb.B + '/' + prop
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    ctx = props.Ctx(prop, tier, d, ThreadPoolExecutor(8))
    viol, results = [], []
    known = load_known(prop)
    for step in props.STEPS[prop]:
        try: r = step(ctx)
        except vb.BuildError as e:
            print('BUILD FAILED for %s:\n%s' % (prop, e)); sys.stdout.flush(); sys.exit(2)
        if r is None: continue
        results.append(r); viol += r.get('violations', [])
        print('%-28s %s' % (r['name'], r.get('summary', ''))); sys.stdout.flush()
        if viol and not ctx.keep_going: break
    st = sum(r.get('states', 0) for r in results); tr = sum(r.get('transitions', 0) for r in results); ex = sum(r.get('executions', 0) for r in results)
    samples = []
    for r in results: samples += r.get('samples', [])[:6]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 1),
          'coverage': {'states': st, 'transitions': tr, 'traces_validated_against_impl': ex, 'samples': samples[:24],
                       'evaluations': ex, 'distinct_nontrivial': sum(r.get('distinct', 0) for r in results),
                       'rule': 'every execution runs the compiled library code itself; states = nodes of the explored execution tree (engine A/B) or distinct (object state, operation, operands) points (engine C); distinct = different observed outcomes',
                       'steps': [{k: v for k, v in r.items() if k not in ('samples', 'violations')} for r in results]}}
    new = [v for v in viol if not any(k in (v.get('scenario', '') + ' ' + v['msg']) for k in known)]
    kn = [v for v in viol if v not in new]
    ev['coverage']['violations'] = len(new)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for v in kn: print('KNOWN-FINDING: property=%s %s' % (prop, v['msg']))
    for v in new[:5]:
        print('  %s: %s' % (v.get('scenario', ''), v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    sys.stdout.flush()
    if new: sys.exit(1)
    shutil.rmtree(d, ignore_errors=True)
    print('%s held: %d executions, %d states, %d transitions, %.1fs' % (prop, ex, st, tr, time.time() - t0))
    sys.exit(0)

def load_known(prop):
    """known-findings.txt: 'KNOWN property=<id> match=<text that identifies the failing scenario/message>'; 'fixed:' lines suppress nothing"""
    r = []
    try:
        for l in open(V + '/known-findings.txt'):
            if l.startswith('KNOWN property=%s match=' % prop): r.append(l.split('match=', 1)[1].strip())
    except OSError: pass
    return r
main()
