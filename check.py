#!/usr/bin/env python3
"""Decide one property of erykoff/redmapper from the source of the tree.

    check.py P05 [--thorough]

Exit 0: the property held on everything analysed.  Exit 1: a VIOLATION line
names it.  Exit 2: the analysis lost an anchor and gives no verdict.
"""
import fnmatch
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def decide(pid, tier, seed):
    from sa.repo import Repo, AnalysisBroken
    from sa import equiv, props, rules
    t0 = time.time()
    p = [x for x in props.P if x['id'] == pid]
    if not p:
        print('no such property', pid)
        return 2
    p = p[0]
    repo = Repo()
    specs = equiv.Specs(repo, os.path.join(HERE, 'specs'))
    res = rules.Result()
    targets = rules.expand(p['funcs'])
    deadline = t0 + (600 if tier == 'quick' else 840)
    analysed, consts, skipped = [], 0, []
    for kind, rel, name in targets:
        if time.time() > deadline:
            skipped.append('%s:%s' % (rel, name))
            continue
        if kind == 'func':
            try:
                fs, info = equiv.check_function(repo, specs, rel, name)
            except RecursionError:
                skipped.append('%s:%s' % (rel, name))
                continue
            analysed.append(info)
            res.add_all(fs, '%s:%s' % (rel, name))
        elif kind == 'const':
            fs = equiv.check_constants(repo, specs, rel, None if name == '*' else [name])
            consts += len(fs)
            res.add_all(fs, '%s:%s' % (rel, name))
        elif kind == 'script':
            fs = equiv.check_script(repo, specs, rel)
            res.add_all(fs, rel + ':script')
            analysed.append({'function': rel + ':script', 'observables': len(fs), 'events': 0, 'inlined': [], 'undecided': 0})
    for r in p['rules']:
        rules.RULES[r](repo, specs, res, p)
    # findings
    known = load_known(pid)
    viol, shown = [], []
    for f in res.violations():
        k = known.get(f['key'])
        if k:
            shown.append(k)
        else:
            viol.append(f)
    n = len(res.items)
    if n < p['min_obl']:
        print('analysis lost its anchors: %d obligations, at least %d expected' % (n, p['min_obl']))
        return 2
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    und = [x for x in res.items if x['status'] == 'UNDEC']
    disch = sum(1 for x in res.items if x['status'] == 'EQ')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2), 'violations': len(viol),
          'coverage': {
              'explanation': 'Static value-flow analysis of the current source of the tree (nothing is executed): for every listed function the returned value, '
                             'final field values, effectful calls with their conditions and loops, raise conditions and parameter defaults are extracted as canonical terms and '
                             'compared with the reviewed reference definition; plus the dedicated rules listed.',
              'functions_analysed': len(analysed), 'constants_compared': consts, 'obligations': n, 'discharged': disch, 'undecided': len(und),
              'events_extracted': sum(a['events'] for a in analysed),
              'rules': res.rules, 'modules_parsed': len(repo.modules),
              'helpers_inlined': sorted(set(h for a in analysed for h in a['inlined']))[:40],
              'undecided_samples': [dict(what=x['label'], where=x['where'], why=x['detail'][:160]) for x in und[:10]],
              'skipped': skipped[:20],
              'samples': [dict(obligation=x['label'], where=x['where'], status=x['status']) for x in res.items[::max(1, n // 12)]][:14],
              'functions': sorted(a['function'] for a in analysed)[:400]},
          'assumptions': ['the reference definitions in specs/ state the intended behaviour (reviewed by hand, see DESIGN.md)',
                          'library functions (numpy, scipy, fitsio, healpy, healsparse) are uninterpreted and deterministic',
                          'obligations listed as undecided are not claimed']}
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    with open(evp, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    print('%s: %d functions, %d constants, %d obligations, %d discharged, %d undecided, %.1f s' % (pid, len(analysed), consts, n, disch, len(und), wall))
    if skipped:
        print('not analysed:', ', '.join(skipped[:10]))
    for k in shown:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in viol:
                fh.write('%s\n  %s (line %s)\n  %s\n' % (f['label'], f['where'], f['line'], f['detail']))
        for f in viol[:8]:
            print('  %s at %s line %s: %s' % (f['label'], f['where'], f['line'], f['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def load_known(pid):
    out = {}
    try:
        with open(os.path.join(HERE, 'known_findings.jsonl')) as fh:
            for line in fh:
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == pid:
                    out[d['key']] = d['what']
    except FileNotFoundError:
        pass
    return out


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the order in which sets are walked is part of the search order: fix it
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = [2]

    def run():
        from sa.repo import AnalysisBroken
        try:
            rc[0] = decide(pid, tier, seed)
        except AnalysisBroken as e:
            print('analysis broken:', e)
        except Exception:
            traceback.print_exc()
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    main()
