"""development: detection rate on mutants and quiet rate on refactorings, per function"""
import sys, os, json, time, random
from multiprocessing import Pool
sys.path.insert(0, os.environ.get('VSRC','/verif'))
sys.setrecursionlimit(20000)
from sa.repo import Repo, REPO
from sa.equiv import *
from tools.transform import mutants, refactors

SPEC = os.environ.get('SPECROOT', '/tmp/specfull')


def job(a):
    kind, rel, qual, label, src = a
    t = time.time()
    try:
        r = Repo(overrides={rel: src})
        sp = Specs(r, SPEC)
        fs, info = check_function(r, sp, rel, qual)
        d = [x for x in fs if x.status == 'DIFF']
        u = [x for x in fs if x.status == 'UNDEC']
        return kind, rel, qual, label, len(d), len(u), repr(d[0]) if d else (repr(u[0]) if u else ''), time.time() - t
    except Exception as e:
        return kind, rel, qual, label, -1, 0, repr(e), time.time() - t


def gen(a):
    kind, rel, qual, src, n = a
    if kind == 'mut':
        m = mutants(src, qual)
        random.Random(5).shuffle(m)
        return [(kind, rel, qual, l, s) for l, s in m[:n]]
    return [(kind, rel, qual, l, s) for l, s in refactors(src, qual)]


def main():
    kinds = sys.argv[1].split(',')
    pats = sys.argv[2:]
    n = int(os.environ.get('N', '12'))
    r = Repo()
    g = []
    for f in r.all_functions():
        if pats and not any(p in f.where for p in pats):
            continue
        for k in kinds:
            g.append((k, f.mod.rel, f.qual, f.mod.src, n))
    with Pool(8) as p:
        jobs = [x for l in p.map(gen, g, chunksize=1) for x in l]
        print(len(jobs), 'jobs', flush=True)
        res = []
        for x in p.imap_unordered(job, jobs, chunksize=1):
            res.append(x)
            if len(res) % 200 == 0: print(len(res), flush=True)
    from collections import Counter, defaultdict
    C = Counter()
    B = defaultdict(Counter)
    for k, rel, q, l, d, u, txt, dt in res:
        st = 'ERR' if d < 0 else ('DIFF' if d else ('UNDEC' if u else 'EQ'))
        C[k, st] += 1
        B[k, l.split('@')[0]][st] += 1
        if st == 'ERR' or (k == 'ref' and st != 'EQ') or (k == 'mut' and st != 'DIFF' and os.environ.get('SHOW')):
            print(k, st, rel, q, l, txt[:420])
        if dt > 30:
            print('SLOW', rel, q, l, dt)
    print(C)
    for k in sorted(B):
        print(k, dict(B[k]))


main()
