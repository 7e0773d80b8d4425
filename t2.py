"""parallel dev driver: t2.py MODULES PATTERN NSEEDS"""
import sys, multiprocessing as mp; sys.setrecursionlimit(20000)
from pyvc import framework as F
F.install_stubs()
import importlib, traceback
for m in sys.argv[1].split(','):
    importlib.import_module('contracts.'+m)
pat = sys.argv[2]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 2
def one(qi):
    c = F.CASES[qi[0]][qi[1]]
    out = []
    try:
        r = F.verify_case(c, float(sys.argv[4]) if len(sys.argv) > 4 else 240)
    except Exception:
        return f'CRASH {c.id}\n' + traceback.format_exc()[-1500:]
    st = 'OK ' if not r.failed and not r.unsupported and r.obligations and r.sat else 'BAD'
    out.append(' '.join(map(str, (st, c.id, len(r.obligations), 'paths', r.paths, 'sat', r.sat, f'{r.secs:.2f}s', 'trunc' if r.truncated else '', 'rule' if r.rule_loops else '', r.norule or ''))))
    for o in r.failed[:4]: out.append(f'    FAIL {o.name} {o.why[:int(__import__("os").environ.get("W","600"))]}')
    for u in r.unsupported[:3]: out.append(f'    UNSUP {u}')
    for s in range(n):
        try:
            x = F.replay_case(c, s)
        except Exception:
            x = ('CRASH', traceback.format_exc()[-1200:])
        if x[0] != 'ok': out.append(f'    replay {s} {str(x[:2])[:900]}')
    return '\n'.join(out)
def w(qi, q):
    q.put(one(qi))
if __name__ == '__main__':
    jobs = [(q, i) for q, cs in F.CASES.items() for i, c in enumerate(cs) if pat in c.id]
    q = mp.Queue(); run = 0; jobs = jobs[::-1]; left = len(jobs)
    while jobs or left:
        while jobs and run < 8:
            mp.Process(target=w, args=(jobs.pop(), q)).start(); run += 1
        print(q.get(), flush=True); run -= 1; left -= 1
