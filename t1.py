import sys, time; sys.setrecursionlimit(20000)
from pyvc import framework as F
F.install_stubs()
import importlib
for m in sys.argv[1].split(','):
    importlib.import_module('contracts.'+m)
pat = sys.argv[2] if len(sys.argv)>2 else ''
import traceback
nseeds = int(sys.argv[3]) if len(sys.argv)>3 else 2
for q, cs in F.CASES.items():
    for c in cs:
        if pat not in c.id: continue
        try:
            r = F.verify_case(c)
        except Exception:
            traceback.print_exc(); print('CRASH', c.id); continue
        st = 'OK ' if not r.failed and not r.unsupported and r.obligations and r.sat else 'BAD'
        print(st, c.id, len(r.obligations), 'paths', r.paths, 'sat', r.sat, f'{r.secs:.2f}s', 'trunc' if r.truncated else '', 'rule' if r.rule_loops else '', r.norule or '')
        for o in r.failed[:4]: print('    FAIL', o.name, o.why[:600])
        for u in r.unsupported[:3]: print('    UNSUP', u)
        for s in range(nseeds):
            try:
                x = F.replay_case(c, s)
            except Exception:
                traceback.print_exc(); x='CRASH'
            if x[0] != 'ok': print('    replay', s, x[:2])
for l in F.LEMMAS:
    if pat in l:
        r = F.verify_lemma(l)
        print('LEMMA', l, len(r.obligations), len(r.failed), r.unsupported, r.sat, f'{r.secs:.2f}')
        for o in r.failed[:4]: print('    FAIL', o.name, o.why[:600])
