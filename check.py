#!/opt/venv/bin/python
"""check.py PROPERTY            decide one property of the code in /repo (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --replay FILE         run a recorded failing input again against the code in /repo"""
import sys, os, resource, json, time, re, hashlib, multiprocessing as mp, traceback, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
from pyvc import framework as F
from pyvc import solve
from pyvc.interp import REPO
from contracts.props import PROPS, MODULES, ASSUME, INTERNAL

KNOWN_FILE = os.path.join(HERE, 'known_findings.txt')


def load():
    F.install_stubs()
    import importlib
    for m in MODULES:
        importlib.import_module('contracts.' + m)
    F.add_history()


def jobs_of(pid):
    p = PROPS[pid]
    out = []
    for q in p['functions']:
        if q not in F.CASES:
            raise SystemExit(f'no cases for {q}')
        only = p.get('cases', {}).get(q)
        for i, c in enumerate(F.CASES[q]):
            if only is None or re.search(only, c.name):
                out.append(('case', q, i))
    for l in p.get('lemmas', ()):
        names = [n for n in F.LEMMAS if n == l or n.startswith(l + ' (')]
        if not names:
            raise SystemExit(f'no lemma {l}')
        out += [('lemma', n, 0) for n in names]
    return out


def ob_rec(o):
    return {'name': o.name, 'ok': o.ok, 'why': o.why[:4000]}


def run_job(job, tier, seed, conn, limit, search):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    kind, name, i = job
    out = {'id': None, 'kind': kind, 'obl': [], 'unsupported': [], 'replays': [], 'mismatch': [], 'sat': 0}
    c = None
    if kind == 'case':
        c = F.CASES[name][i]
        out['id'] = c.id
        out['bounded'] = bool(c.opts.get('bounded'))
        try:
            F.resolve(name)
        except LookupError as ex:
            if '.' not in name.split(':')[1] or name in INTERNAL:
                out['absent'] = str(ex)         # a module-level helper that no longer exists; its callers are verified with whatever replaced it
                out['secs'] = out['verify_s'] = 0
                conn.send(out)
                conn.close()
                return

    def replays(a, n, secs):
        t1 = time.time()
        for s in range(a, n):
            if time.time() - t1 > secs or out['mismatch']:
                break
            sd = seed * 1000 + s
            try:
                x = F.replay_case(c, sd)
            except LookupError as ex:
                break
            except BaseException as ex:
                x = ('skip', f'{type(ex).__name__}: {ex}')
            out['replays'].append((sd, x[0], str(x[1])[:200] if x[0] != 'ok' else x[1]))
            if x[0] == 'mismatch':
                out['mismatch'].append({'case': c.id, 'function': name, 'index': i, 'seed': sd, 'what': x[1], 'input': x[2]})
    n = 0
    if c is not None:
        n = c.opts.get('seeds', 3 if tier == 'quick' else 25)
        if out['bounded']:
            n = max(n, 20 if tier == 'quick' else 200)
        replays(0, n, search)
    out['replay_s'] = round(time.time() - t0, 3)
    t1 = time.time()
    if out['mismatch']:
        limit = min(limit, 20)
    try:
        if kind == 'lemma':
            out['id'] = 'lemma ' + name
            r = F.verify_lemma(name, deadline=limit)
        else:
            r = F.Result(c.id) if out['bounded'] else F.verify_case(c, deadline=limit)
        out.update(obl=[ob_rec(o) for o in r.obligations], unsupported=r.unsupported[:4], sat=r.sat, paths=r.paths, truncated=r.truncated,
                   externals=sorted(map(str, r.externals)), inlined=sorted(map(str, r.inlined)), used=sorted(map(str, r.used)), loops=r.loops, rule_loops=r.rule_loops, norule=r.norule)
        bad = bool(r.failed or r.unsupported)
    except BaseException as ex:
        out['unsupported'] = [f'verifier error {type(ex).__name__}: {ex}']
        out['trace'] = traceback.format_exc()[-2000:]
        bad = True
    out['verify_s'] = round(time.time() - t1, 3)
    out['z3_queries'], out['z3_s'], out['splits'] = solve.STATS.z3_queries, round(solve.STATS.z3_time, 3), solve.STATS.splits
    if bad and c is not None:
        replays(n, max(n, c.opts.get('search', 24 if tier == 'quick' else 80)), search)
    out['secs'] = round(time.time() - t0, 3)
    conn.send(out)
    conn.close()


def schedule(jobs, tier, seed, workers=8):
    ctx = mp.get_context('fork')
    total = 780 if tier == 'quick' else 6600
    start = time.time()
    own = lambda j: 0 if j[0] == 'lemma' else F.CASES[j[1]][j[2]].opts.get('limit', 0)
    pend = sorted(enumerate(jobs), key=lambda kj: -own(kj[1]))      # the longest first
    run, res = {}, [None] * len(jobs)
    while pend or run:
        while pend and len(run) < workers:
            rounds = -(-len(pend) // workers)
            slot = max(20, (total - (time.time() - start)) / rounds)
            limit, search = min(240 if tier == 'quick' else 1500, slot * 0.5), min(80 if tier == 'quick' else 600, slot * 0.2)
            k, j = pend.pop(0)
            limit = max(limit, min(own(j), total - (time.time() - start) - search - 60))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_job, args=(j, tier, seed, b, limit, search))
            p.start()
            b.close()
            run[k] = (p, a, time.time(), j, limit + 2 * search + 40)
        mp.connection.wait([x[1] for x in run.values()], timeout=1)
        for k, (p, a, t, j, cap) in list(run.items()):
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except EOFError:
                    done = 'died'
            elif not p.is_alive():
                done = 'died'
            elif time.time() - t > cap:
                p.kill()
                done = f'time limit {cap:.0f} s'
            if done is not None:
                if isinstance(done, str):
                    jid = 'lemma ' + j[1] if j[0] == 'lemma' else F.CASES[j[1]][j[2]].id
                    done = {'id': jid, 'kind': j[0], 'obl': [], 'unsupported': [f'verifier process: {done}'], 'replays': [], 'mismatch': [], 'sat': 0, 'secs': time.time() - t, 'verify_s': time.time() - t}
                res[k] = done
                p.join(5)
                a.close()
                del run[k]
    return res


def known(pid):
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r'KNOWN property=(\S+) case=(.+?) :: (.+?) :: (.+)$', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[pid]
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        load()
        jobs = jobs_of(pid)
        res = schedule(jobs, tier, seed)
    except SystemExit:
        raise
    except BaseException as ex:
        # the code under test cannot be imported or a contract cannot be built from it
        res = [{'id': f'load {pid}', 'kind': 'load', 'obl': [], 'unsupported': [f'{type(ex).__name__}: {ex}'], 'replays': [], 'sat': 0, 'trace': traceback.format_exc()[-3000:],
                'mismatch': [{'case': 'import of the package', 'function': None, 'index': 0, 'seed': 0, 'what': f'{type(ex).__name__}: {ex}', 'input': 'import CADMium'}] if isinstance(ex, (ImportError, SyntaxError, AttributeError, NameError, ValueError, TypeError)) and 'CADMium' in traceback.format_exc() else [], 'secs': 0, 'verify_s': 0}]
    kn = known(pid)
    violations, findings = [], []
    nob = nok = 0
    for r in res:
        if r.get('absent'):
            if any(x['kind'] == 'case' and not x.get('absent') for x in res):
                continue
            r['unsupported'] = ['missing function: ' + r['absent']]
        nob += len(r['obl'])
        nok += sum(o['ok'] for o in r['obl'])
        failed = [o for o in r['obl'] if not o['ok']]
        if r.get('bounded') and not any(x[1] == 'ok' for x in r['replays']) and not r['mismatch']:
            r['unsupported'] = ['bounded check explored nothing: ' + (r['replays'][0][2] if r['replays'] else '')]
        if r['kind'] != 'load' and not r.get('bounded') and not r['unsupported'] and not failed and not (r['obl'] and r['sat']):
            r['unsupported'] = ['vacuous: no obligation, or the preconditions are unsatisfiable']
        if not failed and not r['unsupported'] and not r['mismatch']:
            continue
        # recorded findings: this case, this failing obligation or observation
        rest_f, rest_m, rest_u = failed, r['mismatch'], r['unsupported']
        for cid, what, text in kn:
            if cid != r['id']:
                continue
            a = [o for o in rest_f if what in o['name'] or what in o['why']]
            b = [m for m in rest_m if what in m['what']]
            c = [u for u in rest_u if what in u]
            if a or b or c:
                findings.append(f'{r["id"]}: {text}')
            rest_f = [o for o in rest_f if o not in a]
            rest_m = [m for m in rest_m if m not in b]
            rest_u = [u for u in rest_u if u not in c]
        if not rest_f and not rest_m and not rest_u:
            continue
        rec = {'property': pid, 'case': r['id'], 'failed_obligations': rest_f[:12], 'undecided': rest_u, 'failing_input': rest_m[:1], 'replays_tried': r['replays'], 'trace': r.get('trace')}
        path = os.path.join(rdir, f'{pid}_{hashlib.sha1(r["id"].encode()).hexdigest()[:10]}.json')
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1, default=str)
        violations.append((path, bool(rest_m), r['id'], (rest_m and rest_m[0]['what']) or (rest_f and rest_f[0]['name'] + ' -- ' + rest_f[0]['why'][:300]) or rest_u[0]))
    for f in sorted(set(findings)):
        print(f'KNOWN-FINDING: property={pid} {f}')
    # violations with a failing input first
    violations.sort(key=lambda v: not v[1])
    for path, conc, cid, what in violations:
        print(f'{cid}: {what}')
        print(f'VIOLATION property={pid} replay={path}' + ('' if conc else ' no-failing-input-found'))
    und = [r for r in res if r['unsupported']]
    quals = sorted({F_q(r['id']) for r in res if r['kind'] == 'case'})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'),
        'coverage': {
            'obligations': nob, 'discharged': nok,
            'checker_cmd': f'/opt/venv/bin/python check.py {pid}',
            'trusted_base': ['pyvc (the VC generator and ring normaliser in /verif/pyvc)', 'z3 (Python bindings of python3-vt)', 'models of numpy/scipy in /verif/pyvc/npmodel.py (compared with the real libraries by the replays)'],
            'functions_under_contract': quals,
            'cases': [{'case': r['id'], 'obligations': len(r['obl']), 'discharged': sum(o['ok'] for o in r['obl']), 'paths': r.get('paths', 0), 'paths_cut_by_the_loop_bound': r.get('truncated', 0),
                       'satisfiable_paths': r['sat'], 'seconds': r['verify_s'], 'replays_agreeing': sum(1 for x in r['replays'] if x[1] == 'ok'), 'replays_skipped': sum(1 for x in r['replays'] if x[1] == 'skip')} for r in res],
            'back_ends': {'z3_queries': sum(r.get('z3_queries', 0) for r in res), 'z3_seconds': round(sum(r.get('z3_s', 0) for r in res), 2),
                          'case_splits': sum(r.get('splits', 0) for r in res), 'verifier_seconds': round(sum(r['verify_s'] for r in res), 2),
                          'ring_normaliser': 'every obligation is reduced by the built-in polynomial/sum normaliser; z3 decides the index and branch conditions'},
            'callee_contracts_used': sorted({u for r in res for u in r.get('used', ())}),
            'inlined_functions': sorted({u for r in res for u in r.get('inlined', ())}),
            'library_functions_assumed': sorted({u for r in res for u in r.get('externals', ())}),
            'replays_against_the_real_code': sum(1 for r in res for x in r['replays'] if x[1] == 'ok'),
            'replays_skipped': [f'{r["id"]}: {x[2]}' for r in res for x in r['replays'] if x[1] == 'skip'][:8],
            'functions_no_longer_present': sorted({r['absent'] for r in res if r.get('absent')}),
            'while_loops_proved_by_invariant': sorted(r['id'] for r in res if r.get('rule_loops') and not r.get('norule')),
            'while_loops_unrolled_only': sorted(f'{r["id"]}: {r["norule"]}' for r in res if r.get('norule')),
            'undecided_cases': [r['id'] for r in und],
            'bounded': spec.get('bounded', []) + [f'{r["id"]}: bounded stand-in, contract compared with the real function on {sum(1 for x in r["replays"] if x[1] == "ok")} sampled inputs, nothing proved' for r in res if r.get('bounded')],
            'source_sha1': repo_hash(),
        },
        'assumptions': ASSUME + spec.get('assume', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f'{pid}: {nok}/{nob} obligations discharged in {len(res)} cases, {ev["coverage"]["replays_against_the_real_code"]} replays, {ev["wall_s"]} s, {len(violations)} violations')
    return 1 if violations else 0


def F_q(cid):
    return cid.split('[')[0]


def repo_hash():
    h = hashlib.sha1()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'CADMium'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


def replay(path):
    load()
    rec = json.load(open(path))
    if not rec['failing_input']:
        print('no failing input recorded; failed obligations:')
        for o in rec['failed_obligations']:
            print('  ', o['name'], '--', o['why'][:500])
        for u in rec['undecided']:
            print('  undecided:', u)
        return 1
    m = rec['failing_input'][0]
    if m['function'] is None:
        print('the package cannot be loaded:', m['what'])
        return 1
    c = F.CASES[m['function']][m['index']]
    x = F.replay_case(c, m['seed'])
    print(c.id, 'seed', m['seed'], '->', x[:2])
    print(json.dumps(m['input'], default=str))
    return 1 if x[0] == 'mismatch' else 0


if __name__ == '__main__':
    import multiprocessing.connection
    sys.setrecursionlimit(20000)
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
