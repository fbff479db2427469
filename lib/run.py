"""run.py <ID> quick|thorough   |   run.py --replay <file>

Decides one property on /repo's current working tree.  Exit 0: held on everything explored.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: a counterexample was found by the solver and reproduced on the real code.
Exit 2: no answer (nothing could be decided)."""
import os
import sys
import json
import time
import shutil
import tempfile
import importlib
import multiprocessing

sys.dont_write_bytecode = True
REPO = os.environ.get('LIPS_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

SCRATCH = tempfile.mkdtemp(prefix='lipsverif_')
os.environ['HOME'] = SCRATCH                 # lips keeps a cache under ~/.cache: keep it inside scratch
os.environ['VERIF_SCRATCH'] = SCRATCH

import warnings                              # noqa: E402
warnings.filterwarnings('ignore')


def load(pid):
    import harness                           # noqa: F401
    import lips
    assert os.path.abspath(lips.__file__).startswith(os.path.abspath(REPO) + os.sep), lips.__file__
    mod = importlib.import_module('checks.' + pid)
    harness.symx.install_builtins()
    return mod


_mod = None
_scens = None
_seed = 1
_deadline = None


def _quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def undecided(name, why):
    import harness
    return {'name': name, 'verdict': 'inconclusive', 'why': {'limits': [why]}, 'obligations': 0, 'discharged': 0, 'paths': 0, 'reachable': 0,
            'trivial': 0, 'functions': [], 'stats': harness.symx.new_stats(), 'wall_s': 0}


def _one(i):
    import harness
    import traceback
    s = _scens[i]
    if time.time() > _deadline:
        return i, undecided(s.name, 'check deadline reached before this scenario')
    runner = getattr(s, 'runner', None) or harness.run_scenario
    try:
        return i, runner(s, _seed, _deadline)
    except BaseException as e:       # noqa
        return i, undecided(s.name, 'harness error: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])


def known_findings(pid):
    out = []
    fn = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def main(pid, tier):
    global _mod, _scens, _seed, _deadline
    t0 = time.time()
    _seed = int(os.environ.get('VERIF_SEED', '1'))
    _mod = load(pid)
    _scens = _mod.scenarios(tier)
    if os.environ.get('VERIF_ONLY'):
        _scens = [s for s in _scens if os.environ['VERIF_ONLY'] in s.name]
    _deadline = t0 + float(os.environ.get('VERIF_BUDGET', getattr(_mod, 'BUDGET', {}).get(tier, 780 if tier == 'quick' else 2400)))
    names = [s.name for s in _scens]
    assert len(set(names)) == len(names), "duplicate scenario names"
    order = sorted(range(len(_scens)), key=lambda i: -getattr(_scens[i], 'weight', 1))
    results = [None] * len(_scens)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    ctxm = multiprocessing.get_context('fork')
    with ctxm.Pool(min(jobs, max(1, len(_scens))), initializer=_quiet, maxtasksperchild=25) as pool:
        it = pool.imap_unordered(_one, order, chunksize=1)
        while True:
            try:
                i, r = it.next(timeout=max(1, _deadline + 40 - time.time()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                pool.terminate()               # a solver call ignored its own time limit
                break
            results[i] = r
            if r['verdict'] == 'violation' and os.environ.get('VERIF_FAILFAST') and not known_findings(pid):
                pool.terminate()
                break
            if os.environ.get('VERIF_SLOW'):
                print('.. %-50s %7.1f s paths %d obligations %d %s' % (r['name'], r['wall_s'], r['paths'], r['obligations'], r['verdict']), flush=True)
    for i, r in enumerate(results):
        if r is None:
            results[i] = undecided(_scens[i].name, 'not finished when the time of the check was over')
    viol = [r for r in results if r['verdict'] == 'violation']
    inc = [r for r in results if r['verdict'] == 'inconclusive']
    held = [r for r in results if r['verdict'] == 'holds']
    known = known_findings(pid)
    new, listed = [], []
    for r in viol:
        k = [d for d in known if d['scenario'] == r['name'] and d.get('match', '') in json.dumps(r['violation'], ensure_ascii=False)]
        (listed if k else new).append((r, k[0] if k else None))
    wall = time.time() - t0
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions']))
    nonconst = [r for r in held if r['obligations'] > 0]
    ev = {
        'property': pid, 'tier': tier, 'seed': _seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(_mod, 'EXPLANATION', '') or
            "Symbolic execution of the imported lips functions over z3 real arithmetic; every assertion is decided by z3 on path condition and its negation.",
            'functions_encoded': funcs,
            'bounds': getattr(_mod, 'BOUNDS', ''),
            'outside_bounds': getattr(_mod, 'OUTSIDE', ''),
            'scenarios': len(results), 'scenarios_holding': len(held), 'scenarios_inconclusive': len(inc),
            'paths': sum(r['paths'] for r in results), 'paths_shown_reachable': sum(r['reachable'] for r in results),
            'obligations': sum(r['obligations'] for r in results), 'discharged_unsat': sum(r['discharged'] for r in results),
            'obligations_closed_by_rewriting_alone': sum(r['trivial'] for r in results),
            'solver_queries': tot.get('queries', 0), 'queries_by_kind': {k: tot.get(k, 0) for k in ('obligation', 'feasibility', 'vacuity')},
            'verdicts': {k: tot.get(k, 0) for k in ('unsat', 'sat', 'unknown')},
            'solver_seconds': round(tot.get('solver_s', 0), 2),
            'inconclusive': [{'scenario': r['name'], 'why': r.get('why')} for r in inc][:10],
            'samples': [{'scenario': r['name'], 'paths': r['paths'], 'obligations': r['obligations'], 'solver_s': round(r['stats']['solver_s'], 3)} for r in (nonconst[:3] + nonconst[-3:])],
            'solver': 'z3 ' + sys.modules['z3'].get_version_string(),
        },
        'assumptions': list(getattr(_mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=str, ensure_ascii=False)
    for r, k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k['what']))
    if new:
        rd = os.path.join(EVID, 'replays')
        os.makedirs(rd, exist_ok=True)
        for n, (r, _) in enumerate(new[:5]):
            path = os.path.join(rd, '%s-%d.json' % (pid, n))
            json.dump({'property': pid, 'tier': tier, 'scenario': r['name'], 'violation': r['violation'], 'seed': _seed}, open(path, 'w'), indent=1, default=str, ensure_ascii=False)
            print("%s: %s" % (r['name'], r['violation'].get('detail')))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    if os.environ.get('VERIF_SLOW'):
        for r in sorted(results, key=lambda r: -r['wall_s'])[:25]:
            print('  %-50s %7.1f s paths %d obligations %d %s' % (r['name'], r['wall_s'], r['paths'], r['obligations'], r['verdict']))
    for r in inc[:10]:
        print("INCONCLUSIVE %s: %s" % (r['name'], json.dumps(r.get('why'), default=str, ensure_ascii=False)[:300]))
    print("%s %s: %d scenarios, %d hold, %d violated (%d listed), %d inconclusive; %d obligations, %d queries, z3 %.1f s, wall %.1f s" % (
        pid, tier, len(results), len(held), len(viol), len(listed), len(inc), ev['coverage']['obligations'], tot.get('queries', 0), tot.get('solver_s', 0), wall))
    if new:
        return 1
    decided = len(held) + len(listed)
    if not results or decided < 0.75 * len(results):
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    import harness
    mod = load(d['property'])
    scen = [s for s in mod.scenarios(d['tier']) if s.name == d['scenario']][0]
    v = d['violation']
    if getattr(scen, 'replayer', None):
        out, detail = scen.replayer(v)
    else:
        from fractions import Fraction
        asg = {k: (Fraction(x[0]), None if x[1] is None else Fraction(x[1])) for k, x in v['assignment'].items()}
        H = harness.ConcH(asg, v['choices'], harness.REAL[v['field']])
        out, detail = harness.run_concrete(scen, H)
    print("replay of %s / %s on the real code: %s %s" % (d['property'], d['scenario'], out, detail))
    return 1 if out in ('violated', 'raised', 'zerodiv') else 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            rc = replay(sys.argv[2])
        else:
            rc = main(sys.argv[1], sys.argv[2])
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
