#!/opt/veriftools/pyvenv/bin/python
"""Decide one property of /repo's current tree: check.py <property id>

1. extract every function of /repo (and the inlinable ones of its dependency) from the current sources;
2. discharge every contract tagged with the property, and every contract those proofs rely on;
3. run the property's bounded stand-ins (functions outside the prover's reach) and, when an obligation
   failed, search the real code for a concrete failing input.
Exit 0 / 1 only."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = '/repo'
GOBIN = '/opt/veriftools/go1.27.3/bin'
BUDGET = float(os.environ.get('VERIF_BUDGET', '800'))
T0 = time.time()


def goenv(work):
    e = dict(os.environ)
    e['PATH'] = GOBIN + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['HOME'] = '/root'
    e['GOTOOLCHAIN'] = 'local'
    e['GOPROXY'] = 'off'
    e['GOCACHE'] = '/root/.cache/go-build'
    e['GOMODCACHE'] = '/root/go/pkg/mod'
    shutil.copy(os.path.join(REPO, 'go.mod'), os.path.join(work, 'r.mod'))
    shutil.copy(os.path.join(HERE, 'gomod', 'go.sum'), os.path.join(work, 'r.sum'))
    e['GOFLAGS'] = '-mod=mod -modfile=' + os.path.join(work, 'r.mod')
    return e


def extract(work, env):
    e2 = dict(env)
    e2['GOFLAGS'] = ''
    vx = os.path.join(work, 'vx')
    r = subprocess.run(['go', 'build', '-o', vx, '.'], cwd=os.path.join(HERE, 'extract'), env=e2, capture_output=True, text=True)
    if r.returncode:
        return None, 'cannot build the extractor: ' + r.stderr
    out = os.path.join(work, 'd.json')
    r = subprocess.run([vx, REPO, out, 'mk-lattigo/mkrlwe', 'mk-lattigo/mkckks', 'mk-lattigo/mkbfv', 'mk-lattigo/cnn'], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        return None, 'cannot extract the sources: ' + r.stderr
    return out, ''


_dump = None
TRUSTED = set()


def job(a):
    name, mi = a
    import allspecs
    import verify
    import smt
    sp = verify.SPECS[name]
    smt.stats.queries = smt.stats.cached = 0
    smt.stats.time = 0.0
    r = verify.verify(_dump, sp, sp.modes[mi], verify.SPECS)
    return {'name': name, 'mode': sp.modes[mi].get('name', ''), 'props': sp.props, 'obls': r.obls, 'error': r.error, 'unsupported': r.unsupported,
            'time': r.time, 'inlined': sorted(r.inlined), 'specs': sorted(r.specs), 'lattigo': sorted(__import__('lattigo').USED), 'queries': smt.stats.queries,
            'cached': smt.stats.cached, 'z3': smt.stats.time, 'panics': r.panics}


def prove(pid, dumpfile):
    """verify the property's contracts and everything they rely on"""
    global _dump
    import allspecs
    import verify
    from exec import Dump
    sys.setrecursionlimit(100000)
    _dump = Dump(dumpfile)
    want = [n for n, s in verify.SPECS.items() if pid in s.props and not s.trusted]
    TRUSTED.clear()
    TRUSTED.update(n for n, s in verify.SPECS.items() if pid in s.props and s.trusted)
    done, res = set(), []
    ctx = mp.get_context('fork')
    while want:
        jobs = [(n, i) for n in want for i in range(len(verify.SPECS[n].modes))]
        done.update(want)
        with ctx.Pool(min(8, len(jobs))) as pool:
            hs = [(j, pool.apply_async(job, (j,))) for j in jobs]
            out = []
            for j, h in hs:
                left = max(5, BUDGET * 0.6 - (time.time() - T0))
                try:
                    out.append(h.get(left))
                except mp.TimeoutError:
                    out.append({'name': j[0], 'mode': str(j[1]), 'props': verify.SPECS[j[0]].props, 'obls': [], 'error': None, 'unsupported': 'out of time', 'time': left,
                                'inlined': [], 'specs': [], 'lattigo': [], 'queries': 0, 'cached': 0, 'z3': 0, 'panics': 0})
                except Exception as e:
                    out.append({'name': j[0], 'mode': str(j[1]), 'props': verify.SPECS[j[0]].props, 'obls': [], 'error': None, 'unsupported': 'engine: %r' % e, 'time': 0,
                                'inlined': [], 'specs': [], 'lattigo': [], 'queries': 0, 'cached': 0, 'z3': 0, 'panics': 0})
            pool.terminate()
        res += out
        used = set(s for r in out for s in r['specs'] if s not in done)
        TRUSTED.update(n for n in used if verify.SPECS[n].trusted)
        want = sorted(used - TRUSTED)
    return res


def harness(pid, work, env, reason, quick):
    """run the property's Go harness; returns (cases, failures, samples, output)"""
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    import replay
    return replay.run(pid, HERE, REPO, work, env, reason, quick, max(60, BUDGET - (time.time() - T0)))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='verif-')
    code = 1
    try:
        code = decide(pid, tier, seed, work)
    except SystemExit as e:
        code = e.code
    except BaseException:
        traceback.print_exc()
        code = report(pid, tier, seed, [], None, 'internal error of the check: ' + traceback.format_exc(), fatal=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(pid, tier, seed, work):
    env = goenv(work)
    dumpfile, err = extract(work, env)
    if dumpfile is None:
        return report(pid, tier, seed, [], None, err, fatal=True)
    res = prove(pid, dumpfile)
    own = [r for r in res if pid in r['props']]
    failed = [r for r in own if r['error'] or any(o[1] is False for o in r['obls'])]
    unsup = [r for r in own if r['unsupported'] or any(o[1] is None for o in r['obls'])]
    dep = [r for r in res if pid not in r['props'] and (r['error'] or r['unsupported'] or any(not o[1] for o in r['obls']))]
    reason = 'failed' if failed else 'unsupported' if unsup or dep else ''
    h = None
    try:
        h = harness(pid, work, env, reason, tier == 'quick')
    except Exception:
        h = {'cases': 0, 'failures': [], 'samples': [], 'output': traceback.format_exc(), 'error': True}
    return report(pid, tier, seed, res, h, None, failed=failed, unsup=unsup, dep=dep)


def report(pid, tier, seed, res, h, err, fatal=False, failed=(), unsup=(), dep=()):
    import verify
    import allspecs
    obls = [(r['name'] + (' [%s]' % r['mode'] if r['mode'] else ''), o) for r in res for o in r['obls']]
    nob = len(obls)
    ok = sum(1 for n, o in obls if o[1])
    fns = sorted(set(r['name'] for r in res))
    own = sorted(set(r['name'] for r in res if pid in r['props']))
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    fails = list(h['failures']) if h else []
    listed, new = [], []
    for x in fails:
        k = next((f for f in known.get('findings', []) if f['property'] == pid and f['match'] == x.get('key')), None)
        (listed if k else new).append((x, k))
    rc = 0
    lines = []
    seenk = set()
    for f in known.get('findings', []):
        if f['property'] == pid:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, pid + '.txt')
    if os.path.exists(path):
        os.remove(path)
    body = []
    for r in list(failed) + list(unsup) + list(dep):
        if r['error']:
            body.append('%s %s: %s' % (r['name'], r['mode'], r['error']))
        if r['unsupported']:
            body.append('%s %s: outside the prover: %s' % (r['name'], r['mode'], r['unsupported']))
        for o in r['obls']:
            if not o[1]:
                body.append('%s %s: obligation "%s" %s: %s' % (r['name'], r['mode'], o[0], 'failed' if o[1] is False else 'undecided', o[2]))
    if new or failed or fatal:
        rc = 1
        with open(path, 'w') as fo:
            fo.write('property %s\n' % pid)
            if err:
                fo.write(err + '\n')
            for b in body:
                fo.write(b + '\n\n')
            for x, _ in new:
                fo.write('FAILING INPUT (replay: %s)\n%s\n' % (x.get('replay', ''), json.dumps(x, indent=1)))
            if h:
                fo.write('\n--- harness output\n' + h['output'][-6000:])
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if new else ' no-failing-input-found'))
        if not new:
            for b in body[:5]:
                lines.append('  ' + b[:600])
        else:
            for x, _ in new[:3]:
                lines.append('  failing input: ' + json.dumps(x)[:600])
    else:
        for b in body:
            lines.append('note: ' + b[:400])
    lat = sorted(set(x for r in res for x in r['lattigo']))
    und = sorted(set(r['name'] for r in list(unsup) + list(dep)))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL.get(pid, 'proof'), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if rc else 0,
        'assumptions': ASSUME + EXTRA.get(pid, []) + ['the contract of %s is assumed, not proved (%s)' % (n, verify.SPECS[n].trusted) for n in sorted(TRUSTED)],
        'coverage': {
            'obligations': nob, 'discharged': ok,
            'checker_cmd': '/verif/check.py ' + pid,
            'trusted_base': ['the extractor /verif/extract (go/types AST to JSON) and the symbolic executor /verif/engine', 'z3 (python bindings) for every logical side condition',
                             'assumed contracts of the dependency: ' + ', '.join(lat)],
            'functions_under_contract': own, 'contracts_relied_on': [f for f in fns if f not in own],
            'inlined_bodies': sorted(set(x for r in res for x in r['inlined'])),
            'modes': sum(1 for r in res), 'possible_panics_examined': sum(r['panics'] for r in res),
            'solver': {'back_end': 'z3', 'queries': sum(r['queries'] for r in res), 'cached': sum(r['cached'] for r in res), 'z3_seconds': round(sum(r['z3'] for r in res), 2),
                       'total_proof_seconds': round(sum(r['time'] for r in res), 2)},
            'undecided_functions': und,
            'bounded': {'what': BOUNDED.get(pid, 'none'), 'cases': h['cases'] if h else 0, 'samples': (h['samples'] if h else [])[:5]},
            'explanation': 'obligations = comparisons of every cell changed by the body with the contract at a generic location, result comparisons, excluded panics; '
                           'discharged by normalisation in the polynomial/boolean term algebra plus z3; bounded cases are executions of the real code and are not counted as proved',
            'samples': [{'function': n, 'obligation': o[0]} for n, o in obls[:5]],
            'evaluations': (h['cases'] if h else 0) + nob, 'distinct_nontrivial': ok, 'rule': 'one per obligation of a contract',
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d/%d obligations discharged, %d bounded cases, %.1fs' % (pid, len(fns), ok, nob, h['cases'] if h else 0, time.time() - T0))
    for x in lines:
        print(x)
    return rc


LEVEL = {}
FLOOR = ['the floating-point sum of the quotients y_i/q_i has the integer part of the real sum (basis extension and digits; the replay harness compares with exact lifts)']
EXTRA = {'C12': FLOOR, 'C13': FLOOR, 'C20': ['a ciphertext is identified with the slot vector it encrypts (engine/abstract.py): that the evaluator computes sums, products and rotations of slots follows from its detailed contracts, discharged in the same run, by the decryption identity of the scheme up to noise, which is not mechanised']}
BOUNDED = {}
ASSUME = [
    'machine integers are treated as mathematical integers; lazily reduced residues are assumed to stay below 2^64 (stated per kernel in DESIGN.md)',
    'the assumed contracts of lattigo v2.3.0 listed in trusted_base',
    'pre-state objects reached through distinct access paths are distinct, except in the aliasing modes verified separately',
    'goroutines are absent from the code under contract',
]
try:
    exec(open(os.path.join(HERE, 'claims.py')).read())
except FileNotFoundError:
    pass

if __name__ == '__main__':
    main()
