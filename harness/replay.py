"""Run the Go harness of a property against the real code of /repo.

The in-package tests of t/ enter through an overlay; the repository's own test files are blanked in it (those of
one package do not compile), so only exported behaviour and a few stable unexported names matter."""
import concurrent.futures
import glob
import json
import os
import re
import subprocess

# property -> packages with a harness of that property
PKGS = {
    'mkrlwe': ['C01', 'C02', 'C05', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C16', 'C17', 'C18', 'C19'],
    'mkckks': ['C01', 'C02', 'C03', 'C05', 'C07', 'C08', 'C09', 'C14', 'C15', 'C18', 'C19'],
    'mkbfv': ['C01', 'C02', 'C04', 'C06', 'C07', 'C08', 'C11', 'C13', 'C16', 'C18', 'C19'],
    'cnn': ['C20'],
}


def overlay(here, repo, work):
    rep = {os.path.join(repo, 'vh', 'vh.go'): os.path.join(here, 'harness', 'go', 'vh', 'vh.go')}
    for pkg in PKGS:
        for f in glob.glob(os.path.join(repo, pkg, '*_test.go')):
            rep[f] = ''
        for f in glob.glob(os.path.join(here, 'harness', 'go', 't', 'vh_%s*_test.go' % pkg)):
            rep[os.path.join(repo, pkg, os.path.basename(f))] = f
    path = os.path.join(work, 'overlay.json')
    json.dump({'Replace': rep}, open(path, 'w'))
    return path


def one(pkg, pid, repo, env, ov, seed, budget, left):
    cmd = ['go', 'test', '-overlay', ov, '-run', 'TestVH_%s$' % pid, '-count=1', '-v', '-vet=off', '-timeout', '%ds' % int(left), './' + pkg, '-vh.seed', str(seed), '-vh.budget', str(budget)]
    try:
        r = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True, timeout=left + 20, errors='replace')
        return pkg, r.stdout + r.stderr, cmd
    except subprocess.TimeoutExpired as e:
        return pkg, 'timeout\n' + str(e.stdout), cmd


def run(pid, here, repo, work, env, reason, quick, left):
    out = {'cases': 0, 'failures': [], 'samples': [], 'output': ''}
    ov = overlay(here, repo, work)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VERIF_HARNESS', 0)) or ((12 if not reason else 60) if quick else 240)
    pkgs = [p for p in PKGS if pid in PKGS[p] and glob.glob(os.path.join(here, 'harness', 'go', 't', 'vh_%s*_test.go' % p))]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for pkg, txt, cmd in ex.map(lambda p: one(p, pid, repo, env, ov, seed, budget, min(left, budget * 3 + 120)), pkgs):
            done = False
            for ln in txt.split('\n'):
                f = ln.split('\t')
                if f[0] == 'VH-FAIL' and len(f) >= 4:
                    out['failures'].append({'key': pkg + '/' + f[1], 'input': f[2], 'observed': f[3], 'replay': ' '.join(cmd)})
                elif f[0] == 'VH-SAMPLE' and len(f) >= 3:
                    out['samples'].append({'package': pkg, 'case': f[1], 'input': f[2]})
                elif f[0] == 'VH-DONE':
                    out['cases'] += int(f[1])
                    done = True
            out['output'] += txt[-4000:]
            if not done:
                # a crash of the code under test that the harness could not catch (runtime.throw, exhausted memory or
                # time) is a failure; a harness that does not build against the current tree decides nothing
                m = re.search(r'^(fatal error: .*|panic: .*)$', txt, re.M)
                if m and 'build failed' not in txt:
                    out['failures'].append({'key': pkg + '/crash', 'input': 'test run', 'observed': m.group(1), 'replay': ' '.join(cmd)})
                out.setdefault('notes', []).append('%s: no result' % pkg)
    return out
