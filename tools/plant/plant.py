#!/usr/bin/env python3
"""Validate planted bugs and store them under /verif/seeded.

usage: plant.py FILE.py [ID...]   FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo, y)]
Each is applied in a scratch copy of /repo, built, tested against the stable list, and its demo run on both trees.
"""
import sys, os, json, subprocess, shutil, importlib.util, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.environ.get('SEEDED','/verif/seeded')
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    spec = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    work = '/tmp/plant'
    os.makedirs(work, exist_ok=True)
    rp = work + '/repo'
    if not os.path.isdir(rp):
        sh(f'cp -a /repo {rp}')
    for b in m.BUGS:
        if want and b['id'] not in want: continue
        sh(f'git -C {rp} fetch -q /repo HEAD && git -C {rp} reset -q --hard FETCH_HEAD')
        bad = None
        for f, old, new in b['edits']:
            p = f'{rp}/src/{f}'
            s = open(p).read()
            if s.count(old) < 1: bad = f'text not found in {f}: {old[:60]!r}'; break
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        if bad: print(b['id'], 'BAD', bad); continue
        diff = sh(f'git -C {rp} diff').stdout
        r = sh('cargo test --offline --no-fail-fast 2>&1', cwd=rp, env={**os.environ, 'CARGO_TARGET_DIR': work + '/target'})
        import re
        res = re.findall(r'test result: .*', r.stdout)
        if r.returncode != 0:
            print(b['id'], 'TESTS FAIL', [l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')][:8]); 
            if 'error' in r.stdout: print(r.stdout[-1500:])
            continue
        d = f'{SEED}/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        if isinstance(b['demo'], dict):
            for n, t in b['demo'].items():
                open(f'{d}/{n}', 'w').write(t)
        else:
            shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
            open(d + '/demo.rs', 'w').write(b['demo'])
            if 'mod y;' in b['demo']: shutil.copy(HERE + '/y.rs', d + '/y.rs')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {d}/demo.sh', cwd=rp, timeout=400)
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=400)
        ok = r0.returncode == 0 and r1.returncode not in (0, 8, 9)
        print(b['id'], 'ok' if ok else 'DEMO', 'patched', r1.returncode, 'clean', r0.returncode, (r1.stdout[-150:] + r1.stderr[-200:]).strip().replace('\n', ' | '), '' if ok else r0.stdout[-1500:] + r0.stderr[-600:])
        sys.stdout.flush()
        if not ok: shutil.rmtree(d)
main()
