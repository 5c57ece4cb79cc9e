#!/usr/bin/env python3
"""usage: mkseed.py FILE...: each FILE defines name, prop, needs, breaks, edits=[(path, old, new)], demo (python source).
Builds the change in a scratch copy, runs the stable tests, and the demonstration with and without it; stores seeded/<name>/ when all is as it should be."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
V = '/verif'


def sh(cmd, cwd):
    env = dict(os.environ, PATH='/usr/local/bin:/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
               CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str))
    return r.returncode, r.stdout.decode('utf-8', 'replace')


for fn in sys.argv[1:]:
    s = runpy.run_path(fn)
    name = s['name']
    T = tempfile.mkdtemp(prefix='mkseed')
    R = os.path.join(T, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', R])
        D = os.path.join(T, 'demo')
        os.makedirs(D)
        shutil.copy(os.path.join(V, 'tools', 'demolib.py'), D)
        open(os.path.join(D, 'demo.py'), 'w').write('import os\nimport sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n' + s['demo'].strip() + '\ndone()\n')
        open(os.path.join(D, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(D, 'demo.sh'), 0o755)
        rc, o = sh(['bash', os.path.join(D, 'demo.sh')], R)
        if rc != 0:
            print(name, 'demo fails on the unchanged tree:', o[-1500:])
            continue
        ok = True
        for p, old, new in s['edits']:
            t = open(os.path.join(R, p)).read()
            if t.count(old) != 1:
                print(name, 'edit matches %d times in %s: %s' % (t.count(old), p, old[:60]))
                ok = False
                break
            open(os.path.join(R, p), 'w').write(t.replace(old, new))
        if not ok:
            continue
        _, diff = sh('git diff', R)
        rc, o = sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8', R)
        failed = [l for l in o.splitlines() if l.endswith('FAILED') or l.startswith('error')]
        if failed:
            print(name, 'tests:', failed[:5], o[-1500:] if 'error' in failed[0] else '')
            continue
        rc, o = sh(['bash', os.path.join(D, 'demo.sh')], R)
        if rc == 0:
            print(name, 'demo does not fail with the change')
            continue
        out = os.path.join(V, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        for f in ('demo.py', 'demo.sh', 'demolib.py'):
            shutil.copy(os.path.join(D, f), out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print(name, 'stored;', o.strip().splitlines()[0][:200])
    finally:
        shutil.rmtree(T, ignore_errors=True)
