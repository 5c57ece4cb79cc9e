"""development aid: python3 tools/mut.py PROP FILE.. ; FILE defines M = [(name, path, old, new)...]; each edit is applied to a scratch
copy of /repo, the check is run there, and its verdict printed (R_ names are refactorings: expected quiet)"""
import os, subprocess, sys, shutil, re
W = '/tmp/rw'
subprocess.check_call('mkdir -p %s && rsync -a --delete --exclude target /repo/ %s/ 2>/dev/null || (find %s -mindepth 1 -maxdepth 1 ! -name target -exec cp -a /dev/null /dev/null \\; ; cp -a /repo/. %s/)' % (W, W, W, W), shell=True)
subprocess.call(['git', '-C', W, 'checkout', '-q', '.'])
props = sys.argv[1].split(',')
only = [a[1:] for a in sys.argv[2:] if a.startswith('=')]
V = int(os.environ.get('V', '300'))
for f in [a for a in sys.argv[2:] if not a.startswith('=')]:
    ns = {}
    exec(open(f).read(), ns)
    for name, path, *ed in ns['M']:
        if only and name not in only:
            continue
        p = os.path.join(W, path)
        s = s0 = open(p).read()
        for a, b in zip(ed[::2], ed[1::2]):
            if s.count(a) < 1:
                print(name, 'OLD TEXT NOT FOUND', a[:50]); break
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        for pr in props:
            r = subprocess.run(['timeout', os.environ.get('T', '100'), './check', pr], cwd='/verif', env=dict(os.environ, LAPEX_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            want = 0 if name.startswith('R_') else 1
            bad = 'error[' in o or 'Traceback' in o or 'could not compile' in o
            print('%-4s %s %s rc=%d %s' % ('BAD' if bad else 'ok' if r.returncode == want else 'MISS', pr, name, r.returncode, '' if r.returncode == want and not bad and V < 400 else o.strip()[:V]), flush=True)
        open(p, 'w').write(s0)
