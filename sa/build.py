"""Builds the MIR dump driver and dumps /repo's current working tree (cargo +nightly check, no code of /repo's crates is run
except what cargo itself runs: lapex-input-gen's build script, as in every build)."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
REPO = os.environ.get('LAPEX_REPO', '/repo')
CRATES = ['lapex', 'lapex_cli', 'lapex_input', 'lapex_input_bootstrap', 'lapex_input_gen', 'lapex_automaton', 'lapex_lexer',
          'lapex_parser', 'lapex_codegen', 'lapex_cpp_codegen', 'lapex_rust_codegen']


class BuildError(Exception):
    pass


def source_files(repo=None):
    repo = repo or REPO
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(('.rs', '.toml', '.tpl', '.lapex', '.lock')):
                out.append(p)
    return sorted(out)


def tree_hash(repo=None):
    h = hashlib.sha256()
    for p in source_files(repo):
        h.update(os.path.relpath(p, repo or REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    with open(os.path.join(HERE, 'driver', 'mirdump.rs'), 'rb') as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def sysroot():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'])
    if rc != 0:
        raise BuildError(out)
    return out.strip().splitlines()[-1]


def driver():
    src = os.path.join(HERE, 'driver', 'mirdump.rs')
    with open(src, 'rb') as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'mirdump-' + key)
    if not os.path.exists(exe):
        rc, out = run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', exe + '.tmp'])
        if rc != 0:
            raise BuildError('driver: ' + out[-4000:])
        os.rename(exe + '.tmp', exe)
    return exe


def dump(repo=None):
    """directory holding one JSON file per workspace crate for the current source"""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = tree_hash(repo)
        d = os.path.join(CACHE, 'dump-' + key)
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d
        exe = driver()
        dumps = [os.path.join(CACHE, old) for old in os.listdir(CACHE) if old.startswith('dump-')]
        for old in sorted(dumps, key=os.path.getmtime)[:-4]:    # other runs may still be reading the latest ones
            shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tgt = os.path.join(CACHE, 'target')
        # the wrapper must see every workspace crate again
        dbg = os.path.join(tgt, 'debug')
        for sub in ('build', '.fingerprint', 'deps', 'incremental'):
            p = os.path.join(dbg, sub)
            if os.path.isdir(p):
                for f in os.listdir(p):
                    if f.startswith(('lapex', 'liblapex')):
                        q = os.path.join(p, f)
                        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
        env = dict(os.environ)
        env.pop('RUSTFLAGS', None)
        env.pop('RUSTUP_TOOLCHAIN', None)
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        env['RUSTC_WRAPPER'] = exe
        env['CARGO_TARGET_DIR'] = tgt
        env['MIRDUMP_CRATES'] = ','.join(CRATES)
        env['MIRDUMP_OUT'] = d
        env['CARGO_INCREMENTAL'] = '0'
        rc, out = run(['cargo', '+nightly', 'check', '--workspace', '--offline', '--locked'], cwd=repo, env=env)
        if rc != 0:
            raise BuildError(out[-4000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(d, c + '.json'))]
        if missing:
            raise BuildError('no MIR dump for ' + ', '.join(missing))
        open(os.path.join(d, 'ok'), 'w').close()
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    print(dump())
