"""Extract the type-checked program (MIR, types, ADTs) of /repo's working tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise BuildError('no nightly rustc: ' + r.stdout[-300:])
    return r.stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'mirdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        r = sh(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp])
        if r.returncode:
            raise BuildError('driver: ' + r.stdout[-2000:])
        os.rename(tmp, exe)
    return exe


def anchor(spec):
    """the source file a reference module is attached to: its first line is `//@ at <file>`"""
    l = open(spec).readline()
    assert l.startswith('//@ at '), spec
    return l[7:].strip()


def dump(specs, out=None):
    """-> (path of the dump of REPO with the reference modules added in memory, dropped) or raises.
    A reference module that no longer compiles against the tree is dropped."""
    specs = list(specs)
    dropped = []
    work = tempfile.mkdtemp(prefix='topogeo-sa-')
    try:
        while True:
            f, log = dump1(specs, work)
            if f:
                if out is None:
                    keep = tempfile.NamedTemporaryFile(prefix='topogeo-sa-', suffix='.json', delete=False)
                    keep.close()
                    out = keep.name
                shutil.move(f, out)
                return out, dropped
            bad = [s for s in specs if s in log]
            if not bad:
                raise BuildError(log[-3000:])
            dropped += [(s, log) for s in bad]
            specs = [s for s in specs if s not in bad]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def dump1(specs, work):
    exe = driver()
    root = sysroot()
    out = os.path.join(work, 'out')
    os.makedirs(out, exist_ok=True)
    tgt = os.path.join(work, 'target')
    for d in ('debug/build/topogeo', 'debug/incremental'):
        shutil.rmtree(os.path.join(tgt, d), ignore_errors=True)
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=os.path.join(root, 'lib'), CARGO_TARGET_DIR=tgt,
               MIRDUMP_SPEC=';'.join('%s=%s' % (anchor(s), s) for s in specs), MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
               CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    lock = os.path.join(REPO, 'Cargo.lock')
    added = False
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, 'driver', 'Cargo.lock.saved'), lock)
        added = True
    try:
        r = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
               env=env, cwd=REPO)
    finally:
        if added:
            os.unlink(lock)
    f = os.path.join(out, 'topogeo.json')
    if r.returncode or not os.path.exists(f):
        return None, r.stdout
    return f, r.stdout


if __name__ == '__main__':
    import glob
    if sys.argv[1] == '--setup':
        print(driver())
        sys.exit(0)
    o, d = dump(sorted(glob.glob(os.path.join(VERIF, 'spec', '*.rs'))), sys.argv[1])
    for s, log in d:
        print('DROPPED', s)
        print(log[-3000:])
