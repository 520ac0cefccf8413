"""Builds the driver and dumps the MIR of /repo's current tree (cached by content)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE') or os.path.join(VERIF, '.cache')
DRIVER = os.path.join(VERIF, 'driver')
CRATES = ('haproxy_spop', 'haproxy_spoa')


class BuildError(Exception):
    pass


def sh(args, cwd, env, timeout=1500):
    p = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def environment():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR',
              'RUSTUP_TOOLCHAIN', 'MIRDUMP_OUT', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def files_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('target', '.git')]
        for f in files:
            if f.endswith(('.rs', '.toml', '.lock', '.md')):
                out.append(os.path.join(root, f))
    return out


def sysroot(env):
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'], VERIF, env)
    if rc:
        raise BuildError('no nightly toolchain: ' + out)
    return out.strip().splitlines()[-1]


def driver_bin(env):
    src = glob.glob(DRIVER + '/src/*.rs') + [DRIVER + '/Cargo.toml']
    hsh = files_hash(src)
    bind = os.path.join(CACHE, 'driver-' + hsh)
    b = os.path.join(bind, 'mirdump')
    if not os.path.exists(b):
        tgt = os.path.join(CACHE, 'driver-target')
        e = dict(env, CARGO_TARGET_DIR=tgt)
        rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline'], DRIVER, e)
        if rc:
            raise BuildError('driver: ' + out[-3000:])
        os.makedirs(bind, exist_ok=True)
        shutil.copy2(os.path.join(tgt, 'release', 'mirdump'), b + '.tmp')
        os.rename(b + '.tmp', b)
    return b, hsh


def models_dump(env, drv, dh, lib):
    src = os.path.join(VERIF, 'models', 'src', 'lib.rs')
    hsh = files_hash([src]) + dh[:8]
    d = os.path.join(CACHE, 'models-' + hsh)
    out = os.path.join(d, 'vmodels.json')
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        e = dict(env, MIRDUMP_OUT=d, LD_LIBRARY_PATH=lib)
        rc, txt = sh(['rustup', 'which', '--toolchain', 'nightly', 'rustc'], VERIF, env)
        rustc = txt.strip().splitlines()[-1]
        rc, txt = sh([drv, rustc, '--crate-name', 'vmodels', '--edition=2021', src, '--crate-type', 'lib',
                      '--emit=metadata', '--out-dir', d], VERIF, e)
        if rc or not os.path.exists(out):
            raise BuildError('models: ' + txt[-3000:])
    return out


def dumps():
    """paths of the dumps of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    env = environment()
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib = os.path.join(sysroot(env), 'lib')
        drv, dh = driver_bin(env)
        mo = models_dump(env, drv, dh, lib)
        hsh = files_hash(repo_files()) + dh[:8]
        d = os.path.join(CACHE, 'dump-' + hsh)
        outs = [os.path.join(d, c + '.json') for c in CRATES]
        if not all(os.path.exists(o) for o in outs):
            for old in glob.glob(os.path.join(CACHE, 'dump-*')):
                shutil.rmtree(old, ignore_errors=True)
            lock = os.path.join(REPO, 'Cargo.lock')
            if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
                shutil.copy('/opt/vp/Cargo.lock', lock)
            tgt = os.path.join(CACHE, 'target')
            for p in glob.glob(tgt + '/debug/.fingerprint/haproxy*') + glob.glob(tgt + '/debug/build/haproxy*') \
                    + glob.glob(tgt + '/debug/incremental/haproxy*'):
                shutil.rmtree(p, ignore_errors=True)
            tmp = d + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            e = dict(env, MIRDUMP_OUT=tmp, LD_LIBRARY_PATH=lib, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv)
            rc, txt = sh(['cargo', '+nightly', 'check', '-p', 'haproxy-spoa', '-p', 'haproxy-spop', '--lib',
                          '--all-features', '--offline'], REPO, e)
            if rc:
                raise BuildError('check: ' + txt[-4000:])
            for c in CRATES:
                if not os.path.exists(os.path.join(tmp, c + '.json')):
                    raise BuildError('no dump of ' + c)
            os.rename(tmp, d)
    return outs + [mo], hsh


if __name__ == '__main__':
    print(dumps())
