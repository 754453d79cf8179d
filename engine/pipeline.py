"""Build the extractor, compile /repo's current tree with it and return the
paths of the extracted program.  Everything is kept in /verif/build (ignored
by git) and keyed by the contents of the analysed sources."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')

class PipelineError(Exception):
    pass

def sh(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs if 'target' not in d.split(os.sep))
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\1')
    return h.hexdigest()[:24]

def toolchain():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise PipelineError('no nightly toolchain: ' + out)
    return out.strip().splitlines()[-1]

def build_driver(env):
    src = os.path.join(VERIF, 'driver', 'main.rs')
    key = tree_hash([src])
    exe = os.path.join(BUILD, 'mpdrv-' + key)
    if not os.path.exists(exe):
        rc, out = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', exe + '.tmp'], env)
        if rc:
            raise PipelineError('the extractor does not build:\n' + out[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe

FOLLOW = ('std::option::;std::result::;<std::option::;<std::result::;std::ops::;std::cmp::;std::mem::;std::convert::;'
          '<std::convert;<T as std::convert::;<&T as std::convert::;'
          + ';'.join('%s::io::impls::<impl std::io::%s for &mut' % (k, t) for k in ('alloc', 'core', 'std') for t in ('Read', 'BufRead', 'Write')))

def extract():
    """Directory holding mono.json / generic.json of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    sysroot = toolchain()
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        env.pop(k, None)
    env['LD_LIBRARY_PATH'] = sysroot + '/lib' + (':' + env['LD_LIBRARY_PATH'] if env.get('LD_LIBRARY_PATH') else '')
    exe = build_driver(env)
    harness = HARNESS
    key = tree_hash([os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), harness, os.path.join(VERIF, 'driver'), os.path.abspath(__file__)])
    out = os.path.join(BUILD, 'x-' + key)
    if os.path.exists(os.path.join(out, 'ok')):
        return out, key
    shutil.rmtree(out, ignore_errors=True)
    tmp = out + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    target = os.path.join(BUILD, 'target')
    # the two packages are always compiled anew (two layouts of cargo's target directory)
    for d in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'build')):
        for n in os.listdir(d) if os.path.isdir(d) else ():
            if n in ('multipart', 'mp_harness') or n.startswith(('multipart-', 'mp_harness-')):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    env.update(MPV_OUT=tmp, RUSTC_WRAPPER=exe, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
               RUSTFLAGS='--cap-lints allow -Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off',
               MPV_FOLLOW=FOLLOW)
    rc, o = sh(['cargo', '+nightly', 'check', '--offline'], env, harness)
    if rc or not os.path.exists(os.path.join(tmp, 'mono.json')):
        raise PipelineError('the current tree of /repo does not compile with the harness:\n' + o[-4000:])
    open(os.path.join(tmp, 'ok'), 'w').close()
    os.rename(tmp, out)
    olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('x-') and os.path.join(BUILD, d) != out),
                  key=os.path.getmtime)
    for d in olds[:-2]:
        shutil.rmtree(d, ignore_errors=True)
    return out, key

if __name__ == '__main__':
    t = time.time()
    print(extract(), time.time() - t)
