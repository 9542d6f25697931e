"""Compiles the harness (and with it minisign) from the current sources and dumps the MIR of every
monomorphised function."""
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, 'build')
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=1 -Zinline-mir=no -Coverflow-checks=on -Cdebug-assertions=on -Awarnings'

class DumpError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, **kw)
    if r.returncode:
        raise DumpError(r.stdout.decode(errors='replace')[-3000:])
    return r.stdout.decode()

def driver():
    srcf = os.path.join(VERIF, 'engine', 'driver', 'main.rs')
    h = hashlib.sha256(open(srcf, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'mirdump-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        s = _run(['rustc', '+nightly', '--print', 'sysroot']).strip()
        tmp = out + '.tmp%d' % os.getpid()
        _run(['rustc', '+nightly', '-O', '--edition', '2021', srcf, '-o', tmp, '-C', 'link-arg=-Wl,-rpath,%s/lib' % s])
        os.rename(tmp, out)
    return out

class locked:
    """one build at a time (checks may run side by side)"""
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def dump(tag=''):
    """path of a fresh MIR dump of /repo's working tree"""
    with locked():
        return _dump(tag)

def _dump(tag):
    drv = driver()
    fin = os.path.join(BUILD, 'mir%s.jsonl' % tag)
    out = fin + '.%d' % os.getpid()
    env = dict(os.environ)
    env.update(MIRDUMP_CRATE='mvharness', MIRDUMP_OUT=out, CARGO_TARGET_DIR=os.path.join(BUILD, 'mirtarget' + tag),
               RUSTC_WRAPPER=drv, RUSTFLAGS=FLAGS, CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true')
    hd = os.path.join(VERIF, 'harness')
    # the dump is a side effect of compiling the harness: force it to be compiled again
    for fp in ('.fingerprint', 'build', 'deps'):
        fp = os.path.join(BUILD, 'mirtarget' + tag, 'debug', fp)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('mvharness', 'minisign', 'libmvharness', 'libminisign')):
                    q = os.path.join(fp, d)
                    shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
    _run(['cargo', '+nightly', 'check', '--offline', '--locked'], cwd=hd, env=env)
    if not os.path.exists(out):
        raise DumpError('no MIR was dumped')
    os.rename(out, fin)
    return fin
