"""Builds the real code from /repo's working tree and runs inputs through it."""
import os
import resource
import shutil
import subprocess
import tempfile
import time

from ..mv import dump

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, 'build')

def hx(b):
    if b is None:
        return '-'
    if isinstance(b, str):
        b = b.encode()
    return b.hex() if b else '='

def unhx(s):
    return b'' if s == '=' else bytes.fromhex(s)

class BuildError(Exception):
    pass

class Real:
    def __init__(self):
        with dump.locked():
            self._build()

    def _build(self):
        self.internals = True
        env = dict(os.environ)
        env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'replay')
        env['CARGO_NET_OFFLINE'] = 'true'
        env.pop('RUSTC_WRAPPER', None)
        os.makedirs(BUILD, exist_ok=True)
        src = os.path.join(VERIF, 'replay')
        lock = os.path.join(src, 'Cargo.lock')
        for d in ('.fingerprint', 'build', 'deps'):
            d = os.path.join(BUILD, 'replay', 'debug', d)
            if os.path.isdir(d):
                for e in os.listdir(d):
                    if e.startswith(('minisign', 'libminisign')):
                        q = os.path.join(d, e)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        def build(flags, feats):
            env['RUSTFLAGS'] = flags
            return subprocess.run(['cargo', 'build', '--offline', '--locked'] + feats, cwd=src, env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        r = build('--cfg minisign_vp -Awarnings', ['--features', 'internals'])
        if r.returncode:
            self.internals = False
            self.log = r.stdout.decode(errors='replace')[-3000:]
            r = build('-Awarnings', [])
            if r.returncode:
                raise BuildError(r.stdout.decode(errors='replace')[-3000:])
        self.bin = os.path.join(BUILD, 'replay', 'debug', 'replay')
        self.ran = 0

    def run(self, cmds, timeout=120):
        """answers (list of str tokens, stdout bytes), one per command; a crash or hang is ('crash', ...), and nothing is run after a hang"""
        out = []
        cmds = list(cmds)
        while cmds:
            got = self._batch(cmds, timeout)
            out.extend(got)
            cmds = cmds[len(got):]
            if got and got[-1][0] == ['crash', 'timeout']:
                break
        self.ran += len(out)
        return out

    def _batch(self, cmds, timeout):
        d = tempfile.mkdtemp(prefix='mvreal')
        try:
            ans = os.path.join(d, 'ans')
            so = os.path.join(d, 'out')
            inp = os.path.join(d, 'in')
            with open(inp, 'w') as f:
                f.write('\n'.join(cmds) + '\n')
            open(so, 'w').close()
            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            why = None
            with open(so, 'wb') as o, open(inp) as i:
                pr = subprocess.Popen([self.bin, ans, so], stdin=i, stdout=o, stderr=subprocess.DEVNULL, preexec_fn=lim)
                size, still = -1, 0
                while True:
                    try:
                        rc = pr.wait(5)
                        if rc:
                            why = 'exit %d' % rc
                        break
                    except subprocess.TimeoutExpired:
                        n = os.path.getsize(ans) if os.path.exists(ans) else 0
                        still = 0 if n > size else still + 5
                        size = max(n, size)
                        if still >= timeout:
                            pr.kill()
                            pr.wait()
                            why = 'timeout'
                            break
            res = []
            if os.path.exists(ans):
                for l in open(ans):
                    if not l.endswith('\n'):
                        break
                    a, _, s = l.rstrip('\n').rpartition(' @ ')
                    res.append((a.split(' '), unhx(s)))
            if len(res) < len(cmds):
                res.append((['crash', why or 'no answer'], b''))
            return res[:len(cmds)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def alone(self, cmd, stdout, timeout=60):
        """answer to one command run with standard output on the given file"""
        d = tempfile.mkdtemp(prefix='mvreal')
        try:
            a, o = os.path.join(d, 'a'), os.path.join(d, 'o')
            open(o, 'w').close()
            with open(stdout, 'wb', buffering=0) as f:
                pr = subprocess.Popen([self.bin, a, o], stdin=subprocess.PIPE, stdout=f, stderr=subprocess.DEVNULL)
                try:
                    pr.communicate((cmd + '\n').encode(), timeout)
                except subprocess.TimeoutExpired:
                    pr.kill()
                    pr.wait()
            l = open(a).read() if os.path.exists(a) else ''
            self.ran += 1
            return l.rstrip('\n').rpartition(' @ ')[0].split(' ') if l.endswith('\n') else ['crash']
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def soon(self, cmds, secs):
        """what each command answers when it answers within secs (each runs alone, at most six at a time), else None"""
        res = []
        for k in range(0, len(cmds), 6):
            part, ps = cmds[k:k + 6], []
            d = tempfile.mkdtemp(prefix='mvreal')
            try:
                for i, c in enumerate(part):
                    n = os.path.join(d, str(i))
                    with open(n, 'w') as f:
                        f.write(c + '\n')
                    with open(n + 'o', 'wb') as o, open(n) as f:
                        ps.append(subprocess.Popen([self.bin, n + 'a', n + 'o'], stdin=f, stdout=o, stderr=subprocess.DEVNULL,
                                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))))
                end = time.time() + secs
                for p in ps:
                    try:
                        p.wait(max(0.01, end - time.time()))
                    except subprocess.TimeoutExpired:
                        pass
                for i, p in enumerate(ps):
                    ans = os.path.join(d, str(i) + 'a')
                    done = p.poll() is not None
                    if not done:
                        p.kill()
                        p.wait()
                    l = open(ans).read() if done and os.path.exists(ans) else ''
                    res.append(l.rstrip('\n').rpartition(' @ ')[0].split(' ') if l.endswith('\n') else None)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        self.ran += len(cmds)
        return res
