"""Shared plumbing: building the MIR driver, extracting the analysed program from /repo's current source,
reporting."""
import os, sys, json, subprocess, hashlib, tempfile, shutil, time, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class ToolError(Exception): pass

_sys = None
def sysroot():
    global _sys
    if _sys is None:
        _sys = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    return _sys
def env():
    e = dict(os.environ); e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    e.pop('RUSTFLAGS', None)
    return e
def build_driver():
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    h = hashlib.sha256(open(src, 'rb').read() + sysroot().encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'driver-' + h)
    if os.path.exists(out): return out
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out): return out
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp, '--cap-lints', 'allow'], env=env(), capture_output=True, text=True)
        if r.returncode: raise ToolError('driver build failed:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out

class Work:
    """scratch directory removed at exit"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='rcslice-vp-')
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

def edition():
    for l in open(os.path.join(REPO, 'Cargo.toml')):
        if l.strip().startswith('edition'): return l.split('=')[1].strip().strip('"')
    return '2015'
def extract(work, da):
    """run the driver over the crate in /repo; da = debug assertions on/off"""
    drv = build_driver()
    out = os.path.join(work.dir, 'dump-%s.json' % da)
    e = env(); e['VP_DUMP_OUT'] = out
    o = os.path.join(work.dir, 'o'); os.makedirs(o, exist_ok=True)
    r = subprocess.run([drv, 'rustc', os.path.join(REPO, 'src/lib.rs'), '--edition', edition(), '--crate-type', 'lib', '--crate-name', 'rc_slice',
                        '-Zmir-opt-level=0', '-C', 'overflow-checks=off', '-C', 'debug-assertions=' + da, '--sysroot', sysroot(),
                        '--out-dir', o, '--cap-lints', 'allow'], env=e, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out): raise ToolError('extraction failed (does /repo compile?):\n' + r.stderr[-3000:])
    import prog
    return prog.Prog(out)

def rmeta(work):
    """metadata of the crate in /repo, for type-level witnesses"""
    o = os.path.join(work.dir, 'rm'); os.makedirs(o, exist_ok=True)
    out = os.path.join(o, 'librc_slice.rmeta')
    if not os.path.exists(out):
        r = subprocess.run(['rustc', '+nightly', os.path.join(REPO, 'src/lib.rs'), '--edition', edition(), '--crate-type', 'lib', '--crate-name', 'rc_slice',
                            '--emit', 'metadata', '--out-dir', o, '--cap-lints', 'allow'], env=env(), capture_output=True, text=True)
        if r.returncode: raise ToolError('the crate does not compile:\n' + r.stderr[-3000:])
    return out
def witness(work, name, code):
    """type-check a client program (never run); returns the list of error codes"""
    rm = rmeta(work)
    p = os.path.join(work.dir, name + '.rs')
    open(p, 'w').write('#![allow(unused, dead_code)]\n' + code)
    r = subprocess.run(['rustc', '+nightly', p, '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'w', '--emit', 'metadata', '-o', os.path.join(work.dir, name + '.rmeta'),
                        '--extern', 'rc_slice=' + rm, '--error-format', 'json', '--cap-lints', 'allow'], env=env(), capture_output=True, text=True)
    codes = []
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('level') == 'error' and m.get('code'): codes.append(m['code']['code'])
    if r.returncode and not codes: codes = ['?']
    return codes, r.stderr
