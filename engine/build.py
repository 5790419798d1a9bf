"""Builds the MIR dumper and dumps the type-checked program of /repo's current working tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GPT_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
FEATURES = {'none': [], 'log': ['--features', 'log'], 'tracing': ['--features', 'tracing'], 'both': ['--features', 'log,tracing']}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'mirdump-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = '%s.%d' % (out, os.getpid())
        r = subprocess.run(['rustc', '+nightly', '-C', 'opt-level=1', '--edition', '2021', src, '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError('driver: ' + r.stdout[-3000:])
        os.replace(tmp, out)
    return out


def dump(feature='none', repo=None):
    """path of a fresh dump of the current source (never reused between runs)"""
    repo = repo or REPO
    drv = driver()
    d = tempfile.mkdtemp(prefix='gptmir')
    try:
        out = os.path.join(d, 'dump.json')
        env = dict(os.environ)
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        env['GPT_MIR_OUT'] = out
        env['CARGO_TARGET_DIR'] = os.path.join(d, 't')
        env['CARGO_INCREMENTAL'] = '0'
        env.pop('RUSTFLAGS', None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--locked'] + FEATURES[feature],
                           cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise BuildError('cargo check (%s): %s' % (feature, r.stdout[-3000:]))
        fd, keep = tempfile.mkstemp(prefix='gptdump', suffix='.json')
        os.close(fd)
        shutil.move(out, keep)
        return keep
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    print(driver())
