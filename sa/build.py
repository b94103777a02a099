"""Builds the MIR driver when missing and dumps the current source of a crate."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('FOURLEAF_REPO', '/repo')
BIN = os.path.join(VERIF, 'build', 'mirdump')
FLAGS = '-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on'


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(src):
        return BIN
    os.makedirs(os.path.dirname(BIN), exist_ok=True)
    tmp = BIN + '.%d' % os.getpid()
    p = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('driver does not build:\n' + p.stdout[-4000:])
    os.replace(tmp, BIN)
    return BIN


def dump(crate='fourleaf', cwd=None, debug_assertions=False, wide=False):
    """-> path of a fresh dump (caller removes the directory). With `wide`, the types of
    witness/types.rs, which exercise every form of fourleaf_retrofit!, are added to the
    (scratch copy of the) crate as one more module."""
    sr = sysroot()
    b = driver()
    work = tempfile.mkdtemp(prefix='fourleaf-sa-')
    if wide:
        src = cwd or REPO
        cwd = os.path.join(work, 'wide')
        os.makedirs(cwd)
        for f in sorted(os.listdir(src)):
            if f.startswith('Cargo.'):
                shutil.copy(os.path.join(src, f), cwd)
        shutil.copytree(os.path.join(src, 'src'), os.path.join(cwd, 'src'))
        shutil.copy(os.path.join(VERIF, 'witness', 'types.rs'), os.path.join(cwd, 'src', 'sa_witness.rs'))
        with open(os.path.join(cwd, 'src', 'lib.rs'), 'a') as f:
            f.write('\nmod sa_witness;\n')
    env = dict(os.environ)
    env.update({
        'LD_LIBRARY_PATH': sr + '/lib',
        'RUSTC_WORKSPACE_WRAPPER': b,
        'CARGO_TARGET_DIR': os.path.join(work, 'target'),
        'RUSTFLAGS': '-Zalways-encode-mir --cap-lints=allow',
        'MIRDUMP_OUT': os.path.join(work, 'dump'),
        'MIRDUMP_FLAGS': FLAGS.replace('off', 'on') if debug_assertions else FLAGS,
        'MIRDUMP_CRATE': crate,
    })
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '-q'], cwd=cwd or REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = os.path.join(work, 'dump.%s.json' % crate)
    if p.returncode != 0 or not os.path.exists(out):
        shutil.rmtree(work, ignore_errors=True)
        raise BuildError('the crate could not be analysed (cargo check failed):\n' + p.stdout[-6000:])
    shutil.rmtree(os.path.join(work, 'target'), ignore_errors=True)
    if wide:
        shutil.rmtree(cwd, ignore_errors=True)
    return out, work


if __name__ == '__main__':
    driver()
    print('driver ready:', BIN)
