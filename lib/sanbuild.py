"""An instrumented copy of the current package: ASan + UBSan extensions, with Cython's index checks switched on.

build() returns (folder for PYTHONPATH, files to preload); cached by content in /tmp/.verif-san."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = '/repo'
ROOT = '/tmp/.verif-san'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-g1', '-O1']


def preload():
    return [subprocess.check_output(['gcc', f'-print-file-name={n}'], text=True).strip() for n in ('libasan.so', 'libubsan.so')]


def digest():
    h = hashlib.sha256()
    files = sorted(glob.glob(f'{REPO}/dedalus/**/*', recursive=True)) + [f'{REPO}/setup.py', __file__]
    for f in files:
        if f.endswith(('.py', '.pyx', '.pxd', '.cfg')) and '/tests/' not in f:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as s:
                h.update(s.read())
    return h.hexdigest()[:20]


def build():
    os.makedirs(ROOT, exist_ok=True)
    with open(f'{ROOT}/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = f'{ROOT}/{digest()}'
        if not os.path.exists(f'{d}/ready'):
            for old in glob.glob(f'{ROOT}/*/'):
                shutil.rmtree(old, ignore_errors=True)
            make(d)
            open(f'{d}/ready', 'w').close()
    return d, preload()


def make(d):
    os.makedirs(d)
    shutil.copytree(f'{REPO}/dedalus', f'{d}/dedalus', ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', 'tests', 'tests_*'))
    shutil.copy(f'{REPO}/setup.py', d)
    for extra in ('README.md', 'pyproject.toml', 'LICENSE', 'setup.cfg'):
        if os.path.exists(f'{REPO}/{extra}'):
            shutil.copy(f'{REPO}/{extra}', d)
    # Index checks in every kernel
    for f in glob.glob(f'{d}/dedalus/**/*.pyx', recursive=True):
        s = open(f).read()
        s = re.sub(r'boundscheck\(\s*False\s*\)', 'boundscheck(True)', s)
        s = re.sub(r'boundscheck\s*=\s*False', 'boundscheck=True', s)
        open(f, 'w').write(s)
    env = dict(os.environ, CFLAGS=' '.join(SAN), LDFLAGS='-fsanitize=address,undefined', LDSHARED='gcc -shared -fsanitize=address,undefined')
    p = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace', '-j', '4'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = len(glob.glob(f'{d}/dedalus/**/*' + sysconfig.get_config_var('EXT_SUFFIX'), recursive=True))
    m = len(glob.glob(f'{d}/dedalus/**/*.pyx', recursive=True))
    if p.returncode or n != m:
        raise RuntimeError(f'instrumented build failed ({n} of {m}): {p.stdout[-2000:]}')


if __name__ == '__main__':
    print(build())
