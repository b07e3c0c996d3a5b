"""Rebuild the Cython extensions of /repo in place, going by content and not by time.

A .so is kept only if it was built from the present text of its .pyx, of every
.pxd and of setup.py; otherwise the .so, its .c and its stamp are removed
first, so that a build that fails leaves no old module behind."""

import glob
import hashlib
import os
import subprocess
import sys
import sysconfig

os.chdir("/repo")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
STAMPS = "/repo/build/vp-stamps"


def read(path):
    with open(path, "rb") as f:
        return f.read()


shared = ["setup.py"] + sorted(glob.glob("dedalus/**/*.pxd", recursive=True))
base = hashlib.sha256(b"".join(read(p) for p in shared if os.path.exists(p)))
pyx = sorted(glob.glob("dedalus/**/*.pyx", recursive=True))
os.makedirs(STAMPS, exist_ok=True)
stems = {p[:-4] for p in pyx}

# Extensions whose .pyx is gone
for so in glob.glob("dedalus/**/*" + SUFFIX, recursive=True):
    if so[: -len(SUFFIX)] not in stems:
        os.remove(so)

todo = {}
for path in pyx:
    stem = path[:-4]
    h = base.copy()
    h.update(read(path))
    digest = h.hexdigest()
    stamp = os.path.join(STAMPS, stem.replace("/", "."))
    if (
        os.path.exists(stem + SUFFIX)
        and os.path.exists(stamp)
        and read(stamp).decode() == digest
    ):
        continue
    for old in (stem + SUFFIX, stem + ".c", stamp):
        if os.path.exists(old):
            os.remove(old)
    todo[stem] = (stamp, digest)

if not todo:
    print("extensions: up to date")
    sys.exit(0)
print("extensions to rebuild:", *sorted(todo), flush=True)
code = subprocess.call(
    [sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"]
)
for stem, (stamp, digest) in todo.items():
    if code == 0 and os.path.exists(stem + SUFFIX):
        with open(stamp, "w") as f:
            f.write(digest)
sys.exit(code)
