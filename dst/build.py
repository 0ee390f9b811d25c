"""Builds what the checks need from /repo's working tree, outside /repo."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
INPUTS = ["violations.pyx", "violations.h", "setup_violations.py"]


def extension():
    """Folder with the compiled violations kernel of the current tree."""
    h = hashlib.sha256(sys.version.encode())
    for nm in INPUTS:
        with open(os.path.join(REPO, nm), "rb") as f:
            h.update(nm.encode() + b"\0" + f.read() + b"\0")
    base = os.path.join(HERE, ".cache")
    try:
        os.makedirs(base, exist_ok=True)
        if not os.access(base, os.W_OK):
            raise OSError
    except OSError:
        base = os.path.join(tempfile.gettempdir(), "dst-cache")
        os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "ext-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(out, "ok")):
        return out
    work = tempfile.mkdtemp(prefix="build-", dir=base)
    try:
        for nm in INPUTS:
            shutil.copy(os.path.join(REPO, nm), work)
        for nm in os.listdir(REPO):       # headers the kernel may include
            if nm.endswith((".h", ".hpp", ".pxd")) and nm not in INPUTS:
                shutil.copy(os.path.join(REPO, nm), work)
        p = subprocess.run(
            [sys.executable, "-W", "ignore", "setup_violations.py",
             "build_ext", "--inplace", "--force"], cwd=work,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        libs = [n for n in os.listdir(work) if n.endswith(".so")]
        if p.returncode or not libs:
            raise SystemExit("cannot build the violations kernel:\n"
                             + p.stdout.decode("utf-8", "replace")[-3000:])
        shutil.rmtree(os.path.join(work, "build"), ignore_errors=True)
        with open(os.path.join(work, "ok"), "w"):
            pass
        try:
            os.rename(work, out)
        except OSError:                   # another check was faster
            if not os.path.exists(os.path.join(out, "ok")):
                return work
    finally:
        if os.path.isdir(work) and os.path.exists(os.path.join(out, "ok")):
            shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(extension())
