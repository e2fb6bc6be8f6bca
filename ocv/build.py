"""Builds what a check runs: a private copy of /repo's working tree with a freshly generated parser."""
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("OCV_REPO", "/repo")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _ignore(d, names):
    out = [n for n in names if n == "__pycache__" or n.endswith(".pyc")]
    if d.endswith(os.path.join("omegaconf", "grammar", "gen")):
        out += [n for n in names if n != "__init__.py"]
    return out


def make_scratch():
    scratch = tempfile.mkdtemp(prefix="ocv-")
    try:
        for d in ("omegaconf", "build_helpers", "pydevd_plugins", "requirements"):
            src = os.path.join(REPO, d)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(scratch, d), ignore=_ignore)
        for f in ("setup.py", "README.md", "setup.cfg", "pyproject.toml"):
            src = os.path.join(REPO, f)
            if os.path.exists(src):
                shutil.copy(src, os.path.join(scratch, f))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        p = subprocess.run(
            [PY, "setup.py", "-q", "antlr"],
            cwd=scratch,
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=300,
        )
        if p.returncode != 0:
            raise BuildError("parser generation failed:\n" + p.stdout.decode(errors="replace"))
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
    return scratch
