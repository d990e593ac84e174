"""Driving the command line tools inside a scratch directory."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

from mc.core import REPO


class Scratch(object):
    """A directory of its own, with its own directory for temporary files."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-tool-", dir="/tmp")
        self.tmp = os.path.join(self.dir, "a", "b", "tmp")
        self.work = os.path.join(self.dir, "a", "b", "work")
        os.makedirs(self.tmp)
        os.makedirs(self.work)
        self.old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        self.cwd = os.getcwd()
        os.chdir(self.work)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        tempfile.tempdir = self.old
        shutil.rmtree(self.dir)

    def write(self, name, data):
        with open(os.path.join(self.work, name), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))

    def content(self):
        out = {}
        for d in (self.work, self.tmp):
            for root, _dirs, files in os.walk(d):
                for n in files:
                    with open(os.path.join(root, n), "rb") as f:
                        out[os.path.relpath(os.path.join(root, n), self.dir)] = f.read()
                if d == self.tmp and root != d:
                    out[os.path.relpath(root, self.dir)] = None
        return out


def call(main, argv, stdin=None):
    """(result or exit status, stdout, stderr) of a tool's main function."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdin
    if stdin is not None:
        sys.stdin = stdin
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                rc = main(list(argv))
            except SystemExit as e:
                rc = e.code
    finally:
        sys.stdin = old
    return rc, out.getvalue(), err.getvalue()


def command(sc, name, argv, stdin="", env=()):
    """(exit status, stdout, stderr) of the real command."""
    e = dict(os.environ, PYTHONPATH=REPO, TMPDIR=sc.tmp)
    e.update(env)
    r = subprocess.run([sys.executable, "-B", os.path.join(REPO, "tools", name)] + list(argv), env=e, cwd=sc.work, timeout=120,
                       input=stdin.encode("utf-8"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
