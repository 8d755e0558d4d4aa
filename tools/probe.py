#!/usr/bin/env python3
"""probe.py FILE [names]: FILE defines PROBES = [(name, property, file, old, new), ...] (old/new may be lists for several edits).
Applies each in a scratch copy, runs the project's tests and the property's quick check."""
import os, sys, shutil, tempfile, subprocess, importlib.util, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import mutate
spec = importlib.util.spec_from_file_location("p", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
L = "content/lib/pyswitch/"


def one(p):
    name, prop, f, old, new = p
    tmp = tempfile.mkdtemp(prefix="probe-")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(tmp + "/root"); os.symlink(repo + "/content/lib", tmp + "/root/lib")
        edits = f if isinstance(f, list) else [(f, old, new)]
        for f, old, new in edits:
            path = os.path.join(repo, f if os.path.exists(os.path.join(repo, f)) else L + f)
            s = open(path, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return name, "SPEC: %d occurrences of %r in %s" % (s.count(old), old[:60], f)
            open(path, "w", newline="").write(s.replace(old, new))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=tmp + "/root")
        if any("content/lib" in e[0] or not e[0].startswith(("web", "content", "examples")) for e in edits):
            rc, o = mutate.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + repo, "test/pyswitch"], 90, cwd=repo, env=env)
            if rc != 0:
                return name, "killed by tests"
        out = []
        for c in prop.split():
            rc, o = mutate.run([sys.executable, HERE + "/check.py", c, "--tier", "quick", "--jobs", "3", "--no-evidence"] + (["--cases", str(3 * mutate.CASES[c])] if c in ("W01", "W02", "W03", "W04", "W09") else []), 900, env=dict(os.environ, VERIF_REPO=repo))
            out.append("%s %s" % (c, "caught" if rc == 1 and "VIOLATION property=" in o else "MISSED rc=%s %s" % (rc, o.strip()[-200:] if rc != 0 else "")))
        return name, "; ".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


todo = [p for p in m.PROBES if len(sys.argv) < 3 or p[0] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, todo):
        print("%-28s %s" % r, flush=True)
