#!/usr/bin/env python3
"""mkseed.py [names...]: builds /verif/seeded/<id>/ from tools/seedspecs/<id>.py and validates it in a scratch copy.

A spec defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source; exits non-zero when broken) and
optionally KIT = False (no firmware kit needed), SH (own demo.sh text).
Validation: patch applies, stable tests pass, demo is 0 on /repo and non-zero on the patched copy; prints what the checks say.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load(name):
    spec = importlib.util.spec_from_file_location("spec_" + name.replace("-", "_"), os.path.join(HERE, "tools", "seedspecs", name + ".py"))
    m = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    return m


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(copy):
    root = copy + "-root"
    os.makedirs(root, exist_ok=True)
    if not os.path.islink(root + "/lib"):
        os.symlink(copy + "/content/lib", root + "/lib")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=root)
    xml = copy + "-junit.xml"
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--rootdir=" + copy,
            "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + xml, "test/pyswitch"],
           cwd=copy, env=env)
    out = copy + "-out.json"
    sh(["/opt/venv/bin/python", "/opt/vp/results.py", out, "junit:" + xml])
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    stable = set(base.get("stable", base.get("passed", [])))
    passed = set(res.get("passed", []))
    missing = sorted(stable - passed)
    return len(stable), missing, r.stdout[-300:]


def build(name, check=True):
    m = load(name)
    d = os.path.join(HERE, "seeded", name)
    tmp = tempfile.mkdtemp(prefix="seed-")
    log = []
    try:
        copy = tmp + "/repo"
        sh(["cp", "-a", REPO, copy])
        for f, old, new in m.EDITS:
            p = os.path.join(copy, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return name, "SPEC ERROR: %d occurrences in %s of %r" % (s.count(old), f, old[:80])
            open(p, "w", newline="").write(s.replace(old, new))
        diff = sh(["git", "-C", copy, "diff", "--no-color"]).stdout
        os.makedirs(d, exist_ok=True)
        for e in os.listdir(d):
            p = os.path.join(d, e)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        with open(d + "/patch.diff", "w", newline="") as f:
            f.write(diff)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, f, indent=1)
        if getattr(m, "SH", None):
            open(d + "/demo.sh", "w").write(m.SH)
        else:
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % getattr(m, "PY", "python3"))
        for fn, text in getattr(m, "FILES", {}).items():
            open(d + "/" + fn, "w").write(text)
        if getattr(m, "DEMO", None):
            pre = "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
            if getattr(m, "KIT", True):
                pre += "from kit import env, rig\n"
            open(d + "/demo.py", "w").write(pre + m.DEMO.lstrip("\n"))
        if getattr(m, "KIT", True):
            shutil.copytree(os.path.join(HERE, "vlib"), d + "/kit", ignore=shutil.ignore_patterns("__pycache__", "runner.py"))
        if not check:
            return name, "written"
        r = sh(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"])
        if r.returncode:
            return name, "PATCH DOES NOT APPLY: " + r.stderr
        n, missing, tail = tests(copy)
        if missing or n < 300:
            shutil.rmtree(d)
            return name, "TESTS FAIL (%d): %s %s" % (n, missing[:5], tail)
        demo = tmp + "/elsewhere"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        a = sh(["bash", demo + "/demo.sh"], cwd=REPO, env=dict(os.environ, VERIF_REPO=REPO))
        b = sh(["bash", demo + "/demo.sh"], cwd=copy, env=dict(os.environ, VERIF_REPO=copy))
        if a.returncode != 0:
            shutil.rmtree(d)
            return name, "DEMO FAILS ON CLEAN: " + (a.stdout + a.stderr)[-1500:]
        if b.returncode == 0:
            shutil.rmtree(d)
            return name, "DEMO PASSES ON PATCHED: " + b.stdout[-500:]
        log.append("demo: " + (b.stdout + b.stderr).strip().splitlines()[-1][:150])
        ids = [m.PROPERTY] + [x for x in sys.argv if x.startswith("--also=") for x in x[7:].split(",")]
        for i in ids:
            if not os.path.isfile(os.path.join(HERE, "props", i + ".py")):
                log.append(i + ": no check")
                continue
            r = sh(["python3", "check.py", i, "--tier", "quick", "--no-evidence"], cwd=HERE, env=dict(os.environ, VERIF_REPO=copy))
            v = "caught" if r.returncode == 1 and "VIOLATION property=%s " % i in r.stdout else "MISSED rc=%d" % r.returncode
            log.append("%s: %s: %s" % (i, v, (r.stdout + r.stderr).strip().splitlines()[0][:220] if r.stdout + r.stderr else ""))
        return name, " | ".join(log)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not names:
        names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "seedspecs")) if f.endswith(".py"))
    with ThreadPoolExecutor(3) as ex:
        for n, r in ex.map(lambda x: build(x, "--write" not in sys.argv), names):
            print("%-22s %s" % (n, r), flush=True)
