#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--files REGEX] [--limit N per file] [--seed S] [--jobs J]: automatic mutation campaign on Python sources of the firmware.

Mutants which survive the project's tests are given to the checks listed for their file (reduced number of cases); writes one line
per surviving mutant: {file, line, old, new, caught: [check..]}. Works on scratch copies in /tmp, one per worker.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LIB = "content/lib/pyswitch/"
K = LIB + "clients/kemper/"
MAP = [   # (path regex, checks)
    (K + "actions/(bank_select|bank_up_down|rig_up_down|rig_select|rig_select_and_morph).*", "K05 K06 K07 K08 K09 K11 B01"),
    (K + "actions/bank_select_encoder", "K09 C06 B01"),
    (K + "actions/effect_state.*", "K03 K02 K14 B01"),
    (K + "actions/.*", "K10 K04 K11 K14 B01"),
    (K + "mappings/.*", "M03 K10 K11 B01"),
    (K + "__init__", "K01 K02 K11 K12 K13 K03 K14 M07 M03 K10 B01"),
    (K + "callbacks", "K13"),
    (LIB + "clients/boomerang", "L01"),
    (LIB + "clients/local/actions/(custom|rotate)", "L01"),
    (LIB + "clients/local/actions/hid", "L02"),
    (LIB + "clients/local/actions/(param_change|fixed_text)", "L03"),
    (LIB + "clients/local/actions/pager.*", "C04"),
    (LIB + "clients/local/actions/.*", "C06 K04 W04"),
    (LIB + "clients/local/callbacks", "U02"),
    (LIB + "controller/client", "M03 M04 M05 M07 K01 K02 B06"),
    (LIB + "controller/controller", "M02 M01 C01 B02 M07 B06"),
    (LIB + "controller/midi", "M01 M02 M06"),
    (LIB + "controller/inputs", "C01 C05 C06 K11 B01"),
    (LIB + "controller/strobe", "K12"),
    (LIB + "controller/preview", "C07 C06 L03"),
    (LIB + "controller/explore", "B03"),
    (LIB + "controller/actions/Analog", "C05"),
    (LIB + "controller/actions/Encoder", "C06"),
    (LIB + "controller/actions/__init__", "C01 C02 C03 C04 L01"),
    (LIB + "controller/callbacks/effect_enable", "K03"),
    (LIB + "controller/callbacks/parameter_display", "K13 C07"),
    (LIB + "controller/callbacks/__init__", "K04 C04 C07 U02 K03"),
    (LIB + "controller/.*", "M02 B06"),
    (LIB + "debug_tools", "B06"),
    (LIB + "ui/.*", "U01 U02 U03 C07"),
    (LIB + "hardware/devices", "B04 M06 B02"),
    (LIB + "hardware/.*", "M06 B03"),
    (LIB + "process", "B02 B01"),
    (LIB + "(misc|colors)", "C03 M02 K01 U01 K10"),
    ("content/boot.py|examples/.*(boot|code).*", "B05"),
    ("web/htdocs/python/parser/.*", "W01 W02 W03"),
    ("web/htdocs/python/adafruit_midi/.*", "W06"),
    ("web/htdocs/python/(wrappers|PySwitchRunner|mocks).*", "W09"),
]
CASES = {"W01": 60, "W02": 40, "W03": 40, "W04": 30, "W09": 60, "K14": 200, "B01": 400, "W06": 5000}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
SWAP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}


def mutants(path):
    src = open(path, newline="").read()
    t = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    out = []

    def add(a, b, new, line):
        if src[a:b] != new:
            out.append((a, b, new, line))

    def docs(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            op = CMP[type(n.ops[0])]
            seg = src[a:b]
            if op in seg:
                i = seg.index(op)
                for new in SWAP[op]:
                    add(a + i, a + i + len(op), new, n.lineno)
        if isinstance(n, ast.BoolOp):
            op = "and" if isinstance(n.op, ast.And) else "or"
            for v, w in zip(n.values, n.values[1:]):
                a, b = span(v)[1], span(w)[0]
                m = re.search(r"\b%s\b" % op, src[a:b])
                if m:
                    add(a + m.start(), a + m.end(), "or" if op == "and" else "and", v.lineno)
            for v in n.values:
                a, b = span(v)
                add(a, b, "True" if op == "and" else "False", v.lineno)
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            add(a, b, "not (" + src[a:b] + ")", n.lineno)
            add(a, b, "False", n.lineno)
            add(a, b, "True", n.lineno)
        if isinstance(n, ast.While):
            pass
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            c, d = span(n.operand)
            add(a, b, src[c:d], n.lineno)
        if isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            for o, w in (("//", "/"), ("+", "-"), ("-", "+"), ("*", "+"), ("%", "*"), ("<<", ">>")):
                if src[a:b].strip(" ()") == o:
                    i = src[a:b].index(o)
                    add(a + i, a + i + len(o), w, n.lineno)
                    break
        if isinstance(n, ast.Constant):
            a, b = span(n)
            if n.value is True or n.value is False:
                add(a, b, str(not n.value), n.lineno)
            elif isinstance(n.value, int):
                add(a, b, str(n.value + 1), n.lineno)
                if n.value:
                    add(a, b, "0", n.lineno)
        if isinstance(n, ast.stmt) and n.lineno == n.end_lineno:
            a, b = span(n)
            if isinstance(n, ast.Expr) and not docs(n):
                add(a, b, "pass", n.lineno)
            if isinstance(n, ast.Assign) and not (isinstance(n.targets[0], ast.Name)):
                add(a, b, "pass", n.lineno)
            if isinstance(n, ast.AugAssign):
                add(a, b, "pass", n.lineno)
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
                add(a, b, "return None", n.lineno)
            if isinstance(n, (ast.Continue, ast.Break)):
                add(a, b, "pass", n.lineno)
            if isinstance(n, ast.Return) and n.value is None:
                add(a, b, "pass", n.lineno)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            pass
        if isinstance(n, ast.Call) and len(n.keywords) > 1:
            pass
    res = []
    seen = set()
    for a, b, new, line in out:
        s = src[:a] + new + src[b:]
        try:
            d = ast.dump(ast.parse(s))
        except SyntaxError:
            continue
        if d in seen:
            continue
        seen.add(d)
        res.append((a, b, new, line, src[a:b]))
    return src, res


W = {}


def winit():
    W["dir"] = tempfile.mkdtemp(prefix="mut-")
    W["repo"] = W["dir"] + "/repo"
    shutil.copytree(REPO, W["repo"], symlinks=True, ignore=shutil.ignore_patterns(".git"))
    os.makedirs(W["dir"] + "/root")
    os.symlink(W["repo"] + "/content/lib", W["dir"] + "/root/lib")


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def checks_for(rel):
    for r, c in MAP:
        if re.match(r, rel):
            return c.split()
    return []


def one(job):
    rel, a, b, new, line, old, only = job
    p = os.path.join(W["repo"], rel)
    orig = open(os.path.join(REPO, rel), newline="").read()
    try:
        open(p, "w", newline="").write(orig[:a] + new + orig[b:])
        if rel.startswith("content/lib"):
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=W["dir"] + "/root")
            rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + W["repo"], "test/pyswitch"], 60, cwd=W["repo"], env=env)
            if rc != 0:
                return None
        res = {"file": rel, "line": line, "old": old[:80], "new": new[:80], "src": orig.split("\n")[line - 1].strip()[:120], "caught": [], "not": [], "other": []}
        for c in only or checks_for(rel):
            m = {}
            cmd = [sys.executable, HERE + "/check.py", c, "--tier", "quick", "--jobs", "1", "--no-evidence"]
            src = open(HERE + "/props/" + c + ".py").read()
            q = int(re.search(r'"quick": (\d+)', src).group(1))
            cmd += ["--cases", str(CASES.get(c, max(300, q // 6)))]
            rc, o = run(cmd, 300, env=dict(os.environ, VERIF_REPO=W["repo"]))
            if rc == 1 and "VIOLATION property=" in o:
                res["caught"].append(c)
                break
            (res["not"] if rc == 0 else res["other"]).append(c if rc == 0 else c + ":" + str(rc) + " " + o.strip()[-150:])
            if rc == "timeout":
                break
        return res
    finally:
        open(p, "w", newline="").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=LIB)
    ap.add_argument("--limit", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    jobs = []
    for d, _, fs in sorted(os.walk(REPO)):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), REPO)
            if not f.endswith(".py") or not re.match(a.files, rel) or not checks_for(rel):
                continue
            try:
                _, ms = mutants(os.path.join(REPO, rel))
            except (SyntaxError, UnicodeDecodeError):
                continue
            rng.shuffle(ms)
            jobs += [(rel,) + m + (a.only.split() if a.only else None,) for m in ms[:a.limit]]
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    t0 = time.time()
    n = k = s = 0
    with Pool(a.jobs, winit) as pool, open(a.out, "a") as out:
        for r in pool.imap_unordered(one, jobs):
            n += 1
            if r:
                s += 1
                k += bool(r["caught"])
                out.write(json.dumps(r) + "\n")
                out.flush()
            if n % 50 == 0:
                print("%d/%d: %d survive the tests, %d caught, %.0f s" % (n, len(jobs), s, k, time.time() - t0), flush=True)
    print("done", n, s, k)


if __name__ == "__main__":
    main()
