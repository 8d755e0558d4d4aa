"""W01: reading a configuration in the editor and writing it back unchanged."""
import glob, os, io, tokenize
from vlib import env, meaning, cfggen
from vlib.editor import Editor, EditorError, PyEditor
from vlib.runner import Violation

ID = "W01"
RULE = "Read and written back, a configuration means the same (all definitions, names, sharing), keeps the user's comments outside the regenerated definitions, and a second round changes nothing."
CASES = {"quick": 320, "thorough": 2400}
FLOORS = {"round trips": 900, "definitions compared": 5000, "comments": 1000}
LEVEL_NOTE = ""
MAX_JOBS = 8
CASE_CPU_S = 120
WALL = {"quick": 500, "thorough": 850}


def comments(code):
    out = []
    for t in tokenize.generate_tokens(io.StringIO(code).readline):
        if t.type == tokenize.COMMENT:
            out.append(t.string)
    return out


def bad(rec, msg, **info):
    for k, v in info.items():
        rec.ev(k, v)
    raise Violation(msg)


def same(m0, code, rec, what, src):
    try:
        m1 = meaning.meaning(code["inputs_py"], code["display_py"])
    except meaning.Meaning as e:
        bad(rec, "%s: %s" % (what, e), source=src, written=code)
    for k in m0:
        if m0[k] != m1.get(k):
            bad(rec, "%s: %s in %s.py does not mean the same any more" % (what, k[1], k[0]), before=str(m0[k])[:3000], after=str(m1.get(k))[:3000], source=src, written=code)
        rec.n("definitions compared")
    extra = [k for k in m1 if k not in m0]
    if extra:
        bad(rec, "%s: definitions appeared: %r" % (what, extra), source=src, written=code)


def round_trips(i, d, rec, keep=None, what="round trip"):
    src = {"inputs_py": i, "display_py": d}
    m0 = meaning.meaning(i, d)
    # python parser only: nothing set
    p = PyEditor(i, d)
    same(m0, p.p.to_source(), rec, what + " without taking over the trees", src)
    rec.n("round trips")
    e = Editor(i, d)
    try:
        e.call("update")
        c1 = e.code()
        same(m0, c1, rec, what, src)
        rec.n("round trips")
        if keep:
            have = comments(c1["inputs_py"]) + comments(c1["display_py"])
            for c in keep:
                if have.count(c) != 1:
                    bad(rec, "%s: the comment %r outside of the regenerated definitions got %s" % (what, c, "lost" if c not in have else "duplicated"), source=src, written=c1)
                rec.n("comments")
        e.call("update")
        if e.code() != c1:
            bad(rec, "%s: writing a second time changes the code" % what, source=src, written=c1, again=e.code())
        rec.n("round trips")
    finally:
        e.close()
    e = Editor(c1["inputs_py"], c1["display_py"])
    try:
        e.call("update")
        if e.code() != c1:
            bad(rec, "%s: reading and writing the written code changes it again" % what, source=src, written=c1, again=e.code())
        rec.n("round trips")
    finally:
        e.close()


def run_case(rng, rec, tier):
    hostile = rng.random() < 0.8
    g = cfggen.Gen(rng, hostile)
    i, d = g.render()
    rec.sig((g.device, g.splash_kind, len(g.inputs), len(g.pagers), hostile, len(g.chunks["inputs"]), len(g.chunks["display"])))
    try:
        round_trips(i, d, rec, g.keep)
    except EditorError as e:
        bad(rec, "the editor cannot process a valid configuration: " + str(e)[:600], inputs=i, display=d)


def FIXED(tier):
    r = env.REPO
    fs = sorted(glob.glob(r + "/examples/**/inputs.py", recursive=True) + glob.glob(r + "/web/htdocs/templates/*/inputs.py") + [r + "/content/inputs.py"])
    return [os.path.relpath(f, r) for f in fs]


def run_fixed(case, rec, tier):
    f = os.path.join(env.REPO, case)
    dd = os.path.join(os.path.dirname(f), "display.py")
    if not os.path.exists(dd):
        dd = os.path.join(env.REPO, "content/display.py")
    try:
        round_trips(open(f).read(), open(dd).read(), rec, None, "round trip of " + case)
    except EditorError as e:
        bad(rec, "the editor cannot process %s: %s" % (case, str(e)[:600]))
    rec.n("shipped configurations")
