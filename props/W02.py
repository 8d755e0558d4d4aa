"""W02: editing in the web application's configuration editor."""
from vlib import meaning, edits
from vlib.edits import bad

ID = "W02"
RULE = "After every edit the configuration means what the edited data describes; all other items, definitions and comments are as before."
CASES = {"quick": 190, "thorough": 2000}
FLOORS = {"edits": 1500, "definitions compared": 8000, "handles read": 900}
LEVEL_NOTE = ""
CASE_CPU_S = 120
WALL = {"quick": 500, "thorough": 850}


def observe(s, code):
    from props.W01 import comments
    rec, g = s.rec, s.g
    try:
        m1 = meaning.meaning(code["inputs_py"], code["display_py"])
    except meaning.Meaning as e:
        bad(rec, "after %s: %s" % (s.steps[-4:], e), code=code)
    exp = s.expected()
    m0 = meaning.meaning(*exp)
    for k in m0:
        if m0[k] != m1.get(k):
            bad(rec, "after %s: %s in %s.py is not as expected" % (s.steps[-4:], k[1], k[0]), expected=str(m0[k])[:4000], found=str(m1.get(k))[:4000], code=code, model=exp)
        rec.n("definitions compared")
    extra = [k for k in m1 if k not in m0]
    if extra:
        bad(rec, "after %s: unexpected definitions %r" % (s.steps[-4:], extra), code=code)
    have = comments(code["inputs_py"]) + comments(code["display_py"])
    for c in g.keep:
        if have.count(c) != 1:
            bad(rec, "after %s: the comment %r is there %d times" % (s.steps[-4:], c, have.count(c)), code=code)
    # the editor itself shows the new state
    if g.inputs:
        i = s.rng.choice(g.inputs)
        for held in (False, True):
            r = s.call("read", name=s.model_name(i.assignment), held=held)
            if r is None:
                bad(rec, "after %s: the editor does not find the input %s" % (s.steps[-4:], i.assignment), code=code)
            for key, lst in (("actions", i.actions), ("hold", i.hold)):
                want = [(it.name, it.assign) for it in lst or []]
                got = [(a["name"], a["assign"]) for a in r[key]]
                if got != want:
                    bad(rec, "after %s: the editor shows %s %r for %s, expected %r" % (s.steps[-4:], key, got, i.assignment, want), code=code)
            t = i.opts.get("holdTimeMillis")
            if (str(r["time"]) if r["time"] is not None else None) != t:
                bad(rec, "after %s: the editor shows the hold time %r of %s, expected %r" % (s.steps[-4:], r["time"], i.assignment, t), code=code)
            if str(r["repeat"]) != str(i.opts.get("holdRepeat")):
                bad(rec, "after %s: the editor shows hold repeat %r of %s, expected %r" % (s.steps[-4:], r["repeat"], i.assignment, i.opts.get("holdRepeat")), code=code)
            rec.n("handles read")


def run_case(rng, rec, tier):
    s = edits.Session(rng, rec, observe)
    s.run(rng.randrange(2, 6))
    rec.sig((s.g.device, s.g.splash_kind, tuple(s.steps)))
