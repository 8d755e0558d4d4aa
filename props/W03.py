"""W03: imports in the code the editor writes."""
import ast, builtins
from vlib import env, meaning, edits, catalogue
from vlib.edits import bad
from vlib.editor import Editor, EditorError
from vlib.runner import Violation

ID = "W03"
RULE = "In the code written after every edit all names are bound, framework imports name the defining module and are used, and imports of the user which are used stay."
CASES = {"quick": 170, "thorough": 1800}
FLOORS = {"edits": 1300, "names bound": 25000, "framework imports": 8000, "user imports": 150}
LEVEL_NOTE = ""
CASE_CPU_S = 120
WALL = {"quick": 600, "thorough": 850}
FRAMEWORK = ("pyswitch", "adafruit_midi", "adafruit_hid", "display")

_real = {}


def framework(mod):
    return (mod or "").split(".")[0] in FRAMEWORK


def exists(mod, name):
    """Does the firmware have this name (source level: the device sees these files)"""
    if (mod, name) not in _real:
        W = env.World()
        try:
            m = W.imp(mod)
            r = hasattr(m, name)
        except ImportError:
            r = False
        _real[mod, name] = r
    return _real[mod, name]


def scan(code):
    """Imports on module level [(mod, name, bound, block)], all bound names, all loaded names"""
    tree = ast.parse(code)
    imps, block = [], 0
    for st in tree.body:
        if isinstance(st, ast.ImportFrom):
            for a in st.names:
                imps.append((st.module, a.name, a.asname or a.name, block))
        elif isinstance(st, ast.Import):
            for a in st.names:
                imps.append((a.name, None, a.asname or a.name.split(".")[0], block))
        else:
            block += 1
    bound, loaded = set(dir(builtins)), set()
    stars = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            (loaded if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            bound.add(n.name)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == "*":
                    stars.append(n.module)
                else:
                    bound.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
    return imps, bound, loaded, stars


def check_code(rec, code, before, what):
    """before: imports (mod, name, bound) which the user's code had, by file"""
    disp = scan(code["display_py"])
    for f, key in (("display_py", "display.py"), ("inputs_py", "inputs.py")):
        imps, bound, loaded, stars = scan(code[f])
        for s in stars:
            bound |= set(meaning.star_names(s)) if s != "display" else disp[1]
        for n in sorted(loaded):
            if n not in bound:
                bad(rec, "%s: %s uses %s, which is not defined or imported" % (what, key, n), code=code)
            rec.n("names bound")
        old = before[f]
        last = {}
        for mod, name, b, block in imps:
            if name == "*":
                continue
            if name is not None and mod == "display":
                if name not in disp[1]:
                    bad(rec, "%s: %s imports %s from display.py, which does not define it" % (what, key, name), code=code)
            elif name is not None and framework(mod):
                if (mod, name, b) not in old and not exists(mod, name):
                    bad(rec, "%s: %s imports %s from %s, which does not have it" % (what, key, name, mod), code=code)
                if (mod, name, b) not in old and meaning.origin(mod, name) != (mod, name):
                    bad(rec, "%s: the editor added an import of %s from %s, but it is defined in %s" % (what, name, mod, meaning.origin(mod, name)[0]), code=code)
            if framework(mod):
                rec.n("framework imports")
                if b not in loaded:
                    bad(rec, "%s: %s still imports %s from %s, which is not used" % (what, key, name, mod), code=code)
                if (b, block) in last:
                    bad(rec, "%s: %s imports %s twice" % (what, key, b), code=code)
                last[b, block] = 1
            elif (mod, name, b) not in old:
                # not of the user, not of the framework
                if mod != "micropython":
                    bad(rec, "%s: an import of %s from %s appeared in %s" % (what, name, mod, key), code=code)
        have = {(m, n, b) for m, n, b, _ in imps}
        for m, n, b in old:
            if not framework(m) and b in loaded:
                rec.n("user imports")
                if (m, n, b) not in have:
                    bad(rec, "%s: the import of %s from %s in %s is lost, but still used" % (what, n, m, key), code=code)


def imports_of(code):
    return {(m, n, b) for m, n, b, _ in scan(code)[0]}


def run_case(rng, rec, tier):
    st = {}

    def observe(s, code):
        if "before" not in st:
            st["before"] = {"inputs_py": imports_of(s.src[0]), "display_py": imports_of(s.src[1])}
            st["steps"] = 0
        if s.steps[-1:] == ["source"] or (code["inputs_py"], code["display_py"]) == s.src:
            return      # the user's own text, written again with the next update
        check_code(rec, code, st["before"], "after %s" % s.steps[-4:])
        rec.n("states checked")
    s = edits.Session(rng, rec, observe)
    s.run(rng.randrange(2, 6))
    rec.sig((s.g.device, s.g.style, tuple(s.steps)))


# ------------------------------------------------------------------ everything the editor offers
def FIXED(tier):
    return [["action", k] for k in range(len(catalogue.items("actions")))] + [["callback", k] for k in range(len(catalogue.items("callbacks")))] + [["mappings", k] for k in range(8)] + [["keycodes", 0]]


def run_fixed(case, rec, tier):
    catalogue.load()
    e = Editor(*catalogue.template())
    try:
        src = e.code()
        before = {f: imports_of(src[f]) for f in ("inputs_py", "display_py")}
        kind, k = case
        if kind == "callback":
            return callback(e, rec, before, *catalogue.items("callbacks")[k])
        if kind == "action":
            cl, item = catalogue.items("actions")[k]
            todo = [(item, a) for a in catalogue.variants(item, 4 if tier == "quick" else 20)]
        else:
            by = {a["name"]: a for _, a in catalogue.items("actions")}
            if kind == "mappings":
                vals = [o["value"] for o in catalogue.load()["options"]]
                todo = [(by[n], catalogue.arguments(by[n], {"mapping": v})) for n in ("AnalogAction", "EncoderAction", "BINARY_SWITCH", "PARAMETER_UP_DOWN") for v in vals][k::8]
            else:
                vals = [o["name"] for o in catalogue.load()["keycodes"]]
                todo = [(by["HID_KEYBOARD"], catalogue.arguments(by["HID_KEYBOARD"], {"keycodes": "[%s]" % ", ".join(vals[x:x + 8])})) for x in range(0, len(vals), 8)]
        # the first alone, then some at once
        step = 10 if tier == "quick" else 3
        for chunk in [todo[:1]] + [todo[x:x + step] for x in range(1, len(todo), step)]:
            for t in {t[0]["target"] for t in chunk}:
                add(e, rec, before, [c for c in chunk if c[0]["target"] == t], HW[t])
    except EditorError as x:
        bad(rec, "the editor fails with what it offers (%s): %s" % (case, str(x)[:600]))
    finally:
        e.close()


HW = {"AdafruitSwitch": "1", "AdafruitPotentiometer": "Exp1", "AdafruitEncoder": "Wheel"}


def add(e, rec, before, chunk, input_name):
    lst, what = [], []
    for item, args in chunk:
        rec.ev("add", item["name"], args)
        name = item["name"]
        if name == "PagerAction.proxy":
            lst += [{"name": "PagerAction", "assign": "_pgr", "arguments": [{"name": "pages", "value": [{"id": "1", "color": "Colors.RED"}]}]}, {"name": "_pgr.proxy", "assign": None, "arguments": [{"name": "page_id", "value": "1"}]}]
            what.append(name)
            continue
        if name == "PagerAction":
            args = [{"name": a["name"], "value": [{"id": "1", "color": "Colors.RED"}, {"id": "2", "text": '"x"'}]} if a["name"] == "pages" else a for a in args]
        what.append("%s(%s)" % (name, ", ".join("%s = %s" % (a["name"], a["value"]) for a in args)))
        lst.append({"name": name, "assign": "_pager_%d" % len(lst) if name == "PagerAction" else None, "arguments": args})
    what = "adding " + ", ".join(what)
    # replaces everything on this input, so that stale imports show
    e.call("edit", name=input_name, edits=[{"op": "set", "actions": lst}])
    code = e.code()
    check_code(rec, code, before, what)
    calls = [ast.unparse(c.func) for c in ast.walk(ast.parse(code["inputs_py"])) if isinstance(c, ast.Call)]
    for x in lst:
        if x["name"] not in calls:
            bad(rec, what + ": the call is not in the code", code=code)
    try:
        meaning.run(code["inputs_py"], code["display_py"])
    except meaning.Meaning as x:
        bad(rec, "%s: %s" % (what, x), code=code)
    rec.n("offered combinations added", len(lst))


def callback(e, rec, before, client, item):
    for args in catalogue.variants(item, 5):
        tree = e.call("splashes")
        old = e.call("splashes")
        inner = tree
        while inner.get("name") in ("TunerDisplayCallback", "SplashesCallback"):
            inner = inner["arguments"][0]["value"]
        # the user interface: callbacks of labels are arguments of the label, splash callbacks wrap the element
        if item["target"] == "DisplayLabel" or not any(p["name"].startswith("splash") for p in item["params"]):
            ch = edits.find_children(tree)["value"]
            data = {"name": item["name"], "arguments": args}
            ch[0]["arguments"] = [a for a in ch[0]["arguments"] if a["name"] != "callback"] + [{"name": "callback", "value": data}]
            new = tree
        else:
            key = [p["name"] for p in item["params"] if p["name"].startswith("splash")][0]
            new = {"name": item["name"], "arguments": [{"name": key, "value": inner}] + [a for a in args if a["name"] != key]}
        rec.ev("splashes", new)
        e.call("setSplashes", splashes=new)
        code = e.code()
        what = "using %s(%s)" % (item["name"], ", ".join("%s = %s" % (a["name"], a["value"]) for a in args))
        check_code(rec, code, before, what)
        try:
            meaning.run(code["inputs_py"], code["display_py"])
        except meaning.Meaning as x:
            bad(rec, "%s: %s" % (what, x), code=code)
        if item["name"] + "(" not in code["display_py"]:
            bad(rec, what + ": not in the code", code=code)
        e.call("setSplashes", splashes=old)
        check_code(rec, e.code(), before, what + " and going back")
        rec.n("offered combinations added")
