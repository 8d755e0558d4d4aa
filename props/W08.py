"""Loading, editing and saving configurations in the web application: the real application in node against simulated browser services and controllers."""
import os
from vlib import env, runner, webapp

ID = "W08"
RULE = ("A case is a random history of what a user does (open presets, controllers, examples, templates, folders; edit; save here and there; rename and delete presets; reload the page; "
        "decline or confirm questions) with random contents and names, several MIDI ports (with and without bridge), folders changed from outside, and destinations which fail (read only, "
        "full after some chunks, no answer any more, not writable). Signature = the history.")
CASES = {"quick": 700, "thorough": 12000}
FLOORS = {"steps": 6000, "loads": 2500, "saves": 1500, "failed saves": 120, "edits": 1000, "declined": 100, "special names": 250}
LEVEL_NOTE = ("Exploration with a reference model of everything stored: after each step of the user, presets, the files on every controller and folder, the current configuration, its change mark "
              "and the messages shown are compared. The controllers are second instances of the MIDI bridge library with latency; the application, its UI code and sammy.js are the real ones.")
ASSUMPTIONS = ["the DOM, Web MIDI, local storage and the file system access API are stand-ins which survive page reloads", "the bridge of the controller (compiled, not executable here) is represented by the JavaScript "
               "implementation of the same protocol; it acknowledges a chunk after writing it", "Python, parser and emulator of the page are stand-ins"]
MAX_JOBS = 8

SPECIAL = ["100%", "A+B", "what?", "a#b", "50%41", "a/b", "Ümläut €", "a & b", "x=y;z", "'quoted' \"name\"", "  spaced  ", "\U0001F3B8 guitar", "%", "..", "<b>", "a%2Fb", "pyswitch-default 2", "[x]{y}|^`", "C:\\dir"]
PLAIN = ["a", "A", "Live", "live", "My Preset", "Rig 2", "Rig 21"]
EX = None


def check(cond, msg, **info):
    runner.check(cond, lambda: msg + "".join(", %s=%r" % (k, v if len(repr(v)) < 500 else repr(v)[:500]) for k, v in info.items()))


def text(r):
    k = r.randrange(6)
    n = r.choice([1, 5, 64, 65, 66, 100, 130, 131, 400, 1500])
    if k == 0:
        return "".join(r.choice("abc \n\t#'\"\\{}()[]=,.%&+$") for _ in range(n))
    if k == 1:
        return "".join(r.choice("ab\u00e4\u20ac\u00df\u4e2d\n") for _ in range(n))
    if k == 2:
        return "".join(r.choice("abcdefgh  \U0001F600\n") for _ in range(n))
    if k == 3:
        return "\r\n".join("line %d" % i for i in range(n // 8 + 1))
    if k == 4:
        return "x" * n
    return "Inputs = [\n" + "".join("    { 'id': %d },\n" % r.randrange(1000) for _ in range(n // 20)) + "]\n"


def data(r):
    return {"inputs_py": text(r), "display_py": text(r)}


def files(d):
    return {"inputs.py": d["inputs_py"], "display.py": d["display_py"]}


def name(r):
    return r.choice(SPECIAL) if r.random() < 0.5 else r.choice(PLAIN)


def examples():
    global EX
    if EX is None:
        EX = []
        for base, tpl in (("examples", False), ("web/htdocs/templates", True)):
            for d, dn, fn in sorted(os.walk(os.path.join(env.REPO, base))):
                rel = os.path.relpath(d, os.path.join(env.REPO, base))
                if [x for x in dn if not x.startswith((".", "_"))] or "inputs.py" not in fn or "display.py" not in fn or "MIDI Routings" in rel or "Multiboot" in rel:
                    continue
                EX.append((tpl, "/" + rel))
    return EX


def gen(r):
    """The history, made of steps which are possible (by what the model expects)"""
    pn = r.sample(SPECIAL + ["MIDI Captain", "Bus 1"], 3) if r.random() < 0.5 else ["MIDI Captain", "Bus 1", "Synth"]
    ports = [{"name": pn[i], "manufacturer": "m", "bridge": i < 2, "latency": r.choice([1, 5, 30]), "files": files(data(r))} for i in range(r.choice([0, 1, 2, 3, 3]))]
    folders = {"F": {}, "G": files(data(r))}
    n = r.randrange(3, 16)
    steps = []
    presets, folder_cfg = [], False
    for _ in range(n):
        k = r.random()
        a = {"confirm": r.random() < 0.85}
        if k < 0.2:
            steps.append({"op": "edit", "data": data(r)})
        elif k < 0.27:
            steps.append({"op": r.choice(["save", "save", "saveLast", "saveCurrentEntry"])})
        elif k < 0.40:
            if presets and r.random() < 0.3:
                steps.append({"op": "savePreset", "overwrite": True, "name": r.choice(presets)})
            else:
                nm = name(r)
                pr = [r.choice(presets)] if presets and r.random() < 0.2 else []
                pr += [nm] if r.random() < 0.93 else []
                steps.append({"op": "savePreset", "overwrite": False})
                a["prompt"] = pr
                presets.append(nm)
        elif k < 0.52 and ports:
            p = r.randrange(len(ports))
            steps.append({"op": "savePort", "name": ports[p]["name"]})
            if r.random() < 0.35:
                steps[-1]["faults"] = {str(p): r.choice(["readonly", 0, 0, 1, 2, r.randrange(30), "dead"])}
        elif k < 0.58:
            steps.append({"op": "saveFolder"})
            a["pick"] = r.choice(["F", "G", None]) if r.random() < 0.5 else "F"
        elif k < 0.66 and presets:
            steps.append({"op": "openPreset", "name": r.choice(presets)})
        elif k < 0.75 and ports:
            steps.append({"op": "openPort", "name": r.choice(ports)["name"]})
        elif k < 0.80:
            if r.random() < 0.3:
                steps.append({"op": "openDefault"})
            else:
                t, p = r.choice(examples())
                steps.append({"op": "openExample", "template": t, "path": p})
        elif k < 0.85:
            steps.append({"op": "openFolder"})
            a["pick"] = r.choice(["F", "G", "G", None])
        elif k < 0.88 and presets:
            steps.append({"op": "deletePreset", "name": r.choice(presets)})
        elif k < 0.92 and presets:
            steps.append({"op": "renamePreset", "name": r.choice(presets)})
            nm = r.choice(presets) if r.random() < 0.3 else name(r)
            a["prompt"] = [nm]
            presets.append(nm)
        elif k < 0.95:
            steps.append({"op": "external", "folder": r.choice(["F", "G"]), "files": {r.choice(["inputs.py", "display.py"]): text(r)}})
        elif k < 0.97:
            steps.append({"op": "folderFault", "fail": r.choice([False, "inputs.py", "display.py", "close:display.py"]), "folder": "F"})
        else:
            steps.append({"op": "reload"})
        steps[-1]["answers"] = a
    return {"seed": r.randrange(1 << 30), "ports": ports, "folders": folders, "observer": r.random() < 0.6, "steps": steps, "hash": ""}


def readweb(path):
    out = {}
    for k in ("inputs", "display"):
        with open(os.path.join(env.REPO, path, k + ".py"), newline="") as f:
            out[k + "_py"] = f.read()
    return out


class Model:
    def __init__(self, c):
        self.c = c
        self.presets = {}
        self.ports = {p["name"]: dict(p["files"]) for p in c["ports"]}
        self.bridge = {p["name"]: p["bridge"] for p in c["ports"]}
        self.folders = {k: dict(v) for k, v in c["folders"].items()}
        self.fail = {}
        self.cur = None            # (kind, target)
        self.data = None
        self.dirty = False
        self.last = None
        self.dir = None
        self.loose = set()         # stored things which may have any content (a save failed there)


KINDS = {"preset": "PresetConfiguration", "port": "ControllerConfiguration", "web": "WebConfiguration", "folder": "LocalFolderConfiguration"}


def run_case(rng, rec, tier):
    c = gen(rng)
    rec.sig(c)
    # The application decides what is possible; steps are run one by one in one go, then judged offline
    out = webapp.run("world", **c)["out"]
    judge(c, out, rec)


def messages(o, kind):
    return [e[2] for e in o["events"] if e[0] == "message" and e[1] == kind]


def judge(c, out, rec):
    M = Model(c)
    template = readweb("web/htdocs/templates/MIDICaptain 10")
    prev = {"hash": ""}
    stop = False
    for i, o in enumerate(out):
        s = {"op": "reload", "hash": ""} if i == 0 else c["steps"][i - 1]
        if stop:
            break
        rec.n("steps")
        stop = step(M, s, o, prev, rec, template, c)
        prev = o


def want_load(M, s, o, kind, target, data, rec, why, optional=False):
    """The configuration has to be loaded completely (or, where optional, nothing may have happened)"""
    cur = o["current"]
    ok = bool(cur) and cur["kind"] == KINDS[kind] and cur["data"] == data and cur["name"] == target
    if optional and not ok:
        return False
    check(ok, "%s: not loaded as stored" % why, step=s, wanted=(kind, target, data), got=cur, messages=messages(o, "E"), hash=o["hash"])
    check(not cur["dirty"], "%s: a configuration just loaded is marked as changed" % why, step=s)
    check(optional or not o["marker"], "%s: the change marker is shown for a configuration just loaded" % why, step=s)
    if any(e[0] == "run" for e in o["events"]):
        check([e[1] for e in o["events"] if e[0] == "run"][-1] == data, "the emulator runs something else than the configuration loaded", step=s)
        ed = {e[1]: e[2] for e in o["events"] if e[0] == "editor"}
        check(ed == {"inputs_py": data["inputs_py"], "display_py": data["display_py"]}, "the code editors show something else than the configuration loaded", step=s, shown=ed)
    M.cur, M.data, M.dirty = (kind, target), dict(data), False
    rec.n("loads")
    if target in SPECIAL:
        rec.n("special names")
    return True


def port_data(M, n):
    f = M.ports[n]
    return {"inputs_py": f["inputs.py"], "display_py": f["display.py"]}


def step(M, s, o, prev, rec, template, c):
    """Judges one step; returns True if the rest of the history is not to be judged"""
    op = s["op"]
    a = s.get("answers", {})
    before = (M.cur, M.data, M.dirty)
    dead = "dead" in (s.get("faults") or {}).values()
    check(o["bad"] == 0, "an invalid MIDI message has been sent", step=s)
    check(not any(e[0] == "duplicate" for e in o["events"]), "a preset is stored twice", step=s)
    asked = [e[1] for e in o["events"] if e[0] == "confirm"]
    success, errors = messages(o, "S"), messages(o, "E")
    stored = [m for m in success if "uccessfully saved" in m]
    missing = any(e[0] == "noentry" for e in o["events"])
    touched_preset, touched_port, touched_folder = set(), set(), set()
    end = False

    def declined():
        if asked and not a.get("confirm", True):
            rec.n("declined")
            return True
        return False

    def unchanged_current(why):
        cur = o["current"]
        if before[0] is None:
            check(cur is None, "%s: a configuration appeared" % why, step=s, got=cur)
            return
        check(bool(cur) and cur["kind"] == KINDS[before[0][0]] and cur["name"] == before[0][1] and cur["data"] == before[1], "%s: the current configuration changed" % why, step=s, before=before, got=cur, errors=errors)

    def navigate(kind, target, data, newhash_same):
        """Opening something from the browser"""
        if before[2]:
            check(asked, "unsaved changes are dropped without asking", step=s, now=o["current"] and o["current"]["name"])
        if declined():
            unchanged_current("declined")
            return
        if newhash_same:          # the page is there already: nothing needs to happen
            if want_load(M, s, o, kind, target, data, rec, op, optional=True):
                return
            unchanged_current("nothing to do") if o["current"] else None
            M.cur = before[0] if o["current"] else None
            return
        if data is None:
            check(errors, "loading failed without a message", step=s)
            check(o["current"] is None, "a configuration is current which could not be loaded", step=s)
            M.cur, M.data, M.dirty = None, None, False
            return
        want_load(M, s, o, kind, target, data, rec, op)

    same = o["hash"] == prev["hash"]
    if op == "reload":
        cur = o["current"]
        if not prev["hash"]:
            ports = [n for n in M.ports if M.bridge[n]]
            if ports:
                check(cur and cur["kind"] == KINDS["port"] and cur["name"] in ports, "no connected controller is loaded at startup", got=cur, errors=errors)
                want_load(M, s, o, "port", cur["name"], port_data(M, cur["name"]), rec, "startup")
                M.last = cur["name"]
            else:
                want_load(M, s, o, "web", "PySwitch Default", readweb("content"), rec, "startup")
        else:
            kind, target = M.where
            d = stored_data(M, kind, target, template)
            if kind == "folder" and d:
                target = M.dir
            if d is None:
                check(cur is None and errors, "loading something which does not exist (any more) is not reported", got=cur)
                M.cur, M.data, M.dirty = None, None, False
            else:
                want_load(M, s, o, kind, target, d, rec, "page reload")
                if kind == "port":
                    M.last = target
                if kind == "folder":
                    filled(M)
        if M.cur:
            M.where = M.cur
    elif op == "edit":
        if before[0] is None:
            unchanged_current("edit without configuration")
        else:
            cur = o["current"]
            check(cur and cur["data"] == s["data"], "an edit is not applied", step=s, got=cur, errors=errors)
            check(cur["dirty"], "a changed configuration is not marked as changed", step=s)
            M.data, M.dirty = dict(s["data"]), True
            rec.n("edits")
    elif op in ("openPreset", "openPort", "openExample", "openDefault"):
        if missing:
            check(op == "openPreset" and s["name"] not in M.presets, "a stored configuration is not offered for loading", step=s)
            unchanged_current("not offered")
        else:
            if op == "openPreset":
                t = ("preset", s["name"])
            elif op == "openPort":
                t = ("port", s["name"])
            elif op == "openDefault":
                t = ("web", "PySwitch Default")
            else:
                t = ("web", s["path"].split("/")[-1])
                M.web = getattr(M, "web", {})
                M.web[t[1]] = ("web/htdocs/templates" if s["template"] else "examples") + s["path"]
                if same and M.where == t and before[0] is None:
                    pass
            navigate(t[0], t[1], stored_data(M, t[0], t[1], template), same)
            if not same:
                M.where = t
            if M.cur == t and t[0] == "port":
                M.last = s["name"]
    elif op == "openFolder":
        if not a["pick"]:
            unchanged_current("no folder chosen")
        else:
            if before[2]:
                check(asked, "unsaved changes are dropped without asking", step=s)
            M.dir = a["pick"]
            if declined():
                unchanged_current("declined")
            else:
                open_folder(M, s, o, rec, template, same and not (before[0] and before[0][0] == "folder"), unchanged_current)
            if not same:
                M.where = ("folder", None)
    elif op in ("save", "saveLast", "saveCurrentEntry", "savePort"):
        if op == "saveLast":
            t = ("port", M.last) if M.last else None
        elif op == "savePort":
            t = ("port", s["name"])
            check(not missing, "a connected controller is not offered for saving", step=s)
        else:
            t = before[0] if before[0] and before[0][0] != "web" else None
        if before[0] is None:
            t = None
        fails = t is None
        skip = False
        if op == "savePort" and before[0] is not None and declined():
            skip = True
        if t and t[0] == "port":
            f = (s.get("faults") or {}).get(str(list(M.ports).index(t[1])))
            chunks = chunk_count(before[1])
            if not M.bridge[t[1]] or f in ("readonly", "dead") or (isinstance(f, int) and f < max(chunks)):
                fails = True
        if t and t[0] == "folder" and M.fail.get(M.dir):
            fails = True
        if skip:
            check(not stored, "declined, but saved", step=s)
            unchanged_current("declined")
        elif fails:
            rec.n("failed saves", t is not None)
            check(not stored, "success is reported although saving failed", step=s, messages=success, ports=o["ports"])
            if not dead and not (missing and (t is None or op == "saveCurrentEntry" and before[0][0] == "web")):
                check(errors or any(e[0] == "popup" for e in o["events"]), "saving failed, but the user is told nothing", step=s, events=o["events"], error=o["error"])
            unchanged_current("failed save")
            if before[2]:
                check(o["current"]["dirty"], "saving failed, but the configuration is no longer marked as changed", step=s)
            if t and t[0] == "port":
                touched_port.add(t[1])
            elif t and t[0] == "folder":
                touched_folder.add(M.dir)
            end = dead
        else:
            rec.n("saves")
            check(stored, "saving is not confirmed", step=s, events=[e for e in o["events"] if e[0] in ("message", "popup")], error=o["error"], done=o["done"])
            if t[0] == "port":
                M.ports[t[1]].update(files(before[1]))
                M.last = t[1]
            elif t[0] == "preset":
                M.presets[t[1]] = dict(before[1])
            else:
                M.folders[M.dir].update(files(before[1]))
            unchanged_current("save")
            check(not o["current"]["dirty"], "saved, but still marked as changed", step=s)
            M.dirty = False
    elif op == "savePreset":
        if missing:
            check(s["overwrite"] and s["name"] not in M.presets, "saving as preset is not offered", step=s)
            unchanged_current("not offered")
        elif before[0] is None:
            check(not stored, "nothing to save, but success reported", step=s)
            unchanged_current("nothing to save")
        else:
            if s["overwrite"]:
                nm = s["name"]
                check(asked, "a preset is overwritten without asking", step=s)
                if declined():
                    nm = None
            else:
                nm = next((x for x in a["prompt"] if x not in M.presets), None)
            if nm is None:
                check(not stored, "canceled, but saved", step=s)
                unchanged_current("canceled")
            else:
                rec.n("saves")
                check(any("preset" in m for m in stored), "saving is not confirmed", step=s, errors=errors)
                M.presets[nm] = dict(before[1])
                if not want_load(M, s, o, "preset", nm, before[1], rec, "saved preset", optional=same):
                    unchanged_current("saved preset")
                    check(not o["current"]["dirty"], "saved, but still marked as changed", step=s)
                    M.dirty = False
                else:
                    M.where = ("preset", nm)
    elif op == "saveFolder":
        if before[0] is None or not a["pick"]:
            check(not stored, "nothing to save (or no folder), but success reported", step=s)
            unchanged_current("nothing to save")
            if before[0] is not None or a["pick"]:
                M.dir = a["pick"] if a["pick"] and before[0] is not None else M.dir
        else:
            M.dir = a["pick"]
            if M.fail.get(M.dir):
                rec.n("failed saves")
                check(not stored and errors, "saving to the folder failed, but this is not reported", step=s, messages=success)
                unchanged_current("failed save") if before[0][0] != "folder" else None
                check(o["current"] and o["current"]["data"] == before[1], "saving failed and the configuration is gone", step=s)
                if before[2]:
                    check(o["current"]["dirty"], "saving failed, but the configuration is no longer marked as changed", step=s)
                touched_folder.add(M.dir)
                end = True
            else:
                rec.n("saves")
                check(any("folder" in m for m in stored), "saving is not confirmed", step=s, errors=errors)
                M.folders[M.dir].update(files(before[1]))
                d = before[1]
                if not want_load(M, s, o, "folder", M.dir, d, rec, "saved folder", optional=same and before[0][0] != "folder"):
                    unchanged_current("saved folder")
                    M.dirty = False
            if not same:
                M.where = ("folder", None)
    elif op == "deletePreset":
        if missing:
            check(s["name"] not in M.presets, "a preset cannot be deleted", step=s)
        else:
            check(asked, "a preset is deleted without asking", step=s)
            if not declined():
                M.presets.pop(s["name"])
        unchanged_current("delete preset")
    elif op == "renamePreset":
        if missing:
            check(s["name"] not in M.presets, "a preset cannot be renamed", step=s)
        else:
            nm = a["prompt"][0]
            if nm == s["name"]:
                pass
            elif nm in M.presets and nm in o["presets"] and o["presets"][nm] == M.presets[nm] and s["name"] in o["presets"]:
                check(errors or len([e for e in o["events"] if e[0] == "prompt"]) > 1 or asked, "renaming is refused without telling", step=s)
            else:
                check(nm not in M.presets or (asked and a.get("confirm", True)), "renaming a preset destroys another one", step=s, presets=sorted(M.presets))
                M.presets[nm] = M.presets.pop(s["name"])
        unchanged_current("rename preset")
    elif op == "external":
        M.folders[s["folder"]].update(s["files"])
        watched = c["observer"] and before[0] and before[0][0] == "folder" and before[0][1] == s["folder"]
        d = {"inputs_py": M.folders[s["folder"]].get("inputs.py", ""), "display_py": M.folders[s["folder"]].get("display.py", "")}
        for k in d:
            d[k] = d[k] or template[k]
        if watched and not before[2] and want_load(M, s, o, "folder", s["folder"], d, rec, "changed files", optional=not live(M, before)):
            filled(M)
        else:
            if before[2]:
                if not (asked and a.get("confirm", True)):
                    unchanged_current("files changed outside while there are unsaved changes")
                    check(o["current"]["dirty"], "no longer marked as changed", step=s)
                else:
                    end = True
            elif not watched:
                unchanged_current("unrelated files changed outside")
    elif op == "folderFault":
        M.fail[s["folder"]] = s["fail"]
    cur = o["current"]
    if cur and cur["dirty"]:
        check(o["marker"], "the configuration has unsaved changes, but no change marker is shown", step=s)
    if cur and M.cur and not end:
        check(cur["dirty"] == M.dirty, "change mark of the configuration: %r, expected %r" % (cur["dirty"], M.dirty), step=s)
    # Everything stored
    for n in touched_port:
        M.ports[n] = dict(o["ports"][list(M.ports).index(n)])
    for n in touched_folder:
        M.folders[n] = dict(o["folders"][n])
    check(o["presets"] == M.presets, "stored presets", step=s, got=o["presets"], expected=M.presets)
    for n, f in zip(M.ports, o["ports"]):
        check(f == M.ports[n], "files on controller %r" % n, step=s, got=f, expected=M.ports[n])
    for n, f in o["folders"].items():
        g = {k: v for k, v in f.items() if v != ""}
        w = {k: v for k, v in M.folders[n].items() if v != ""}
        check(g == w, "files in folder %r" % n, step=s, got=g, expected=w)
    rec.n("midi bytes", o["bytes"])
    rec.state((op, M.cur and M.cur[0], M.dirty, len(M.presets)))
    return end


def live(M, before):
    return True


def filled(M):
    pass


def chunk_count(d):
    return [-(-len(x.encode("utf-16-le")) // 2 // 65) for x in (d["inputs_py"], d["display_py"])]


def stored_data(M, kind, target, template):
    if kind == "preset":
        return M.presets.get(target)
    if kind == "port":
        return port_data(M, target) if M.bridge.get(target) and len(M.ports[target]) == 2 else None
    if kind == "folder":
        if not M.dir:
            return None
        f = M.folders[M.dir]
        return {"inputs_py": f.get("inputs.py") or template["inputs_py"], "display_py": f.get("display.py") or template["display_py"]}
    if target == "PySwitch Default":
        return readweb("content")
    return readweb(M.web[target])


def open_folder(M, s, o, rec, template, same, unchanged_current):
    d = stored_data(M, "folder", None, template)
    if not want_load(M, s, o, "folder", M.dir, d, rec, "open folder", optional=same):
        if o["current"]:
            unchanged_current("folder open already")


def teardown():
    webapp.stop()
