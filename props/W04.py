"""W04: the editor's catalogue against the firmware."""
import ast, inspect, json, os, shutil, sys, tempfile, types
from vlib import env, catalogue, kdev, rig, edits
from vlib.edits import bad
from vlib.editor import Editor, EditorError
from vlib.runner import Violation

ID = "W04"
RULE = ("Fixed cases: every catalogue entry is compared with the imported firmware (module, name, parameters, defaults, offered values), and used with its default and every offered value in a configuration written by the editor, which the real process.py runs on the simulated board. "
        "Random cases: configurations of random entries with random offered values for random parameters, used randomly. Signature = entries and values.")
CASES = {"quick": 110, "thorough": 1500}
FLOORS = {"random combinations run": 1400, "pushed": 4000, "ticks": 30000}
LEVEL_NOTE = "Exploration: all entries and all offered values (a sample of long value lists in the quick tier); combinations of values at random. Values typed in by the user freely are not offered and not covered."
WALL = {"quick": 600, "thorough": 850}

SWITCHES = ["1", "2", "3", "4", "Up", "A", "B", "C", "D", "Down"]


def setup(tier):
    catalogue.load()


def FIXED(tier):
    out = [["entry", g, k] for g in ("actions", "mappings", "callbacks") for k in range(len(catalogue.items(g)))]
    out += [["values", k] for k in ("colors", "keycodes", "fonts", "options")]
    for k, (c, a) in enumerate(catalogue.items("actions")):
        n = len(variants(a, tier))
        out += [["run", k, x] for x in range(0, n, 10)]
    out += [["callback", k] for k in range(len(catalogue.items("callbacks")))]
    opts = len(catalogue.load()["options"])
    out += [["mapping", n, x] for n in ("AnalogAction", "EncoderAction", "BINARY_SWITCH", "PARAMETER_UP_DOWN") for x in range(0, opts, 10)]
    return out


def variants(a, tier):
    return [v for v in catalogue.variants(a, lim(tier)) if colored(v) and all(usable(x["value"]) for x in v if x["name"] == "mapping")]


def lim(tier):
    return 5 if tier == "quick" else 130


def run_fixed(case, rec, tier):
    try:
        if case[0] == "entry":
            entry(rec, *catalogue.items(case[1])[case[2]], case[1])
        elif case[0] == "values":
            values(rec, case[1])
        elif case[0] == "run":
            a = catalogue.items("actions")[case[1]][1]
            use(rec, [(a, v) for v in variants(a, tier)[case[2]:case[2] + 10]], None, 70)
        elif case[0] == "mapping":
            a = [a for _, a in catalogue.items("actions") if a["name"] == case[1]][0]
            use(rec, [(a, catalogue.arguments(a, {"mapping": o["value"]})) for o in catalogue.load()["options"][case[2]:case[2] + 10] if usable(o["value"])], None, 60)
        else:
            callback(rec, *catalogue.items("callbacks")[case[1]])
    except EditorError as x:
        bad(rec, "the editor fails with what it offers (%s): %s" % (case, str(x)[:600]))


# ------------------------------------------------------------------ entries
def entry(rec, client, item, group):
    W = env.World()
    what = "%s %s (client %s)" % (group, item["name"], client)
    try:
        mod = W.imp(item["importPath"])
    except ImportError as e:
        raise Violation("%s: the module %s cannot be imported: %s" % (what, item["importPath"], e))
    o = mod
    for n in item["name"].split("."):
        if not hasattr(o, n):
            raise Violation("%s does not exist in %s" % (what, item["importPath"]))
        o = getattr(o, n)
    if item["importName"] and not hasattr(mod, item["importName"]):
        raise Violation("%s: %s cannot be imported from %s" % (what, item["importName"], item["importPath"]))
    if not callable(o):
        raise Violation("%s cannot be called" % what)
    ps = [p for p in inspect.signature(o).parameters.values() if p.name != "self"]
    if item["name"].endswith(".proxy") and inspect.isfunction(o):
        pass
    want = [p.name for p in ps]
    got = [p["name"] for p in item["params"]]
    if want != got:
        raise Violation("%s: offered parameters %r, the firmware has %r" % (what, got, want))
    for p, q in zip(ps, item["params"]):
        rec.n("parameters compared")
        if p.default is inspect.Parameter.empty:
            if q["default"] is not None:
                raise Violation("%s: parameter %s is offered as optional (%s), but required" % (what, p.name, q["default"]))
            continue
        if q["default"] is None:
            raise Violation("%s: parameter %s is offered as required, but has the default %r" % (what, p.name, p.default))
        try:
            v = eval(q["default"], dict(vars(sys.modules[o.__module__])))
        except Exception as e:
            raise Violation("%s: the default %s of %s cannot be evaluated: %r" % (what, q["default"], p.name, e))
        if type(v) is not type(p.default) or (v != p.default and not hasattr(v, "__dict__")):
            raise Violation("%s: the default of %s is offered as %s, the firmware has %r" % (what, p.name, q["default"], p.default))
    rec.n("entries compared")


def values(rec, key):
    W = env.World()
    for v in catalogue.load()[key]:
        if key == "fonts":
            if not os.path.isfile(os.path.join(env.REPO, "content", v.lstrip("/"))):
                raise Violation("the font %s is offered, but does not exist" % v)
        elif key == "options":
            option(v["value"])
        else:
            cls = W.get("pyswitch.colors:Colors") if key == "colors" else W.get("adafruit_hid.keycode:Keycode")
            ref = keycodes() if key == "keycodes" else None
            c, n = v["name"].split(".")
            if not v["value"][:1] in "(0123456789":
                continue                # alias of another one
            val = ast.literal_eval(v["value"])
            real = getattr(cls, n, None) if key == "colors" else ref.get(n)
            if real != val:
                raise Violation("%s is offered with the value %r, in the firmware it is %r" % (v["name"], val, real))
        rec.n("values compared")
    if key == "colors":
        names = {v["name"] for v in catalogue.load()[key]}
        for n, c in vars(W.get("pyswitch.colors:Colors")).items():
            if isinstance(c, tuple) and "Colors." + n not in names:
                raise Violation("Colors.%s is not offered" % n)


def mapping_of(text):
    W = env.World()
    name = text.split("(")[0]
    item = [a for _, a in catalogue.items("mappings") if a["name"] == name][0]
    ns = {"KemperEffectSlot": W.get("pyswitch.clients.kemper:KemperEffectSlot")}
    n = name.split(".")[0]
    ns[n] = getattr(W.imp(item["importPath"]), n)
    return eval(text, ns)


# control changes of the device (see its MIDI documentation)
CCS = [1, 4, 7, 11, 17, 18, 19, 20, 22, 24, 26, 27, 28, 29, 30, 31, 33, 35, 47, 48, 49, 50, 51, 52, 53, 54, 68, 69, 70, 71, 73, 75, 76, 77, 78, 80, 88, 89, 90, 91, 92, 93, 94, 97, 98, 99]


def option(text):
    """A mapping offered for parameters: can be created and talks about something the device knows"""
    try:
        m = mapping_of(text)
    except Exception as e:
        raise Violation("the mapping %s is offered, but cannot be created: %s: %s" % (text, type(e).__name__, e))
    for msg in m.set if isinstance(m.set, list) else [m.set] if m.set else []:
        if type(msg).__name__ == "ControlChange" and "SEND_" not in text and msg.control not in CCS:
            raise Violation("the mapping %s is offered, which sets control change %d: the device has none with this number" % (text, msg.control))


def usable(text):
    """Texts cannot be switched or moved"""
    m = mapping_of(text)
    return m.type != m.PARAMETER_TYPE_STRING


def keycodes():
    """The keycodes of the copy of the library which comes with the emulator, or the USB standard"""
    import string
    out = {c: 4 + i for i, c in enumerate(string.ascii_uppercase)}
    out.update(zip("ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE ZERO ENTER ESCAPE BACKSPACE TAB SPACEBAR MINUS EQUALS LEFT_BRACKET RIGHT_BRACKET BACKSLASH POUND SEMICOLON QUOTE GRAVE_ACCENT COMMA PERIOD FORWARD_SLASH CAPS_LOCK F1 F2 F3 F4 F5 F6 F7 F8 F9 F10 F11 F12 PRINT_SCREEN SCROLL_LOCK PAUSE INSERT HOME PAGE_UP DELETE END PAGE_DOWN RIGHT_ARROW LEFT_ARROW DOWN_ARROW UP_ARROW KEYPAD_NUMLOCK KEYPAD_FORWARD_SLASH KEYPAD_ASTERISK KEYPAD_MINUS KEYPAD_PLUS KEYPAD_ENTER KEYPAD_ONE KEYPAD_TWO KEYPAD_THREE KEYPAD_FOUR KEYPAD_FIVE KEYPAD_SIX KEYPAD_SEVEN KEYPAD_EIGHT KEYPAD_NINE KEYPAD_ZERO KEYPAD_PERIOD KEYPAD_BACKSLASH APPLICATION POWER KEYPAD_EQUALS F13 F14 F15 F16 F17 F18 F19 F20 F21 F22 F23 F24".split(), range(0x1e + 0, 0x74)))
    out.update(LEFT_CONTROL=0xE0, LEFT_SHIFT=0xE1, LEFT_ALT=0xE2, LEFT_GUI=0xE3, RIGHT_CONTROL=0xE4, RIGHT_SHIFT=0xE5, RIGHT_ALT=0xE6, RIGHT_GUI=0xE7)
    out.update(RETURN=0x28, SPACE=0x2C, CONTROL=0xE0, SHIFT=0xE1, ALT=0xE2, OPTION=0xE2, GUI=0xE3, COMMAND=0xE3, WINDOWS=0xE3)
    return out


# ------------------------------------------------------------------ use on the device
def callback(rec, client, item):
    for args in catalogue.variants(item, 6):
        e = Editor(*catalogue.template())
        try:
            tree = e.call("splashes")
            inner = tree
            while inner.get("name") in ("TunerDisplayCallback", "SplashesCallback"):
                inner = inner["arguments"][0]["value"]
            key = [p["name"] for p in item["params"] if p["name"].startswith("splash")]
            if key:
                new = {"name": item["name"], "arguments": [{"name": key[0], "value": inner}] + [a for a in args if a["name"] != key[0]]}
            else:
                ch = edits.find_children(tree)["value"]
                ch[0]["arguments"] = [a for a in ch[0]["arguments"] if a["name"] != "callback"] + [{"name": "callback", "value": {"name": item["name"], "arguments": args}}]
                new = tree
            e.call("setSplashes", splashes=new)
            code = e.code()
        finally:
            e.close()
        rec.ev("splashes", new)
        run(rec, code, "%s(%s)" % (item["name"], ", ".join("%s = %s" % (a["name"], a["value"]) for a in args)), 60, None)
        rec.n("combinations run")


def colored(args):
    """Labels used by actions need an initial background color (documented)"""
    return not any(a["value"] in ("DISPLAY_RIG_NAME", "DISPLAY_VERSION") for a in args)


def arrange(rec, chunk):
    """Actions with arguments, each on an input of its own if possible: (code, texts, actions per input)"""
    e = Editor(*catalogue.template())
    what = []
    try:
        e.call("edit", name="WhlButton", edits=[{"op": "set", "actions": [{"name": "ENCODER_BUTTON", "assign": "_button", "arguments": []}]}])
        per = {}
        for k, (item, args) in enumerate(chunk):
            t = item["target"]
            inp = SWITCHES[k % 10] if t == "AdafruitSwitch" else "Wheel" if t == "AdafruitEncoder" else "Exp%d" % (1 + k % 2)
            if item["name"] == "PagerAction":
                args = [{"name": a["name"], "value": [{"id": "1", "color": "Colors.RED", "text": '"a"'}, {"id": '"x"', "text": '"x"'}]} if a["name"] == "pages" else a for a in args]
            d = {"name": item["name"], "assign": "_pager%d" % k if item["name"] == "PagerAction" else None, "arguments": args}
            if item["name"] == "PagerAction.proxy":
                per.setdefault("Down", []).append({"name": "PagerAction", "assign": "_pgr%d" % k, "arguments": [{"name": "pages", "value": [{"id": "1"}, {"id": "2"}]}]})
                d = {"name": "_pgr%d.proxy" % k, "assign": None, "arguments": [{"name": "page_id", "value": "2"}]}
            per.setdefault(inp, []).append(d)
            what.append("%s(%s)" % (item["name"], ", ".join("%s = %s" % (a["name"], a["value"]) for a in args)))
            rec.ev("use", what[-1])
        for inp in SWITCHES + ["Wheel", "Exp1", "Exp2"]:
            e.call("edit", name=inp, edits=[{"op": "set", "actions": per.get(inp, []), "noUpdate": True}, {"op": "set", "hold": True, "actions": [], "noUpdate": True}])
        e.call("update")
        code = e.code()
    finally:
        e.close()
    return code, what, per


def use(rec, chunk, rng, ticks):
    code, what, per = arrange(rec, chunk)
    run(rec, code, "; ".join(what), ticks, rng, {k: len(v) for k, v in per.items()})
    rec.n("combinations run" if rng is None else "random combinations run", len(chunk))


def run(rec, code, what, limit, rng, counts=None):
    d = tempfile.mkdtemp(prefix="w04-")
    try:
        for n in ("inputs", "display"):
            with open(os.path.join(d, n + ".py"), "w") as f:
                f.write(code[n + "_py"])
        try:
            _run(rec, what, limit, rng, counts, d)
        except Violation:
            rec.ev("code", code)
            raise
        except Exception as e:
            import traceback
            fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
            if any(f.startswith(env.REPO) or f.startswith(d) for f in fr):
                bad(rec, "offered by the editor, but on the device %s: %s (%s)" % (type(e).__name__, e, what[:700]), code=code, tb=traceback.format_exc()[-2500:])
            raise
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for k in [k for k in env._code_cache if k.startswith(d)]:
            del env._code_cache[k]


def _run(rec, what, limit, rng, counts, d):
    W = env.World(config_dirs=[d, env.REPO + "/content"], start_ms=1000)
    m = types.ModuleType("config")
    m.Config = {}
    sys.modules["config"] = m
    Ctl = W.get("pyswitch.controller.controller:Controller")
    tick0, init0 = Ctl.tick, Ctl.init
    S = {"n": 0, "log": [], "down": []}
    dev = kdev.Device(W, 0.5, W.hw.usb_ports[0], W.hw.usb_ports[1], rig=7)

    def init(self):
        S["sw"] = []
        for dd, ctl in zip(sys.modules["inputs"].Inputs, self.inputs):
            if hasattr(dd["assignment"]["model"], "pushed"):
                S["sw"].append((dd["assignment"]["name"], dd["assignment"]["model"].port, ctl))
                name = dd["assignment"]["name"]
                if counts and name in counts and len(ctl.actions) < counts[name]:
                    raise Violation("%d actions are set up for %s, configured were %d (%s)" % (len(ctl.actions), name, counts[name], what[:500]))
                for a in ctl.actions:
                    def wrap(a=a, p=a.push, name=name):
                        def push():
                            S["log"].append(name)
                            return p()
                        a.push = push
                    wrap()
        return init0(self)

    def tick(self):
        S["n"] += 1
        n = S["n"]
        rec.n("ticks")
        W.clock.advance(rng.choice([5, 20, 60]) if rng else 20)
        dev.update()
        if S["sw"]:
            if rng is None:
                # each switch once
                k = n // 4
                if n % 4 == 1 and k < len(S["sw"]):
                    S["sw"][k][1].level = False
                    if any(ctl.override_action is not None for *_, ctl in S["sw"]):
                        S["log"].append(S["sw"][k][0])       # taken over by another action (tuner)
                elif n % 4 == 3 and k < len(S["sw"]):
                    S["sw"][k][1].level = True
            elif rng.random() < 0.4:
                pin = rng.choice(S["sw"])[1]
                pin.level = not pin.level
        if W.hw.encoders and (rng is None and n % 5 == 0 or rng and rng.random() < 0.3):
            W.hw.encoders[0].position += (1 if n % 2 else -3) if rng is None else rng.choice([-20, -1, 1, 3])
        if W.hw.analog and (rng is None and n % 3 == 0 or rng and rng.random() < 0.3):
            for a in W.hw.analog:
                a.pin.analog = (n * 7919) % 65536 if rng is None else rng.randrange(65536)
        if rng and rng.random() < 0.05:
            dev.load(rng.randrange(625))
        if tick0(self) is not True:
            raise Violation("%s: the processing loop ended" % what[:500])
        return n < limit
    Ctl.tick, Ctl.init = tick, init
    W.imp("pyswitch.process")
    for b in W.hw.bridges:
        for e in b.errors:
            raise e
    if S["n"] != limit:
        raise Violation("%s: the processing loop ended after %d of %d ticks" % (what[:500], S["n"], limit))
    for p in W.hw.usb_ports:
        for ms, b in p.out:
            for msg in rig.parse_stream(b):
                rec.n("messages sent")
    rec.n("pushed", len(S["log"]))
    if rng is None and counts:
        for name, pin, ctl in S["sw"]:
            if counts.get(name) and any(a.enabled for a in ctl.actions) and name not in S["log"]:
                raise Violation("the switch %s was pushed, but no action got it (%s)" % (name, what[:500]))


def random_chunk(rng):
    chunk = []
    acts = catalogue.items("actions")
    for _ in range(rng.randrange(4, 12)):
        c, a = rng.choice(acts)
        over = {}
        for p in a["params"]:
            if rng.random() < 0.4:
                vals = [str(v["value"]) for v in p["values"] or []] or {"bool": ["True", "False"], "color": ["Colors.LIGHT_BLUE", "(1, 2, 3)", "Colors.RED"], "text": [p["text"] or '"x"', '"Ä {name}"']}.get(p["type"], [])
                if p["name"] in ("accept_action", "cancel_action"):
                    vals = vals + ["_button"]
                if p["metaDefault"] not in (None, ""):
                    vals = vals + [str(p["metaDefault"])]
                vals = [v for v in vals if colored([{"value": v}]) and (p["name"] not in ("mapping", "preview_reset_mapping") or v == "None" or usable(v))]
                if vals and p["type"] != "select-page":
                    over[p["name"]] = rng.choice(vals)
        if over.get("rig_off", "None") != "None" and over.get("bank", "None") != "None" and over.get("bank_off", "None") == "None":
            over["bank_off"] = over["bank"]       # required then
        chunk.append((a, catalogue.arguments(a, over)))
    return chunk


def run_case(rng, rec, tier):
    chunk = random_chunk(rng)
    rec.sig(repr([(a["name"], [(x["name"], str(x["value"])) for x in v]) for a, v in chunk]))
    try:
        use(rec, chunk, rng, rng.randrange(60, 200))
    except EditorError as x:
        bad(rec, "the editor fails with what it offers: %s" % str(x)[:600])
