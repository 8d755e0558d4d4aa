"""The settings page: what it shows, config.py made from it, and the emulator started from it are the same settings."""
import os, random, tempfile, shutil
from vlib import env, rig, webapp, emu, kdev
from vlib.runner import Violation, check, eq
from props import W09

ID = "W10"
RULE = ("A case is a random history of using the settings page: fields set to values (valid ones, and such which are none: empty fields, channels out of range), reset, applied, downloaded, the page "
        "opened again or reloaded. After each step the fields shown, config.py and the settings the emulator is started with are compared with a model, and at the end the real firmware is run "
        "with config.py, with the emulator's settings and with all settings shown given explicitly: all three runs must be the same. Signature = the history.")
CASES = {"quick": 1000, "thorough": 20000}
FLOORS = {"fields set": 2500, "invalid inputs": 250, "config.py executed": 2500, "runs compared": 1500, "defaults left out": 8000, "emulators started": 250, "channels checked": 150, "input channels checked": 150, "reloads": 100}
LEVEL_NOTE = ("Exploration with a model of the settings and a differential oracle (the firmware itself) for values which config.py leaves to the firmware's defaults. The page, the settings classes and "
              "the emulator's starter are the real JavaScript; the DOM, local storage and pyodide are stand-ins.")
ASSUMPTIONS = ["a number field of a browser has no value while its text is no number", "numbers beyond the limits of a field are not entered, except for MIDI channels"]

CFG = ["maxConsecutiveMidiMessages", "clearBuffers", "maxRequestLifetimeMillis", "memoryWarnLimitBytes", "updateInterval", "displayDimFactorOn", "displayDimFactorOff", "ledBrightnessOn",
       "ledBrightnessOff", "exploreMode", "debugStats", "debugStatsInterval", "debugBidirectionalProtocol", "debugUnparsedMessages", "debugSentMessages", "debugClientStats"]
COMM = ["inChannel", "outChannel", "debug"]
LABELS = {"Update Interval (ms)": "updateInterval", "Max. consecutive MIDI messages": "maxConsecutiveMidiMessages", "Clear MIDI Buffers at startup": "clearBuffers",
          "Max. request lifetime (ms)": "maxRequestLifetimeMillis", "RAM limit before warning": "memoryWarnLimitBytes", "Global display dim factor (On)": "displayDimFactorOn", "Global display dim factor (Off)": "displayDimFactorOff",
          "Global LED brightness (On)": "ledBrightnessOn", "Global LED brightness (Off)": "ledBrightnessOff", "Explore Mode": "exploreMode", "Debug: Statistics": "debugStats",
          "Debug Stats: Interval": "debugStatsInterval", "Debug: Protocol": "debugBidirectionalProtocol", "Debug: Unparsed messages": "debugUnparsedMessages",
          "Debug: Sent messages": "debugSentMessages", "Debug: Client statistics": "debugClientStats", "PySwitch Input Channel": "inChannel", "PySwitch Output Channel": "outChannel",
          "Debug: MIDI channels": "debug"}
MS = [20, 50, 100, 200, 333, 500, 700, 1000, 1500, 2000, 3000]
FACTORS = ["0", "0.02", "0.1", "0.2", "0.25", "0.3", "0.5", "0.75", "1"]
VALUES = {"maxConsecutiveMidiMessages": [1, 2, 3, 9, 10, 11, 20, 50], "maxRequestLifetimeMillis": [300, 700, 1000, 1999, 2000, 2500, 4000], "memoryWarnLimitBytes": [0, 1000, 15000, 15359, 15360, 15361, 20000, 50000],
          "updateInterval": MS, "debugStatsInterval": MS, "displayDimFactorOn": FACTORS, "displayDimFactorOff": FACTORS, "ledBrightnessOn": FACTORS, "ledBrightnessOff": FACTORS}
_files = None
_names = None


def files():
    global _files
    if _files is None:
        _files = {}
        for f in ("inputs", "display"):
            with open(os.path.join(env.REPO, "content", f + ".py")) as h:
                _files[f + "_py"] = h.read()
    return _files


def config_of(code):
    ns = {}
    try:
        exec(compile(code, "config.py", "exec"), ns)
    except Exception as e:
        raise Violation("the config.py made by the page is no valid Python: %s: %s" % (type(e).__name__, e))
    check(isinstance(ns.get("Config"), dict), "the config.py made by the page has no Config")
    return ns["Config"]


def names():
    """Which setting each field belongs to: found out by using it"""
    global _names
    if _names is None:
        first = webapp.run("settings", files=files(), local={}, ops=[])["log"][0]
        res = []
        for i, (label, typ, v) in enumerate(first["fields"]):
            new = (not v) if typ == "checkbox" else ("0.7" if typ == "number" and "." in str(v) or str(v) == "1" and typ == "number" else ("7" if v != "7" else "8"))
            l = webapp.run("settings", files=files(), local={}, ops=[["set", i, new]])["log"]
            a, b = config_of(l[0]["code"]), config_of(l[1]["code"])
            ch = [k for k in set(a) | set(b) if a.get(k, "-") != b.get(k, "-") or (k in a) != (k in b)]
            ca, cb = l[0]["comm"], l[1]["comm"]
            ch += [k for k in set(ca) | set(cb) if ca.get(k, "-") != cb.get(k, "-")]
            check(len(ch) == 1, lambda: "setting the field %r (number %d) of the settings page to %r changes the settings %r instead of one" % (label, i, new, ch))
            if label in LABELS and sum(1 for f in first["fields"] if f[0] == label) == 1:
                eq(ch[0], LABELS[label], "setting changed by the field %r" % label)
            res.append(ch[0])
        eq(sorted(res), sorted(set(res)), "settings having a field")
        labels = [f[0] for f in first["fields"]]
        for x in labels:
            check(labels.count(x) == 1, lambda: "%d fields of the settings page are labelled %r, for different settings: %r" % (labels.count(x), x, [n for n, l in zip(res, labels) if l == x]))
        _names = (res, [f[1] for f in first["fields"]], [parse(n, f[1], f[2]) for n, f in zip(res, first["fields"])])
    return _names


def parse(name, typ, v):
    """Value of a setting from what its field shows"""
    if typ == "checkbox":
        return bool(v)
    if name in ("inChannel", "outChannel"):
        if v == "All" and name == "inChannel":
            return None
        check(v.isdigit() and 1 <= int(v) <= 16, lambda: "the field of %s shows %r" % (name, v))
        return int(v) - 1
    try:
        return float(v)
    except ValueError:
        raise Violation("the field of %s shows %r instead of a number" % (name, v))


def gen(r, nm, types):
    ops = []
    for _ in range(r.choice([1, 2, 4, 8])):
        x = r.random()
        if x < 0.74:
            i = r.randrange(len(nm)) if r.random() < 0.85 else nm.index(r.choice(["inChannel", "outChannel", "debugStats"]))
            n, t = nm[i], types[i]
            if t == "checkbox":
                ops.append(["set", i, r.random() < 0.6])
            elif n in ("inChannel", "outChannel"):
                good = [str(r.randint(1, 16))] + (["All"] if n == "inChannel" else [])
                ops.append(["set", i, r.choice(good) if r.random() < 0.7 else r.choice(["", "0", "17", "abc", "99", "-3"] + (["All"] if n == "outChannel" else []))])
            else:
                ops.append(["set", i, str(r.choice(VALUES[n])) if r.random() < 0.8 else r.choice(["", "abc", "-"])])
        elif x < 0.8:
            ops.append(["button", r.randrange(2), "Reset"])
        elif x < 0.9:
            ops.append(["button", r.randrange(2), "Apply"])
        elif x < 0.94:
            ops.append(["button", 0, "Download"])
        else:
            ops.append([r.choice(["reload", "open"])])
    ops.append([r.choice(["reload", "open", "open"])])
    ops.append(["button", r.randrange(2), "Apply"])
    return ops


def valid(name, typ, v):
    try:
        parse(name, typ, v)
        return True
    except Violation:
        return False


def same(name, got, want):
    return (got is want) if isinstance(want, bool) or want is None else (not isinstance(got, bool) and isinstance(got, (int, float)) and got == want)


def run_case(r, rec, tier):
    nm, types, defaults = names()
    ops = gen(r, nm, types)
    log = webapp.run("settings", files=files(), local={}, ops=ops)
    runpy, log = log["runpython"], log["log"]
    cur = dict(zip(nm, defaults))
    dflt = dict(cur)
    for op, e in zip([["none"]] + ops, log):
        what = "after %r (of %r)" % (op, ops)
        rec.ev(op, e["config"], e["comm"], e["messages"])
        n = nm[op[1]] if op[0] == "set" else None
        allowed = {}
        if op[0] == "set":
            t = types[op[1]]
            rec.n("fields set")
            if valid(n, t, op[2]):
                cur[n] = parse(n, t, op[2])
            else:       # anything a user can expect: the value stays, or is back to the default
                rec.n("invalid inputs")
                allowed[n] = [cur[n], dflt[n]]
        elif op[0] == "button":
            check(e["hit"] > op[1], lambda: "there is no button %r" % op[2])
            if op[2] == "Reset":
                grp = CFG if op[1] == 0 else COMM
                for k in grp:
                    if k in cur:
                        cur[k] = dflt[k]
        elif op[0] == "reload":
            rec.n("reloads")
        eq(len(e["fields"]), len(nm), what + ": fields of the page")
        conf = config_of(e["code"])
        rec.n("config.py executed")
        for k in allowed:
            have = conf.get(k, dflt[k]) if k in CFG else e["comm"].get(k, dflt[k])
            check(any(same(k, have, x) for x in allowed[k]), lambda: "%s: the setting %s is %r now (was %r)" % (what, k, have, allowed[k][0]))
            cur[k] = have if have is None or isinstance(have, bool) or k in COMM else float(have)
        for k, t, f in zip(nm, types, e["fields"]):
            if k == n and op[0] == "set" and k in allowed:
                continue        # the text just entered
            check(same(k, parse(k, t, f[2]), cur[k]), lambda: "%s: the field %r of %s shows %r, but the setting is %r" % (what, f[0], k, f[2], cur[k]))
        explicit(what, "config.py", conf, cur, [k for k in nm if k in CFG], rec)
        explicit(what, "the emulator's configuration", e["config"], cur, [k for k in nm if k in CFG], rec)
        explicit(what, "the emulator's MIDI settings", e["comm"], cur, [k for k in nm if k in COMM], rec)
        extra = set(conf) - set(CFG) - {"enableMidiBridge"}
        check(not extra, lambda: "%s: config.py has %r" % (what, extra))
        eq(conf.get("enableMidiBridge"), True, what + ": enableMidiBridge in config.py")
        for k in COMM:
            if k in nm and k not in e["comm"]:
                eq(cur[k], {"inChannel": None, "outChannel": 0, "debug": False}[k], "%s: %s is shown, the emulator's own default is used" % (what, k))
        for fn, text in e["downloads"]:
            rec.n("downloads")
            eq(fn, "config.py", "name of the downloaded file")
            eq(text, e["code"], what + ": downloaded config.py")
        if op[0] == "button":
            eq(len(e["downloads"]), int(op[2] == "Download"), what + ": downloads")
            if op[2] == "Apply":
                check(e["started"], lambda: what + ": the emulator has not been started")
            for s in e["started"]:
                rec.n("emulators started")
                eq((s["config"], s["comm"]), (e["config"], e["comm"]), what + ": settings the emulator is started with")
    rec.sig(repr(ops))
    full = {k: (int(cur[k]) if isinstance(cur[k], float) and cur[k] == int(cur[k]) else cur[k]) for k in nm if k in CFG}
    conf = config_of(log[-1]["code"])
    seed = r.random()
    shown = drive(full, seed)
    for name, c in (("config.py", {k: v for k, v in conf.items()}), ("the settings of the emulator", log[-1]["config"])):
        if c == full:
            continue
        got = drive(c, seed)
        rec.n("runs compared")
        for (s, a), (_, b) in zip(got, shown):
            check(a == b, lambda: "the page shows %r; with %s (%r) the firmware behaves differently, at %s: %r instead of %r" % (full, name, c, s, *diff(a, b)))
    rec.state(repr(shown[-1]))
    if log[-1]["started"]:
        emulator(log[-1], runpy, cur, r, rec)


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            return (k, a[k]), (k, b[k])


def explicit(what, name, conf, cur, keys, rec):
    for k in keys:
        if k not in conf:
            rec.n("defaults left out")
        else:
            check(same(k, conf[k], cur[k]), lambda: "%s: %s has %s = %r, the page shows %r" % (what, name, k, conf[k], cur[k]))


def drive(cfg, seed):
    """The firmware, in situations where each option matters"""
    r = random.Random(seed)
    cfg = {k: v for k, v in cfg.items() if k not in ("exploreMode", "enableMidiBridge")}
    W = env.World()
    km = W.imp("pyswitch.clients.kemper")
    el, ui = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui")
    lab = rig.label(W, back=(200, 100, 0), text="-")
    name = el.DisplayLabel(bounds=ui.DisplayBounds(0, 120, 240, 80), layout={"font": "/fonts/A.pcf", "text": "-"}, callback=km.KemperRigNameCallback())
    root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=[lab, name, el.BidirectionalProtocolState(ui.DisplayBounds(230, 230, 4, 4))])
    sw = rig.SwModel()
    act = W.get("pyswitch.clients.kemper.actions.effect_state:EFFECT_STATE")(slot_id=km.KemperEffectSlot.EFFECT_SLOT_ID_B, display=lab)
    bound = r.choice([cfg.get("memoryWarnLimitBytes", 15360), 15360])
    W.mem.free = r.choice([bound - 1, bound, bound + 1, 100000])
    for _ in range(r.choice([0, 30])):
        W.hw.usb_ports[0].feed(rig.cc(99, 1))
    protocol = km.KemperBidirectionalProtocol(30) if r.random() < 0.6 else None
    R = rig.Rig(W, inputs=[{"assignment": {"model": sw, "pixels": (0, 1, 2)}, "actions": [act]}], config=cfg, protocol=protocol,
                splash=W.get("pyswitch.clients.local.callbacks.splashes:SplashesCallback")(root))
    D = kdev.Device(W, r.random(), R.inport, R.port, rig=3)
    D.link = False
    out = []

    def look(step):
        out.append((step, {"midi": [(t, m.hex()) for t, m in R.sent()], "printed": list(W.printed), "leds": R.leds, "input left": len(R.inport.inbuf),
                           "screen": [(x, y, getattr(e, "text", None), getattr(e, "color", None), str(getattr(e, "background_color", None)), getattr(e, "fill", None)) for x, y, e in rig.find_screen(R.display.root)]}))
        del W.printed[:]
    look("start")

    def run(ms, step, dt=20):
        for _ in range(ms // dt):
            D.update()
            R.tick(dt)
        look(step)
    R.tick(5)
    look("the first update")
    run(5000, "5 s without a device")
    D.link = True
    run(3000, "3 s with the device")
    for _ in range(2):
        sw.down = not sw.down
        R.tick(5)
        look("the switch")
    run(1000, "1 s")
    for k in range(100):
        R.feed(rig.cc(98, k))
    for k in range(4):
        if k == 1:
            sw.down = not sw.down
        R.tick(1)
        look("100 messages coming in")
    run(600, "after them")
    D.link = False
    run(6000, "6 s without the device", 60)
    return out


def emulator(entry, runpy, cur, r, rec):
    """Started by the emulator's own code, channels are those shown"""
    st = entry["started"][-1]
    if cur.get("exploreMode"):
        st = dict(st, config={k: v for k, v in st["config"].items() if k != "exploreMode"})
    d = tempfile.mkdtemp(prefix="verif-w10-")
    try:
        with open(os.path.join(d, "inputs.py"), "w") as f:
            f.write("from pyswitch.controller.actions import PushButtonAction\nfrom pyswitch.controller.callbacks import BinaryParameterCallback\n"
                    "from pyswitch.controller.client import ClientParameterMapping\nfrom adafruit_midi.control_change import ControlChange\n"
                    "from pyswitch.controller.actions.AnalogAction import AnalogAction\n"
                    "from pyswitch.hardware.devices.pa_midicaptain_10 import *\n"
                    "Inputs = [{'assignment': PA_MIDICAPTAIN_10_SWITCH_1, 'actions': [PushButtonAction({'mode': PushButtonAction.LATCH, 'useSwitchLeds': True, 'callback': BinaryParameterCallback("
                    "ClientParameterMapping.get(name='x', set=ControlChange(20, 0), response=ControlChange(21, 0)), value_enable=1, color=(255, 0, 0))})]}]\n")
        with open(os.path.join(d, "display.py"), "w") as f:
            f.write("from pyswitch.ui.ui import DisplayElement, DisplayBounds\nfrom pyswitch.clients.local.callbacks.splashes import SplashesCallback\n"
                    "Splashes = SplashesCallback(DisplayElement(bounds=DisplayBounds(0, 0, 240, 240), children=[]))\n")
        ns = "pyswitch"
        fs = {}
        for n in ("inputs", "display"):
            fs[n + "_py"] = open(os.path.join(d, n + ".py")).read()
        front = webapp.run("frontend", namespace=ns, hardware=W09.hardware(fs), files=fs, ops=[["pyswitch-switch-gp1", t, None] for t in ("mousedown", "mouseup")])
        E = emu.EmuWorld(1000)
        E.document_ids.clear()
        for id, data, tag in front["ids"]:
            E.element(id, **data)
        E.start({"code": runpy, "started": [dict(st, config=dict(st["config"], clearBuffers=False))]}, d)
        def page(k):
            n, data = front["changes"][k]
            check(n == 1, "the switch is not on the page")
            ds = E.document_ids["pyswitch-switch-gp1"].dataset.__dict__
            ds.clear()
            ds.update(data)

        def look():
            return repr([tuple(E.document_ids["pyswitch-led-%d" % i].dataset.__dict__.get("color", ())) for i in range(3)])

        def ticks(n):
            for _ in range(n):
                E.clock.advance(20)
                check(E.next_tick(), "the emulator stopped")
        ticks(160)
        before = look()
        del E.out[:]
        page(0)
        ticks(2)
        page(1)
        ticks(160)
        ccs = [m for m in E.out if m[0] & 0xF0 == 0xB0 and m[1] == 20]
        check(ccs, "the emulator sends nothing when the switch is pressed")
        rec.n("channels checked")
        for m in ccs:
            eq(m[0] & 15, cur["outChannel"], "MIDI channel (counted from 0) the emulator sends on, the page shows %d" % (cur["outChannel"] + 1))
        on = look()
        ch = r.randrange(16)
        E.wrapper.feed(rig.cc(21, 0, ch))
        ticks(30)
        got = look() != on
        want = cur["inChannel"] is None or cur["inChannel"] == ch
        if on != before:
            rec.n("input channels checked")
            eq(got, want, "message on channel %d regarded, input channel shown %s" % (ch + 1, "All" if cur["inChannel"] is None else cur["inChannel"] + 1))
        check(not E.errors, lambda: "emulator: " + E.errors[0][-300:])
    finally:
        shutil.rmtree(d)


def teardown():
    webapp.stop()
    emu.cleanup()
