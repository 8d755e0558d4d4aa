"""The emulator in the web application behaves like the controller: same configuration, same use -> same MIDI, LEDs, texts and keys."""
import os, random, shutil, sys, tempfile, types
from vlib import env, rig, hw, kdev, webapp, emu, catalogue, runner
from vlib.runner import check, eq
from props import B01

ID = "W09"
RULE = ("A case is a configuration (a shipped one, or a random arrangement of everything in the catalogue of actions on one of the devices), global settings, and a history of presses, pedal and wheel "
        "movements, messages of a simulated Kemper and other MIDI. It runs twice: under the real start-up script with the real drivers on the simulated board, and with the real PySwitchRunner (JavaScript and "
        "Python part) on the emulator's modules. Signature = configuration and history.")
CASES = {"quick": 500, "thorough": 6000}
FLOORS = {"ticks compared": 60000, "messages compared": 20000, "leds compared": 900000, "texts compared": 200000, "page events": 25000, "keys compared": 30, "configuration changed while running": 60}
LEVEL_NOTE = "Online comparison of two executions of the same history: bytes sent per tick, LED colours, texts and colours drawn, keys typed. The reference is the firmware on the simulated board, which the other properties judge."
ASSUMPTIONS = ["pyodide's proxies behave as documented (a stand-in is used)", "the order in which the browser calls the timers is the order of the device's ticks"]
CASE_CPU_S = 90
TECHNIQUE = "runtime monitoring: differential online monitor of two executions under one stimulus history"


def setup(tier):
    B01.setup(tier)
    catalogue.load()
    for f in TEMPLATES.values():
        with open(os.path.join(env.REPO, f)) as i:
            hardware({"inputs_py": i.read()})
    with open(os.path.join(env.REPO, "content/communication.py")) as f:
        globals()["COMM"] = f.read()


class WholePort:
    """Makes a simulated USB port hand out whole messages"""
    def __init__(self, port):
        self.port, self.q = port, []
        port.feed, port.read = self.feed, self.read

    def feed(self, data):
        self.q += rig.parse_stream(bytes(data))

    def read(self, n=None):
        self.port.reads += 1
        out = b""
        while self.q and len(out) + len(self.q[0]) <= n:
            out += self.q.pop(0)
        return out


def script(r, n):
    """The history: per tick (milliseconds before it, operations)"""
    dt = r.choice([5, 10, 20, 20, 60])
    out = []
    for k in range(n):
        ops = []
        if r.random() < 0.3:
            for _ in range(r.choice([1, 1, 2])):
                ops.append(("switch", r.random()))
        if r.random() < 0.12:
            ops.append(("pot", r.random(), r.choice([0, 65535, r.randrange(65536)])))
        if r.random() < 0.12:
            ops.append(("enc", r.random(), r.choice([-30, -2, -1, 1, 2, 30])))
        if r.random() < 0.1:
            ops.append(("feed", [m for m in [whole(r) for _ in range(r.choice([1, 2, 10]))]]))
        if r.random() < 0.05:
            ops.append(("dev", r.choice(["load", "load", "tuner", "set", "set", "link"]), r.randrange(625), r.randrange(1 << 30)))
        out.append((r.choice([dt, dt, dt, 1, 300 if r.random() < 0.1 else dt, 2500 if r.random() < 0.05 else dt]), ops))
    return out


def whole(r):
    k = r.random()
    if k < 0.5:
        return rig.cc(r.randrange(128), r.randrange(128), r.choice([0, 0, 0, 5, 15]))
    if k < 0.6:
        return rig.pc(r.randrange(128), r.choice([0, 0, 3]))
    while True:
        b = B01.hostile(r)
        if len(b) > 6 and b[0] == 0xF0 and b[-1] == 0xF7 and max(b[1:-1]) < 128:
            return b


def dev_op(dev, op):
    _, what, a, s = op
    r = random.Random(s)
    if what == "load":
        dev.load(a)
    elif what == "tuner":
        dev.set_tuner(r.randrange(2))
    elif what == "link":
        dev.link = not dev.link
    else:
        dev.set((r.choice(kdev.SLOTS), r.choice([0, 3])), r.choice(kdev.TYPES + [0, 1]))


class Stop(Exception):
    pass


def screen(els):
    return [("".join(e.text.split()), e.color) for *_, e in els if isinstance(e, hw.Label) and e.text.split()]


def rgb(c):
    return (c >> 16 & 255, c >> 8 & 255, c & 255) if isinstance(c, int) else tuple(c)


def on_device(conf, hist, kemper, settings, seed, start):
    """Runs the history under process.py, returns what was observable per tick"""
    W = env.World(config_dirs=[conf, os.path.join(env.REPO, "content")], start_ms=start)
    ports = W.hw.usb_ports
    WholePort(ports[0])
    m = types.ModuleType("config")
    m.Config = settings["config"]
    sys.modules["config"] = m
    comm = W.exec_source(COMM, "communication")
    c = types.ModuleType("communication")
    c.Communication = comm["Communication"]
    for r in c.Communication["midi"]["routings"]:
        for d in (r.source, r.target):
            for x in [x for x in getattr(d, "__dict__", {}).values() if hasattr(x, "in_channel") and hasattr(x, "out_channel")]:
                x.in_channel = settings["comm"].get("inChannel")
                x.out_channel = settings["comm"].get("outChannel", 0)
    if not kemper:
        c.Communication["protocol"] = None
    sys.modules["communication"] = c
    Ctl = W.get("pyswitch.controller.controller:Controller")
    tick0, init0 = Ctl.tick, Ctl.init
    T = []
    S = {"n": -1, "out": 0, "keys": 0}

    def init(self):
        S["c"] = self
        S["models"] = models_of(sys.modules["inputs"].Inputs)
        S["dev"] = kdev.Device(W, seed, ports[0], ports[1], rig=int(seed * 625)) if kemper else None
        return init0(self)

    def observe():
        d = W.hw.displays[0]
        new = b"".join(b for _, b in ports[1].out[S["out"]:])
        S["out"] = len(ports[1].out)
        keys = [k for _, what, k in W.hw.keys_log[S["keys"]:] if what == "down"]
        S["keys"] = len(W.hw.keys_log)
        T.append((W.clock.ms, new, list(W.hw.neopixels[0].v) if W.hw.neopixels else [], [(t, rgb(c)) for t, c in screen(rig.find_screen(d.root_group))] if d.root_group is not None else [], keys))

    def tick(self):
        S["n"] += 1
        if S["n"] >= len(hist):
            return False
        ms, ops = hist[S["n"]]
        W.clock.advance(ms)
        S.setdefault("t0", []).append(W.clock.ms)
        if S["dev"]:
            S["dev"].update()
        sw, pots, encs = S["models"]
        for op in ops:
            if op[0] == "switch" and sw:
                p = sw[int(op[1] * len(sw))]
                p.level = not p.level
            elif op[0] == "pot" and pots:
                pots[int(op[1] * len(pots))].analog = op[2]
            elif op[0] == "enc" and encs:
                p = encs[int(op[1] * len(encs))]
                [e for e in W.hw.encoders if e.a is p][0].position += op[2]
            elif op[0] == "feed":
                for b in op[1]:
                    ports[0].feed(b)
            elif op[0] == "dev" and S["dev"]:
                dev_op(S["dev"], op)
        ret = tick0(self)
        check(ret is True, "tick() ended the processing loop")
        observe()
        return True
    Ctl.tick, Ctl.init = tick, init
    W.imp("pyswitch.process")
    return W, S, T


def pin_no(p):
    return int(p.name[2:])


def models_of(inputs):
    sw, pots, encs = [], [], []
    for d in inputs:
        m = d["assignment"]["model"]
        n = type(m).__name__
        if n == "AdafruitSwitch":
            sw.append(m.port)
        elif n == "AdafruitPotentiometer":
            pots.append(m.port)
        elif n == "AdafruitEncoder":
            encs.append(m.port_1)
    return sw, pots, encs


HW = {}


def hardware(files):
    """What the parser reports about the device's inputs (given to the page)"""
    from vlib.editor import Editor
    k = next((d for d in DEVICES if d in files["inputs_py"]), DEVICES[0])
    if k not in HW:
        f = TEMPLATES[k]
        e = Editor(open(os.path.join(env.REPO, f)).read(), open(os.path.join(env.REPO, "content/display.py")).read())
        HW[k] = e.call("hardware")
        e.close()
    return HW[k]


DEVICES = ["pa_midicaptain_nano_4", "pa_midicaptain_mini_6", "pa_midicaptain_10"]
TEMPLATES = {"pa_midicaptain_nano_4": "web/htdocs/templates/MIDICaptain Nano 4/inputs.py", "pa_midicaptain_mini_6": "web/htdocs/templates/MIDICaptain Mini 6/inputs.py",
             "pa_midicaptain_10": "web/htdocs/templates/MIDICaptain 10/inputs.py"}


def page_events(ns, hist, pins):
    """What the user does on the page, per tick"""
    sw, pots, encs = [[pin_no(p) for p in l] for l in pins]
    out, down, pos = [], set(), {}
    for k, (ms, ops) in enumerate(hist):
        ev = []
        for op in ops:
            if op[0] == "switch" and sw:
                p = sw[int(op[1] * len(sw))]
                down ^= {p}
                ev.append(["%s-switch-gp%d" % (ns, p), "mousedown" if p in down else ("mouseup", "mouseleave", "mouseout")[k % 3], None])
            elif op[0] == "pot" and pots:
                ev.append(["%s-potentiometer-gp%d" % (ns, pots[int(op[1] * len(pots))]), "input", str(op[2])])
            elif op[0] == "enc" and encs:
                p = encs[int(op[1] * len(encs))]
                pos[p] = pos.get(p, 0) + op[2]
                ev.append(["%s-encoder-gp%d" % (ns, p), "input", str(pos[p])])
        out.append(ev)
    return out


def on_emulator(E, files, conf, hist, kemper, settings, seed, pins, T, t0, rec, what, start, explore=False):
    r = random.Random(seed)
    ns = r.choice(["pyswitch", "x"])
    job = webapp.run("emurun", namespace=ns, interval=r.choice([10, 20]), data={"files": files, "config": settings["config"], "comm": settings["comm"]})
    eq(job["inputs"], files["inputs_py"], "inputs.py handed to the emulator")
    eq(job["display"], files["display_py"], "display.py handed to the emulator")
    events = page_events(ns, hist, pins)
    front = webapp.run("frontend", namespace=ns, hardware=hardware(files), files=files, ops=[e for l in events for e in l])
    changes = list(zip([e for l in events for e in l], front["changes"]))
    E.document_ids.clear()
    for id, data, tag in front["ids"]:
        check(id not in E.document_ids, lambda: "%s: two elements of the emulator are called %s" % (what, id))
        E.element(id, **data)
    check(ns + "-display" in E.document_ids, "the emulator has no display")
    canvas = E.document_ids[ns + "-display"]
    dev = kdev.Device(E, seed, E.wrapper, E.wrapper, rig=int(seed * 625)) if kemper else None
    if not dev:
        E.wrapper.on_write = None
    del E.wrapper.messageQueue[:]
    n_out, n_msg = len(E.out), len(E.messages)
    for k, (ms, ops) in enumerate(hist):
        E.clock.ms = t0[k]
        if dev and k:
            dev.update()
        for op in ops:
            if op[0] == "feed":
                for b in op[1]:
                    E.wrapper.feed(b)
            elif op[0] == "dev" and dev:
                dev_op(dev, op)
        for _ in events[k]:
            ev, (n, data) = changes.pop(0)
            check(n == 1 and data is not None, lambda: "%s: %d elements of the emulator react to %r" % (what, n, ev))
            d = E.document_ids[ev[0]].dataset
            d.__dict__.clear()
            d.__dict__.update(data)
            rec.n("page events")
        if k == 0:
            E.clock.ms = start
            E.start(job, conf)
        else:
            check(E.next_tick(), "%s: the emulator stopped running after tick %d" % (what, k))
        canvas.drawn.clear()
        E.runner.display_driver.update()
        rec.n("ticks compared")
        ms, sent, leds, texts, keys = T[k]
        got = b"".join(E.out[n_out:])
        n_out = len(E.out)
        info = "%s, tick %d (%d ms after the start)" % (what, k, t0[k] - t0[0])
        check(got == sent, lambda: "%s: the emulator sends %s, the controller %s; operations %r" % (info, got.hex(" "), sent.hex(" "), ops))
        rec.n("messages compared", len(rig.parse_stream(sent)))
        dark = emu.Element("")
        el = [tuple(E.document_ids.get("%s-led-%d" % (ns, i), dark).dataset.__dict__.get("color", (0, 0, 0))) for i in range(len(leds))]
        check(el == [tuple(x) for x in leds], lambda: "%s: LEDs of the emulator %r, of the controller %r; operations %r" % (info, el, leds, ops))
        rec.n("leds compared", len(leds))
        ek = [m for m in E.messages[n_msg:]]
        n_msg = len(E.messages)
        check(ek == ["HID: Keycode %d sent" % x for x in keys], lambda: "%s: keys of the emulator %r, of the controller %r" % (info, ek, keys))
        rec.n("keys compared", len(keys))
        et = [(e[2], tuple(int(x) for x in e[1][4:-1].split(","))) for e in canvas.drawn if e[0] == "text" and e[2].split()]
        check(same_texts(et, texts), lambda: "%s: the emulator draws %r, the controller %r; operations %r" % (info, et, texts, ops))
        rec.n("texts compared", len(texts))
        rec.state((what, tuple(texts)))
    check(not E.errors, lambda: "%s: the emulator reported errors: %s" % (what, E.errors[0][-400:]))
    if not explore:
        check(E.refs.__dict__.get("protocolState") == S_state(E), lambda: "%s: protocol state reported %r" % (what, E.refs.__dict__.get("protocolState")))
    E.runner.stop()
    for _ in range(3):
        n = len(E.out)
        E.clock.ms += 300
        if not E.next_tick():
            break
    check(not E.timers and E.runner.running is False, lambda: "%s: the emulator keeps running after it was stopped" % what)


def S_state(E):
    return E.runner.protocol.state if E.runner.protocol else -10


def same_texts(lines, texts):
    """lines: (line, color) as drawn; texts: (text without white space, color)"""
    i = 0
    for t, c in texts:
        acc = ""
        while i < len(lines) and len(acc) < len(t):
            if lines[i][1] != c:
                return False
            acc += "".join(lines[i][0].split())
            i += 1
        if acc != t:
            return False
    return i == len(lines)


def shipped(r):
    cfgs, _ = B01._configs
    name, dirs = cfgs[r.randrange(len(cfgs))]
    files = {}
    for f in ("inputs", "display"):
        with open(next(os.path.join(d, f + ".py") for d in dirs if os.path.exists(os.path.join(d, f + ".py")))) as i:
            files[f + "_py"] = i.read()
    return name, files


def assembled(r, rec):
    from props import W04
    chunk = W04.random_chunk(r)
    if r.random() < 0.3:
        it = [a for _, a in catalogue.items("actions") if a["name"] == "HID_KEYBOARD"][0]
        p = [p for p in it["params"] if p["name"] == "keycodes"][0]
        vals = [str(v["value"]) for v in p["values"]]
        chunk.append((it, catalogue.arguments(it, {"keycodes": r.choice(vals)})))
    code, what, per = W04.arrange(rec, chunk)
    return "; ".join(what)[:400], {"inputs_py": code["inputs_py"], "display_py": code["display_py"]}


def run_case(r, rec, tier):
    confs, runs = [], []
    try:
        for _ in range(2 if r.random() < 0.2 else 1):
            what, files = assembled(r, rec) if r.random() < 0.3 else shipped(r)
            conf = tempfile.mkdtemp(prefix="verif-w09-")
            confs.append(conf)
            for f in ("inputs", "display"):
                with open(os.path.join(conf, f + ".py"), "w") as o:
                    o.write(files[f + "_py"])
            kemper = "pyswitch.clients.kemper" in files["inputs_py"] or "pyswitch.clients.boomerang" not in files["inputs_py"]
            settings = {"config": {}, "comm": {}}
            for key, vals in (("maxConsecutiveMidiMessages", [1, 10, 40]), ("clearBuffers", [True, False]), ("maxRequestLifetimeMillis", [500, 2000]), ("updateInterval", [50, 200, 1000]),
                              ("displayDimFactorOn", [1, 0.5]), ("displayDimFactorOff", [0, 0.2, 1]), ("ledBrightnessOn", [0.3, 1]), ("ledBrightnessOff", [0, 0.02])):
                if r.random() < 0.15:
                    settings["config"][key] = r.choice(vals)
            if r.random() < 0.2:
                settings["comm"]["outChannel"] = r.randrange(16)
            if r.random() < 0.2:
                settings["comm"]["inChannel"] = r.choice([0, 0, 5])
            hist = [(0, [])] + script(r, r.randint(60, 200) if tier == "quick" else r.randint(60, 900))
            seed, start = r.random(), r.choice([100000, 5000000])
            rec.ev("case", what, settings, len(hist))
            W, S, T = on_device(conf, hist, kemper, settings, seed, start)
            runs.append((files, conf, hist, kemper, settings, seed, S["models"], T, S["t0"], rec, what, start))
            rec.sig((what, str(settings), len(hist), sum(len(x[1]) for x in T)))
        E = emu.EmuWorld(runs[0][-1])
        for k, x in enumerate(runs):
            rec.n("configuration changed while running", k > 0)
            on_emulator(E, *x)
    finally:
        for c in confs:
            shutil.rmtree(c)


def FIXED(tier):
    return [("explore", d) for d in DEVICES] + [("modules", None)]


def run_fixed(case, rec, tier):
    kind, dev = case
    if kind == "modules":
        return modules(rec)
    with open(os.path.join(env.REPO, TEMPLATES[dev])) as f, open(os.path.join(env.REPO, "content/display.py")) as g:
        files = {"inputs_py": f.read(), "display_py": g.read()}
    job = webapp.run("emurun", namespace="ns", interval=20, data={"files": files, "config": {"exploreMode": True}, "comm": {}})
    ports = [h["data"]["model"]["port"] for h in hardware(files) if h["data"]["model"]["type"] == "AdafruitSwitch"]
    ops = [["ns-switch-gp%s" % p, t, None] for p in ports for t in ("mousedown", "mouseup")]
    front = webapp.run("frontend", namespace="ns", hardware=hardware(files), files=files, ops=ops)
    E = emu.EmuWorld(1000)
    for id, data, tag in front["ids"]:
        E.element(id, **data)
    canvas = E.document_ids["ns-display"]
    E.start(job, "/nonexistent")
    for op, (n, data) in zip(ops, front["changes"]):
        eq(n, 1, "elements reacting to %r" % op)
        E.document_ids[op[0]].dataset.__dict__.update(data)
        for _ in range(5):
            E.clock.advance(60)
            canvas.drawn.clear()
            check(E.next_tick(), "the emulator stopped in explore mode")
        if op[1] == "mousedown":
            name = "GP" + op[0].rsplit("gp", 1)[1]
            texts = [e[2].strip() for e in canvas.drawn if e[0] == "text"]
            check(name in texts, lambda: "%s: after pressing the switch at %s in explore mode, the emulator shows %r" % (dev, name, texts))
            rec.n("explored ports")
    check(not E.errors, lambda: "explore mode: %s" % E.errors[0][-300:])


def modules(rec):
    """Everything a configuration can import is in the emulator's file system, as it is on the controller"""
    d = emu.vfs()
    for dp, dn, fn in os.walk(os.path.join(env.LIB, "pyswitch")):
        for f in sorted(fn):
            rel = os.path.relpath(os.path.join(dp, f), env.LIB)
            if not f.endswith(".py") or rel == "pyswitch/process.py" or rel.startswith("pyswitch/hardware/adafruit/"):
                continue
            with open(os.path.join(dp, f)) as h:
                src = h.read()
            if not src.strip() and not os.path.exists(os.path.join(d, rel)):
                check(os.path.isdir(os.path.dirname(os.path.join(d, rel))), lambda: "the emulator lacks the package of %s" % rel)
                continue
            check(os.path.exists(os.path.join(d, rel)), lambda: "the emulator lacks %s" % rel)
            with open(os.path.join(d, rel)) as h:
                check(h.read() == src, lambda: "%s in the emulator is not the one of the controller" % rel)
            rec.n("modules compared")
    for f in ("actions", "mappings", "callbacks"):
        check(os.path.exists(os.path.join(d, "definitions/%s.json" % f)), lambda: "the emulator lacks the definitions of " + f)
    # the editor's parser runs from there as well
    import subprocess
    for dp, dn, fn in os.walk(os.path.join(env.REPO, "web/htdocs/python/parser")):
        for f in fn:
            rel = os.path.relpath(os.path.join(dp, f), os.path.join(env.REPO, "web/htdocs/python"))
            if f.endswith(".py") and open(os.path.join(dp, f)).read().strip():
                rec.n("modules compared")
                check(os.path.exists(os.path.join(d, rel)), lambda: "the emulator lacks %s" % rel)


def teardown():
    emu.cleanup()
    webapp.stop()
