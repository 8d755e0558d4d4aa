"""Board definitions: every definition drives exactly the jack, pins and LEDs of the board, in the firmware and in the editor."""
import json, os, subprocess, sys, types
from vlib import env, rig, hw
from vlib.runner import check, eq

ID = "B04"
RULE = ("A fixed case per board inspects all entries and their order, the way the editor reads them, and the elements the editor draws. A random case sets up a random part of a board's definitions in the real process.py with the real drivers "
        "(never two on one jack) and operates the pins, the wheel and the pedals of the board in random order; monitored is which action reacts, which value arrives and which LEDs change. Signature = definitions and history.")
CASES = {"quick": 900, "thorough": 12000}
FLOORS = {"presses": 20000, "reactions": 20000, "led_sets": 15000, "pedal_moves": 500, "wheel_moves": 300}
LEVEL_NOTE = "Exploration; the entries themselves are enumerated completely (fixed cases). Wiring is compared to a table made from the board descriptions."
P = "PA_MIDICAPTAIN_"
# name -> (kind, pins, LEDs, name shown)
BOARDS = {
    "pa_midicaptain_10": {
        P + "10_SWITCH_1": ("switch", (1,), (0, 1, 2), "1"), P + "10_SWITCH_2": ("switch", (25,), (3, 4, 5), "2"), P + "10_SWITCH_3": ("switch", (24,), (6, 7, 8), "3"), P + "10_SWITCH_4": ("switch", (23,), (9, 10, 11), "4"),
        P + "10_SWITCH_UP": ("switch", (20,), (12, 13, 14), "Up"), P + "10_SWITCH_A": ("switch", (9,), (15, 17, 16), "A"), P + "10_SWITCH_B": ("switch", (10,), (18, 20, 19), "B"), P + "10_SWITCH_C": ("switch", (11,), (21, 23, 22), "C"),
        P + "10_SWITCH_D": ("switch", (18,), (24, 26, 25), "D"), P + "10_SWITCH_DOWN": ("switch", (19,), (27, 29, 28), "Down"),
        P + "10_EXP_PEDAL_1": ("pedal", (27,), (), "Exp1"), P + "10_EXP_PEDAL_2": ("pedal", (28,), (), "Exp2"), P + "10_EXP_SWITCH_1": ("switch", (27,), (), "ExpSw1"), P + "10_EXP_SWITCH_2": ("switch", (28,), (), "ExpSw2"),
        P + "10_WHEEL_ENCODER": ("wheel", (2, 3), (), "Wheel"), P + "10_WHEEL_BUTTON": ("switch", (0,), (), "WhlButton")},
    "pa_midicaptain_mini_6": {
        P + "MINI_SWITCH_1": ("switch", (1,), (0, 1, 2), "1"), P + "MINI_SWITCH_2": ("switch", (25,), (3, 4, 5), "2"), P + "MINI_SWITCH_3": ("switch", (24,), (6, 7, 8), "3"),
        P + "MINI_SWITCH_A": ("switch", (9,), (9, 11, 10), "A"), P + "MINI_SWITCH_B": ("switch", (10,), (12, 14, 13), "B"), P + "MINI_SWITCH_C": ("switch", (11,), (15, 17, 16), "C")},
    "pa_midicaptain_nano_4": {
        P + "NANO_SWITCH_1": ("switch", (1,), (0, 1, 2), "1"), P + "NANO_SWITCH_2": ("switch", (25,), (3, 4, 5), "2"), P + "NANO_SWITCH_A": ("switch", (9,), (6, 8, 7), "A"), P + "NANO_SWITCH_B": ("switch", (10,), (9, 11, 10), "B")},
}
# Switches around the board (clockwise, starting anywhere)
RING = {"pa_midicaptain_10": "1 2 3 4 Up Down D C B A".split(), "pa_midicaptain_mini_6": "1 2 3 C B A".split(), "pa_midicaptain_nano_4": "1 2 B A".split()}
CLASS = {"switch": "AdafruitSwitch", "pedal": "AdafruitPotentiometer", "wheel": "AdafruitEncoder"}


def FIXED(tier):
    return [{"board": b} for b in BOARDS]


def entries(mod):
    return {k: v for k, v in vars(mod).items() if isinstance(v, dict) and "model" in v}


def ports(m):
    return (m.port,) if hasattr(m, "port") else (m.port_1, m.port_2)


def run_fixed(case, rec, tier):
    b = case["board"]
    W = env.World()
    E = entries(W.imp("pyswitch.hardware.devices." + b))
    G = BOARDS[b]
    for n in G:
        check(n in E, lambda: "%s: %s is not defined any more" % (b, n))
    pins, leds, orders, names = {}, {}, {}, {}
    for n, e in E.items():
        rec.n("entries")
        kind = {v: k for k, v in CLASS.items()}.get(type(e["model"]).__name__)
        check(kind, lambda: "%s: unknown input type of %s" % (b, n))
        pp = tuple(p.name for p in ports(e["model"]))
        check(len(set(pp)) == len(pp), lambda: "%s: %s uses a pin twice" % (b, n))
        if n in G:
            g = G[n]
            eq(kind, g[0], "%s: type of %s" % (b, n))
            eq(pp, tuple("GP%d" % p for p in g[1]), "%s: pins of %s" % (b, n))
            eq(sorted(e.get("pixels", ())), sorted(g[2]), "%s: LEDs of %s" % (b, n))
            eq(e.get("name"), g[3], "%s: name of %s" % (b, n))
        check(e.get("name") not in names, lambda: "%s: %s and %s have the same name" % (b, n, names[e["name"]]))
        names[e.get("name")] = n
        for p in pp:
            o = pins.get(p)
            check(o is None or {kind, o[1]} == {"switch", "pedal"}, lambda: "%s: %s and %s use the pin %s" % (b, n, o[0], p))
            pins[p] = (n, kind)
        for l in e.get("pixels", ()):
            check(l not in leds, lambda: "%s: %s and %s use the LED %d" % (b, n, leds[l], l))
            leds[l] = n
        if e.get("pixels"):
            check("strobeOrder" in e and e["strobeOrder"] not in orders, lambda: "%s: position of %s in the strobe order" % (b, n))
            orders[e["strobeOrder"]] = n
    eq(sorted(leds), list(range(len(leds))), "%s: LEDs of the board" % b)
    ring = [E[orders[o]]["name"] for o in sorted(orders)]
    ref = RING[b]
    k = ref.index(ring[0])
    cw = ref[k:] + ref[:k]
    check(ring in (cw, [cw[0]] + cw[:0:-1]), lambda: "%s: the strobe order %r does not go around the board" % (b, ring))
    rec.state((b, len(E)))
    # the editor's view
    js = types.ModuleType("js")
    js.document = types.SimpleNamespace(getElementById=lambda i: None)
    js.externalRefs = types.SimpleNamespace()
    keep = dict(sys.modules)
    path = list(sys.path)
    try:
        for n in list(sys.modules):
            if n.startswith("pyswitch"):
                del sys.modules[n]
        sys.modules["js"] = js
        sys.path.insert(0, os.path.join(env.REPO, "web/htdocs/python"))
        import importlib
        H = importlib.import_module("parser.PySwitchHardware").PySwitchHardware()
        shown = H.get("pyswitch.hardware.devices." + b)
    finally:
        sys.modules.clear()
        sys.modules.update(keep)
        sys.path[:] = path
    eq(sorted(x["name"] for x in shown), sorted(E), "%s: inputs known to the editor" % b)
    disp = {}
    for x in shown:
        rec.n("editor_entries")
        e = E[x["name"]]
        eq(x["data"]["model"]["type"], type(e["model"]).__name__, "%s: type of %s in the editor" % (b, x["name"]))
        eq("GP%d" % x["data"]["model"]["port"], ports(e["model"])[0].name, "%s: port of %s in the editor" % (b, x["name"]))
        eq(tuple(x["data"].get("pixels", ())), tuple(e.get("pixels", ())), "%s: LEDs of %s in the editor" % (b, x["name"]))
        check(x["displayName"] not in disp and e["name"] in x["displayName"], lambda: "%s: name of %s in the editor: %s" % (b, x["name"], x["displayName"]))
        disp[x["displayName"]] = 1
    # the web application's device class
    code = ("const fs=require('fs'),vm=require('vm');const c={};vm.createContext(c);vm.runInContext(fs.readFileSync(%s,'utf8')+';'+fs.readFileSync(%s,'utf8')+';this.D=Device;this.P=PaintAudioDevice',c);"
            "(async()=>{const d=await c.D.getInstance({get:async()=>({inputs_py:'from pyswitch.hardware.devices.%s import *'})});"
            "console.log(JSON.stringify({path:d.getHardwareImportPath(),add:d.hasAdditionalInputs(),cls:d.getDeviceClass(),ports:[...Array(30).keys()].filter(p=>d.isAdditionalInput({port:p}))}))})()" %
            (json.dumps(env.REPO + "/web/htdocs/js/model/Device.js"), json.dumps(env.REPO + "/web/htdocs/devices/paintaudio/PaintAudioDevice.js"), b))
    p = subprocess.run(["node", "-e", code], capture_output=True, text=True, timeout=60)
    check(p.returncode == 0, lambda: "%s: device class of the web application: %s" % (b, p.stderr[-500:]))
    d = json.loads(p.stdout)
    eq(d["path"], "pyswitch.hardware.devices." + b, "board definition loaded by the editor for a configuration of %s" % b)
    add = {int(ports(e["model"])[0].name[2:]) for e in E.values() if not e.get("pixels")}
    eq(d["add"], bool(add), "%s: has inputs which are not on the front" % b)
    front = {int(ports(e["model"])[0].name[2:]) for e in E.values() if e.get("pixels")}
    eq(sorted(set(d["ports"]) & (add | front)), sorted(add), "%s: inputs shown in the additional panel" % b)
    css = ""
    for c in d["cls"].split():
        css += open(env.REPO + "/web/htdocs/devices/paintaudio/styles/%s.css" % c).read()
    for port in sorted(front):
        check("#pyswitch-switch-gp%d " % port in css, lambda: "%s: the editor does not place the switch at GP%d" % (b, port))
        rec.n("placed")


def run_case(rng, rec, tier):
    r = rng
    b = r.choice(list(BOARDS) + ["pa_midicaptain_10"])
    W = env.World(config_dirs=[env.REPO + "/content"], start_ms=r.choice([10, 100000]))
    mod = W.imp("pyswitch.hardware.devices." + b)
    G = BOARDS[b]
    names = list(G)
    r.shuffle(names)
    names = names[:r.choice([1, 2, 4, 30, 30])]
    taken, sel = set(), []
    for n in names:
        if not set(G[n][1]) & taken:
            taken |= set(G[n][1])
            sel.append(n)
    Callback = W.get("pyswitch.controller.callbacks:Callback")
    PushButton = W.get("pyswitch.controller.actions:PushButtonAction")
    log = []
    colors = {}

    class CB(Callback):
        def __init__(self, n):
            Callback.__init__(self)
            self.n = n

        def state_changed_by_user(self):
            log.append((self.n, "state"))

        def update_displays(self):
            a = self.action
            a.switch_color = colors[self.n]
            a.switch_brightness = 1 if a.state else 0.1

    class Cont:
        def __init__(self, n):
            self.n, self.enabled = n, True
            self.id = n

        def init(self, appl):
            pass

        def process(self, v):
            val[self.n] = v

    val = {}
    inp = []
    for k, n in enumerate(sel):
        e = getattr(mod, n)
        colors[n] = (10 + k * 7, 255 - k * 9, 5 * k)
        if G[n][0] == "switch":
            a = PushButton({"callback": CB(n), "mode": PushButton.LATCH, "useSwitchLeds": True})
            inp.append({"assignment": e, "actions": [a]})
        else:
            inp.append({"assignment": e, "actions": [Cont(n)]})
    m = types.ModuleType("inputs")
    m.Inputs = inp
    sys.modules["inputs"] = m
    cm = types.ModuleType("config")
    cm.Config = {}
    sys.modules["config"] = cm
    Ctl = W.get("pyswitch.controller.controller:Controller")
    tick0 = Ctl.tick
    S = {"n": 0, "limit": r.randint(30, 90), "last": None}
    hist = []
    state = {n: False for n in sel}
    down = {n: False for n in sel}
    used = {p: n for n in sel for p in G[n][2]}

    def leds():
        return list(W.hw.neopixels[0].v) if W.hw.neopixels else []

    def tick(self):
        S["n"] += 1
        W.clock.advance(30)
        if S["n"] == 1:
            for dg in W.hw.digital + W.hw.analog:
                check("GP%s" % dg.pin.name[2:] in {"GP%d" % p for n in sel for p in G[n][1]}, lambda: "the pin %s was set up although it is not used" % dg.pin.name)
            tick0(self)
            W.clock.advance(300)
            tick0(self)
            del log[:]
            eq(len(leds()), max(used) + 1 if used else 0, "LEDs set up")
        n = r.choice(sel)
        kind, pins, px, _ = G[n]
        before = leds()
        del log[:]
        hist.append(n)
        if kind == "switch":
            pin = W.hw.pins["GP%d" % pins[0]]
            down[n] = not down[n]
            pin.level = not down[n]
            tick0(self)
            if down[n]:
                rec.n("presses")
                state[n] = not state[n]
                eq(log, [(n, "state")], "%s: reaction on pressing the switch at %s" % (b, pin.name))
                rec.n("reactions")
            else:
                eq(log, [], "%s: reaction on releasing the switch at %s" % (b, pin.name))
            W.clock.advance(250)
            tick0(self)
            tick0(self)
            after = leds()
            for i, v in enumerate(after):
                o = used.get(i)
                if o is None:
                    eq(v, (0, 0, 0), "%s: LED %d, whose switch is not used" % (b, i))
                    continue
                f = 1 if state[o] else 0.1
                c = [x * f for x in colors[o]]
                check(all(abs(x - y) <= 1.01 for x, y in zip(v, c)), lambda: "%s: LED %d of %s shows %r instead of %r after %s" % (b, i, o, v, c, n))
                rec.n("led_sets")
        elif kind == "pedal":
            pin = W.hw.pins["GP%d" % pins[0]]
            v = r.choice([0, 65535, r.randrange(65536)])
            pin.analog = v
            tick0(self)
            rec.n("pedal_moves")
            eq(log, [], "%s: reaction on moving the pedal at %s" % (b, pin.name))
            eq(leds(), before, "LEDs after moving a pedal")
        else:
            encs = W.hw.encoders
            eq([(x.a.name, x.b.name, x.divisor) for x in encs], [("GP%d" % pins[0], "GP%d" % pins[1], 2)], "%s: wheel" % b)
            encs[0].position += r.choice([-3, -1, 1, 2])
            tick0(self)
            rec.n("wheel_moves")
            eq(log, [], "%s: reaction on turning the wheel" % b)
            eq(leds(), before, "LEDs after turning the wheel")
        check(kind == "switch" or n in val, lambda: "%s: nothing received from %s" % (b, n))
        for k, v in val.items():
            eq(v, W.hw.pins["GP%d" % G[k][1][0]].analog if G[k][0] == "pedal" else W.hw.encoders[0].position, "%s: value received from %s" % (b, k))
        rec.state((b, n, state[n]))
        return S["n"] < S["limit"]

    Ctl.tick = tick
    W.imp("pyswitch.process")
    check(S["n"] == S["limit"], lambda: "the processing loop ended")
    rec.ev(W.clock.ms, b, len(hist))
    rec.sig((b, tuple(sel), tuple(hist)))
