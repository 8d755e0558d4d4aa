"""The start-up script with generated configurations, injected faults and the file transfer bridge on or off."""
import os, shutil, sys, tempfile, types
from vlib import env, rig, hw
from vlib.runner import check, eq

ID = "B02"
RULE = ("A case is a generated configuration (four files; switches, pedal, labels, protocol or not, USB or DIN, bridge on or off, options) started by the real process.py, with no fault or one fault of a random kind at a random stage "
        "(each file, set-up of inputs, first display, a tick, an update, a callback, a MIDI read). Signature = configuration and fault.")
CASES = {"quick": 1500, "thorough": 20000}
FLOORS = {"started": 300, "faults": 330, "reported_bridge": 130, "raised": 200, "presses": 4000, "values_sent": 3500, "values_shown": 3500, "updates": 2700, "bridge_messages": 35000, "beacons": 70, "cleared": 110, "kept": 110}
LEVEL_NOTE = "Exploration: fault injection at every stage of start-up and processing with several exception types; wiring is observed from outside (what reaches ports, LEDs and screen)."

STAGES = ["config", "communication", "display", "inputs", "switch_init", "get_root", "tick", "update", "push", "read"]


def run_case(rng, rec, tier):
    d = tempfile.mkdtemp(prefix="b02-")
    try:
        _run(rng, rec, tier, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for k in [k for k in env._code_cache if k.startswith(d)]:
            del env._code_cache[k]


def _run(r, rec, tier, d):
    bridge, din, proto = r.random() < 0.5, r.random() < 0.4, r.random() < 0.5
    clear = r.random() < 0.5
    interval = r.choice([50, 200, 500])
    nsw = r.randint(1, 5)
    npot = r.choice([0, 1])
    pins = r.sample([0, 1, 2, 9, 10, 11, 18, 19, 20, 23, 24, 25], nsw)
    stage = r.choice(STAGES) if r.random() < 0.5 else None
    when = r.randint(1, 60)
    exc = r.choice([Exception("user error"), ValueError("v"), OSError(5, "x"), MemoryError(), KeyError("k"), ImportError("no module"), AttributeError("a"), RuntimeError("r"), SyntaxError("s"), TypeError()])
    opts = ["'updateInterval': %d" % interval, "'clearBuffers': %r" % clear]
    if bridge or r.random() < 0.3:
        opts.append("'enableMidiBridge': %r" % bridge)
    if r.random() < 0.3:
        opts.append("'exploreMode': False")
    bright = r.choice([0.3, 0.5, 1])
    opts.append("'ledBrightnessOn': %r" % bright)
    hid = types.ModuleType("_probe")
    order = []
    cnt = {"tick": 0, "updates": 0, "run": False, "hit": False}

    def hit(st):
        order.append(st)
        if st == stage and (st != "tick" or cnt["run"]):
            cnt["n"] = cnt.get("n", 0) + 1
            if stage in ("tick", "update", "push", "read") and cnt["n"] < (when if stage in ("tick", "read") else 1 + when % 4):
                return
            cnt["hit"] = True
            raise exc
    hid.hit = hit
    hid.cnt = cnt

    def write(n, s):
        with open(os.path.join(d, n + ".py"), "w") as f:
            f.write(s)
    write("config", "from _probe import hit\nhit('config')\nConfig = {%s}\n" % ", ".join(opts))
    write("communication", """from _probe import hit
hit('communication')
from pyswitch.clients.kemper import KemperBidirectionalProtocol
from pyswitch.controller.midi import MidiRouting
from pyswitch.hardware.devices.pa_midicaptain import PA_MIDICAPTAIN_USB_MIDI, PA_MIDICAPTAIN_DIN_MIDI
_dev = PA_MIDICAPTAIN_%s_MIDI(in_channel = None, out_channel = 0)
Communication = {%s
  "midi": {"routings": [MidiRouting(source = _dev, target = MidiRouting.APPLICATION), MidiRouting(source = MidiRouting.APPLICATION, target = _dev)]}}
""" % ("DIN" if din else "USB", '"protocol": KemperBidirectionalProtocol(time_lease_seconds = 30),' if proto else ""))
    write("display", """from _probe import hit, cnt
hit('display')
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel
from pyswitch.clients.local.callbacks.splashes import SplashesCallback
from pyswitch.controller.callbacks.parameter_display import ParameterDisplayCallback
from pyswitch.controller.client import ClientParameterMapping
from adafruit_midi.control_change import ControlChange
LABELS = [DisplayLabel(bounds = DisplayBounds(0, 20 * i, 100, 20), layout = {"font": "/fonts/H20.pcf", "backColor": (9, 9, 9), "text": "-"}) for i in range(%d)]
class _Cb(ParameterDisplayCallback):
    def update(self):
        cnt["updates"] += 1
        hit('update')
        super().update()
VALUE = DisplayLabel(bounds = DisplayBounds(0, 120, 100, 20), layout = {"font": "/fonts/H20.pcf", "text": "?"}, callback = _Cb(mapping = ClientParameterMapping.get("Val", response = ControlChange(90, 0)), default_text = "none"))
class _Splashes(SplashesCallback):
    def get_root(self):
        hit('get_root')
        return super().get_root()
Splashes = _Splashes(DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = LABELS + [VALUE]))
""" % nsw)
    write("inputs", """from _probe import hit
hit('inputs')
import board
from display import LABELS
from pyswitch.hardware.adafruit.AdafruitSwitch import AdafruitSwitch
from pyswitch.hardware.adafruit.AdafruitPotentiometer import AdafruitPotentiometer
from pyswitch.clients.local.actions.binary_switch import BINARY_SWITCH
from pyswitch.controller.actions import PushButtonAction
from pyswitch.controller.actions.AnalogAction import AnalogAction
from pyswitch.controller.client import ClientParameterMapping
from adafruit_midi.control_change import ControlChange
class _Sw(AdafruitSwitch):
    def init(self):
        hit('switch_init')
        super().init()
    @property
    def pushed(self):
        hit('tick')
        return super().pushed
class _P(PushButtonAction):
    pass
def _act(k):
    a = BINARY_SWITCH(mapping = ClientParameterMapping.get("M%%d" %% k, set = ControlChange(10 + k, 0)), mode = PushButtonAction.LATCH, value_on = 100 + k, value_off = k, text = "T%%d" %% k, display = LABELS[k], color = (200, 100, 50), use_internal_state = True)
    p = a.push
    def push():
        hit('push')
        return p()
    a.push = push
    return a
Inputs = [{"assignment": {"model": _Sw(getattr(board, "GP%%d" %% p)), "pixels": (3 * i, 3 * i + 1, 3 * i + 2), "name": str(i)}, "actions": [_act(i)]} for i, p in enumerate(%r)]
%s
""" % (pins, "Inputs.append({'assignment': {'model': AdafruitPotentiometer(board.GP27), 'name': 'Exp'}, 'actions': [AnalogAction(mapping = ClientParameterMapping.get('Pot', set = ControlChange(70, 0)))]})" if npot else ""))
    W = env.World(config_dirs=[d], start_ms=r.choice([1000, 9999999]))
    sys.modules["_probe"] = hid
    inp = W.hw.usb_ports[0]
    out = W.hw.usb_ports[1]
    for p in W.hw.usb_ports:
        p.before_read = lambda port: hit("read")
    Ctl = W.get("pyswitch.controller.controller:Controller")
    tick0, init0, new0 = Ctl.tick, Ctl.init, Ctl.__init__
    ctl = []

    def new(self, *a, **k):
        ctl.append(self)
        return new0(self, *a, **k)
    limit = r.randint(60, 160)
    S = {"n": 0, "model": [False] * nsw, "ports": None, "val": None, "up": 0, "upms": 0}
    preload = r.random() < 0.6
    dt = r.choice([5, 10, 20])
    expect = []
    pressed = None

    def init(self):
        S["in"] = W.hw.uarts[0] if din else inp
        S["out"] = W.hw.uarts[0] if din else out
        if din:
            S["in"].before_read = lambda port: hit("read")
        if preload:
            S["in"].feed(rig.cc(90, 77))
        r0 = init0(self)
        eq(len(S["in"].inbuf), 3 if preload and not clear else 0, "bytes left in the buffers after start (clearBuffers %r)" % clear)
        if preload:
            rec.n("cleared" if clear else "kept")
        S["root"] = W.hw.displays[0].root_group
        check(S["root"] is not None, "no splash displayed by init()")
        eq(W.hw.neopixels[0].n, 3 * nsw, "number of LEDs")
        eq(W.hw.neopixels[0].pin.name, "GP7", "LED port")
        return r0

    def tick(self):
        nonlocal pressed
        S["n"] += 1
        cnt["run"] = True
        n = S["n"]
        W.clock.advance(dt)
        if n == 5:
            S["up"], S["upms"] = cnt["updates"], W.clock.ms
        if n % 8 == 3:
            k = r.randrange(nsw)
            W.hw.board.__dict__["GP%d" % pins[k]].level = False
            pressed = k
            S["model"][k] = not S["model"][k]
            expect.append(rig.cc(10 + k, 100 + k if S["model"][k] else k))
            rec.n("presses")
        elif n % 8 == 4 and pressed is not None:
            W.hw.board.__dict__["GP%d" % pins[pressed]].level = True
        elif n % 8 == 5 and r.random() < 0.5:
            S["val"] = r.randrange(128)
            S["in"].feed(rig.cc(90, S["val"]))
        r0 = tick0(self)
        if n == 1 and preload and not clear:
            S["val"] = 77
        if n % 8 == 7:
            got = []
            for ms, b in S["out"].out:
                for m in rig.parse_stream(b):
                    if m[0] == 0xF0:
                        rec.n("beacons")
                        check(proto, "protocol message sent without a protocol")
                    elif m[1] == 70:
                        pass
                    else:
                        got.append(m)
            S["written"] = S.get("written", 0) + len(S["out"].out)
            del S["out"].out[:]
            eq(got, expect, "messages sent after presses")
            rec.n("values_sent", len(got))
            del expect[:]
            texts = [e.text for *_, e in rig.find_screen(W.hw.displays[0].root_group) if isinstance(e, hw.Label)]
            eq(texts[-1], "?" if S["val"] is None else str(S["val"]), "value shown")
            rec.n("values_shown")
            for k in range(nsw):
                want = tuple(int(c * (bright if S["model"][k] else 0.02)) for c in (200, 100, 50))
                got = W.hw.neopixels[0].v[3 * k:3 * k + 3]
                check(n < 20 or all(abs(x - y) <= 1 for g in got for x, y in zip(g, want)), lambda: "LEDs of switch %d show %r, expected %r" % (k, got, want))
        eq(len(W.hw.displays), 1, "displays")
        check(W.hw.displays[0].root_group is S["root"], "another splash is displayed")
        return n < limit and r0

    Ctl.__init__, Ctl.init, Ctl.tick = new, init, tick
    # the display has to come first: remember when it was set up relative to the user's files
    shown_first = []
    hit0 = hid.hit

    def hit2(st):
        if st in ("config", "communication", "display", "inputs"):
            shown_first.append((st, len(W.hw.displays)))
        hit0(st)
    hid.hit = hit2
    raised = None
    try:
        W.imp("pyswitch.process")
    except Exception as e:
        from vlib.runner import Violation
        if isinstance(e, Violation):
            raise
        raised = e
    for b in W.hw.bridges:
        for e in b.errors:
            from vlib.runner import Violation
            if isinstance(e, Violation):
                raise e
    where = "fault %s at %s, bridge %s" % (type(exc).__name__, stage, bridge)
    check(shown_first and all(n == 1 for _, n in shown_first), lambda: "%s: display not initialized before the user's configuration (%r)" % (where, shown_first))
    errs = [e for b in W.hw.bridges for e in b.errors]
    if cnt["hit"]:
        rec.n("faults")
        if raised is not None:
            check(raised is exc or not (not bridge and stage != "config"), lambda: "%s: raised %r instead of the error itself" % (where, raised))
            check(raised is exc or raised.__cause__ is exc or raised.__context__ is exc, lambda: "%s: raised %r" % (where, raised))
            check(not errs, "reported twice")
            check(not bridge or stage in ("config", "communication"), lambda: "%s: not reported through the bridge" % where)
            rec.n("raised")
        else:
            check(errs, lambda: "%s: the error was swallowed" % where)
            check(len(errs) == 1 and errs[0] is exc, lambda: "%s: reported %r" % (where, errs))
            check(bridge, "reported by a disabled bridge")
            rec.n("reported_bridge")
    else:
        if raised is not None:
            raise raised
        check(not errs, lambda: "error reported: %r" % (errs,))
        eq(S["n"], limit, "ticks until stopped")
        el = W.clock.ms - S["upms"]
        got = cnt["updates"] - S["up"]
        per = interval + dt
        check(el / per - 2 <= got <= el / interval + 2, lambda: "%d updates in %d ms (interval %d)" % (got, el, interval))
        rec.n("updates", got)
        rec.n("started")
        eq(len(W.hw.bridges), int(bridge), "bridges")
        for u in W.hw.uarts:
            check(abs(u.baudrate / 31250 - 1) < 0.01, lambda: "MIDI is transmitted at %d baud" % u.baudrate)
            check(u.timeout <= 0.05, lambda: "every read of the DIN port may block for %r s" % u.timeout)
        check(cnt["updates"] > 0 or interval > limit * dt, "never updated")
        if bridge:
            b = W.hw.bridges[0]
            check(b.receives >= S["n"], "messages are not received through the bridge")
            check(b.sends >= S.get("written", 0), lambda: "messages are not sent through the bridge (%d of %d)" % (b.sends, S.get("written", 0)))
            rec.n("bridge_messages", b.sends + b.receives)
            check(b.temp_file_path, "no temporary file for the bridge")
    eq(len(ctl), 0 if cnt["hit"] and stage in ("config", "communication", "display", "inputs") else 1, "controllers created")
    rec.state((bridge, din, proto, stage if cnt["hit"] else None, type(exc).__name__))
    rec.ev(W.clock.ms, where, len(order))
    rec.sig((bridge, din, proto, stage, when, interval, pins, limit, repr(exc)))
