"""Shipped configurations under the real start-up script: every default, example and template configuration runs through
pyswitch/process.py with the real hardware drivers on simulated pins, ports and LEDs, under random use."""
import glob, os, sys, types
from vlib import env, rig, hw, kdev
from vlib.runner import check, eq

ID = "B01"
RULE = ("A case is one shipped configuration (all inputs/display files of content, examples and templates, combined with every shipped communication file and random options) started by the real process.py, "
        "and a history of presses with random timing (also several at once), pedal and wheel movements, messages of a simulated Kemper and hostile MIDI. Signature = configuration and history.")
CASES = {"quick": 1600, "thorough": 12000}
FLOORS = {"started": 900, "presses": 45000, "actions_pushed": 40000, "actions_released": 39000, "reactions": 12000, "pedal_moves": 7000, "wheel_moves": 7000, "messages_sent": 100000, "messages_fed": 900000, "hostile": 200000, "labels_on_screen": 42000, "ticks": 160000, "idle_checked": 8000, "leds_checked": 3000000}
LEVEL_NOTE = "Exploration: exceptions, well-formedness of everything written, who triggers which action, LED ownership, silence while idle; exact behaviour of the single actions is decided by the other properties."
CASE_CPU_S = 60


class Stop(Exception):
    pass


def configs():
    """(name, directories searched for the configuration files, in order)"""
    R = env.REPO
    out = [("default", [R + "/content"])]
    comm = sorted(glob.glob(R + "/examples/**/communication.py", recursive=True))
    for f in sorted(glob.glob(R + "/examples/**/inputs.py", recursive=True)) + sorted(glob.glob(R + "/web/htdocs/templates/*/inputs.py")):
        d = os.path.dirname(f)
        out.append((os.path.relpath(d, R), [d, R + "/content"]))
    for f in comm:
        d = os.path.dirname(f)
        if not os.path.exists(d + "/inputs.py"):
            out.append((os.path.relpath(d, R), [d, R + "/content"]))
    return out, [os.path.dirname(f) for f in comm if not os.path.exists(os.path.dirname(f) + "/inputs.py")]


_configs = None


def setup(tier):
    global _configs
    _configs = configs()


def hostile(r):
    k = r.random()
    if k < 0.25:
        return rig.cc(r.randrange(128), r.randrange(128), r.choice([0, 0, 0, 5, 15]))
    if k < 0.35:
        return rig.pc(r.randrange(128), r.choice([0, 0, 3]))
    if k < 0.45:
        return bytes([r.choice([0x80, 0x90, 0xA0, 0xE0]) | r.randrange(16), r.randrange(128), r.randrange(128)])
    if k < 0.5:
        return bytes([r.choice([0xF8, 0xFE, 0xFA, 0xFC])])
    if k < 0.6:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 12)))
    addr = r.choice([(0x32, 0), (0x33, 3), (0x7c, 0), (0x7c, 15), (0x7d, 0x54), (0x7f, 0x7e), (4, 0), (0, 0x0b), (0, 1), (0, 3), (r.randrange(128), r.randrange(128))])
    fn = r.choice([1, 1, 1, 3, 3, 0x7e, r.randrange(128)])
    body = bytes(r.randrange(128) for _ in range(r.choice([0, 1, 2, 2, 2, 3, 5, 40])))
    if fn == 3:
        body = bytes(r.randrange(32, 127) for _ in range(r.choice([0, 1, 5, 30]))) + r.choice([b"\0", b"\0", b""])
    return b"\xf0\x00\x20\x33" + bytes([0, r.choice([0, 0, 0x7f]), fn, 0, *addr]) + body + b"\xf7"


def run_case(rng, rec, tier):
    r = rng
    cfgs, comms = _configs or configs()
    name, dirs = cfgs[r.randrange(len(cfgs))]
    if comms and r.random() < 0.25 and not os.path.exists(dirs[0] + "/communication.py"):
        dirs = [r.choice(comms)] + dirs
    W = env.World(config_dirs=dirs, start_ms=r.choice([50, 100000, 5000000]))
    ports = W.hw.usb_ports
    ports[0].max_chunk = None
    if r.random() < 0.05:
        W.mem.free = r.choice([3000, 20000])
    cfg = {}
    for key, vals in (("maxConsecutiveMidiMessages", [0, 1, 10, 40]), ("clearBuffers", [True, False]), ("maxRequestLifetimeMillis", [500, 2000, 10000]), ("updateInterval", [50, 200, 1000]), ("memoryWarnLimitBytes", [0, 15360]),
                      ("displayDimFactorOn", [0, 1, 0.5]), ("displayDimFactorOff", [0, 0.2, 1]), ("ledBrightnessOn", [0, 0.3, 1]), ("ledBrightnessOff", [0, 0.02, 1]),
                      ("debugStats", [True]), ("debugStatsInterval", [100, 2000]), ("debugBidirectionalProtocol", [True]), ("debugUnparsedMessages", [True]), ("debugSentMessages", [True]), ("excludeMessageTypes", [["SystemExclusive"], ["ControlChange", "MIDIUnknownEvent"]]),
                      ("debugClientStats", [True])):
        if r.random() < 0.12:
            cfg[key] = r.choice(vals)
    if r.random() < 0.05:
        K = W.imp("pyswitch.clients.kemper.mappings.morph")
        cfg["debugMapping"] = K.MAPPING_MORPH_PEDAL()
    bridge = r.random() < 0.3
    if bridge:
        cfg["enableMidiBridge"] = True
    m = types.ModuleType("config")
    m.Config = cfg
    sys.modules["config"] = m
    Ctl = W.get("pyswitch.controller.controller:Controller")
    tick0, init0 = Ctl.tick, Ctl.init
    S = {"n": 0, "limit": r.randint(150, 500) if tier == "quick" else r.randint(150, 2500), "c": None, "idle": 0}
    hist, seen_out, feeds = [], {}, 0
    log = []           # (input index, action id, what)
    pend = []
    state = {}
    dt = r.choice([1, 5, 20, 20, 60])
    calm = r.random() < 0.3      # no MIDI input at all, so that silence can be judged
    use_dev = r.random() < 0.75

    def allports():
        return list(ports) + W.hw.uarts

    def attach(c):
        """Instruments inputs and actions of the running controller."""
        S["c"] = c
        from_inputs = sys.modules["inputs"].Inputs
        eq(len(c.inputs), len(from_inputs), "inputs set up")
        S["sw"] = []
        used = {}
        for i, (d, ctl) in enumerate(zip(from_inputs, c.inputs)):
            mdl = d["assignment"]["model"]
            if hasattr(mdl, "pushed"):
                pin = mdl.port
                S["sw"].append((i, pin, d, ctl))
                for p in d["assignment"].get("pixels", []):
                    used.setdefault(p, []).append(i)
                for k, a in enumerate(ctl.actions):
                    def wrap(a=a, i=i, k=k):
                        push, release = a.push, a.release

                        def p():
                            log.append((i, k, "push"))
                            return push()

                        def q():
                            log.append((i, k, "release"))
                            return release()
                        a.push, a.release = p, q
                    wrap()
        for p, l in used.items():
            check(len(l) == 1, lambda: "%s: LED %d belongs to inputs %r" % (name, p, l))
        S["used"] = used
        n = W.hw.neopixels[0].n if W.hw.neopixels else 0
        eq(n, max(used) + 1 if used else 0, "number of LEDs set up")
        out = ports[1]
        if W.hw.uarts and (not use_dev or r.random() < 0.5 or not uses_usb):
            inp = out = W.hw.uarts[0]
        else:
            inp = ports[0]
        S["in"] = inp
        if use_dev:
            S["dev"] = kdev.Device(W, r.random(), inp, out, rig=r.randrange(625))

    uses_usb = "USB" in open(next(d for d in dirs if os.path.exists(d + "/communication.py")) + "/communication.py").read()

    def init(self):
        attach(self)
        return init0(self)

    def enabled(ctl, i):
        return [k for k, a in enumerate(ctl.actions) if a.enabled]

    def tick(self):
        nonlocal feeds
        S["n"] += 1
        rec.n("ticks")
        W.clock.advance(r.choice([dt, dt, 1]))
        dev = S.get("dev")
        if dev:
            dev.update()
        # stimulation
        changed = []
        if r.random() < 0.35 and not S["idle"]:
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                if not S["sw"]:
                    break
                i, pin, d, ctl = r.choice(S["sw"])
                if pin in changed:
                    continue
                pin.level = not pin.level
                changed.append(pin)
                hist.append((S["n"], "pin", pin.name, pin.level))
                if not pin.level:
                    rec.n("presses")
        if r.random() < 0.15 and W.hw.analog and not S["idle"]:
            r.choice(W.hw.analog).pin.analog = r.choice([0, 65535, r.randrange(65536)])
            hist.append((S["n"], "pot"))
            rec.n("pedal_moves")
        if r.random() < 0.15 and W.hw.encoders and not S["idle"]:
            r.choice(W.hw.encoders).position += r.choice([-30, -2, -1, 1, 2, 30])
            hist.append((S["n"], "enc"))
            rec.n("wheel_moves")
        if not calm and r.random() < 0.2 and not S["idle"]:
            for _ in range(r.choice([1, 1, 3, 30])):
                b = hostile(r)
                r.choice([S["in"], S["in"], S["in"], ports[0]]).feed(b)
                feeds += 1
                rec.n("hostile")
                hist.append((S["n"], b))
        if dev and r.random() < 0.05 and not S["idle"]:
            k = r.random()
            if k < 0.4:
                dev.load(r.randrange(625))
            elif k < 0.5:
                dev.set_tuner(r.randrange(2))
            elif k < 0.6:
                dev.link = not dev.link
            else:
                dev.set((r.choice(kdev.SLOTS), r.choice([0, 3])), r.choice(kdev.TYPES + [0, 1]))
            hist.append((S["n"], "dev"))
        if r.random() < 0.02:
            W.clock.advance(r.choice([300, 2000, 7000]))
        if calm and not dev and not S["idle"] and r.random() < 0.02:
            S["idle"], S["idle_ms"] = S["n"], W.clock.ms
            for i, pin, d, ctl in S["sw"]:
                pin.level = True
        held = [i for i, pin, d, ctl in S["sw"] if not pin.level]
        del log[:]
        fresh = [(i, pin, d, ctl, enabled(ctl, i)) for i, pin, d, ctl in S["sw"] if not pin.level and not state.get(i, False) and not d.get("actionsHold") and ctl.override_action is None and changed == [pin]]
        before = {i: state.get(i, False) for i, *_ in S["sw"]}
        leds0 = list(W.hw.neopixels[0].v) if W.hw.neopixels else []
        ret = tick0(self)
        check(ret is True, "tick() ended the processing loop")
        # who reacted
        for i, k, what in log:
            down, was = i in held, before[i]
            rec.n("actions_pushed" if what == "push" else "actions_released")
            check(down or was, lambda: "%s: action %d of input %d got a %s while its switch is up" % (name, k, i, what))
        for i, pin, d, ctl, en in fresh:
            if ctl.override_action is not None or any(x[0] != i for x in log):      # others might have enabled, disabled or overridden it
                continue
            for k in set(en) & set(enabled(ctl, i)):
                rec.n("reactions")
                eq(log.count((i, k, "push")), 1, "%s: pushes of the enabled action %d of input %d when its switch is pressed" % (name, k, i))
        for i, pin, d, ctl in S["sw"]:
            state[i] = not pin.level
        # output
        for p in allports():
            n0 = seen_out.get(id(p), 0)
            new = p.out[n0:]
            seen_out[id(p)] = len(p.out)
            for ms, b in new:
                for msg in rig.parse_stream(b):
                    rec.n("messages_sent")
                    if S["idle"] and W.clock.ms - S["idle_ms"] > 1000 and calm and not dev:
                        rec.n("idle_messages")
                        check(msg[:4] == b"\xf0\x00\x20\x33" and msg[6] in (0x41, 0x43, 0x7e), lambda: "%s: sent %s although nothing happened" % (name, msg.hex()))
            if len(p.out) > 3000:
                del p.out[:]
                seen_out[id(p)] = 0
        if S["idle"]:
            rec.n("idle_checked")
        # LEDs change only if their switch exists
        if leds0:
            v = W.hw.neopixels[0].v
            rec.n("leds_checked", len(v))
            for p in range(len(v)):
                check(p in S["used"] or v[p] == (0, 0, 0), lambda: "LED %d without a switch was lit" % p)
        if S["n"] % 20 == 0:
            for d in W.hw.displays:
                els = rig.find_screen(d.root_group)
                check(els, "nothing displayed")
                rec.n("labels_on_screen", sum(isinstance(e, hw.Label) for *_, e in els))
                rec.state((name, tuple(e.text for *_, e in els if isinstance(e, hw.Label))))
        if S["n"] >= S["limit"]:
            for p in allports():
                rec.n("messages_fed", p.reads)
            return False
        return True

    Ctl.tick, Ctl.init = tick, init
    W.imp("pyswitch.process")
    for b in W.hw.bridges:
        for e in b.errors:
            raise e
    check(S["n"] == S["limit"], lambda: "%s: the processing loop ended after %d ticks" % (name, S["n"]))
    rec.n("started")
    rec.n("configs_run")
    rec.ev(W.clock.ms, name, len(hist))
    rec.sig((name, repr(sorted(cfg)), repr(hist)))
