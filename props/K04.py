"""On/off parameter actions: reference model of values sent, restored, compared and displayed."""
from vlib import env, rig
from vlib.runner import Violation, check, eq

ID = "K04"
RULE = ("A case is 1-4 on/off parameter actions (single or list messages, disable message of its own, automatic restore values, all comparison modes, own dimming, internal state, text variants) whose "
        "parameters are listened to, polled or not readable at all, under a history of presses, device reports, lost answers. After each step messages, LEDs and labels equal a model. "
        "Signature = configuration and history; non-trivial when commands were sent.")
CASES = {"quick": 4000, "thorough": 60000}
FLOORS = {"on_sent": 2000, "off_sent": 1000, "auto_restored": 60, "auto_unknown": 60, "reports": 2000, "losses": 180, "display_checks": 20000, "list_sets": 700}
LEVEL_NOTE = ("Exploration: an independent model of sending, restoring, comparing and displaying predicts every message and every display after every step of seeded histories on the real controller.")
PRE = b"\x00\x20\x33"
MODES = {"ENABLE": 0, "DISABLE": 10, "LATCH": 20, "MOMENTARY": 30, "MOMENTARY_INVERSE": 40, "HOLD_MOMENTARY": 50, "ONE_SHOT": 100, "NO_STATE_CHANGE": 200}
CMP = {"EQUAL": 0, "GREATER": 10, "GREATER_EQUAL": 20, "LESS": 30, "LESS_EQUAL": 40, "NO_STATE_CHANGE": 999}


class Act:
    pass


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


def run_case(rng, rec, tier):
    W = env.World()
    PBA = W.get("pyswitch.controller.actions:PushButtonAction")
    BPC = W.get("pyswitch.controller.callbacks:BinaryParameterCallback")
    BIN = W.get("pyswitch.clients.local.actions.binary_switch:BINARY_SWITCH")
    Mapping = W.get("pyswitch.controller.client:ClientParameterMapping")
    CC = W.get("adafruit_midi.control_change:ControlChange")
    PC = W.get("adafruit_midi.program_change:ProgramChange")
    SX = W.get("adafruit_midi.system_exclusive:SystemExclusive")
    cfg = {"updateInterval": rng.choice([100, 200])}
    LT = rng.choice([1000, 2000])
    cfg["maxRequestLifetimeMillis"] = LT
    D = {"on": 0.3, "off": 0.02}
    DD = {"on": 1, "off": 0.2}
    if rng.random() < 0.5:
        D = {"on": rng.choice([0.5, 1]), "off": rng.choice([0, 0.1])}
        DD = {"on": rng.choice([0.9, 1]), "off": rng.choice([0.5, 0.1])}
        cfg.update(ledBrightnessOn=D["on"], ledBrightnessOff=D["off"], displayDimFactorOn=DD["on"], displayDimFactorOff=DD["off"])
    acts, inputs, labels, led = [], [], [], 0

    def nrpn(fn, page, addr):
        return SX(PRE, bytes([2, 0x7f, fn, 0, page, addr]))

    def one_set(i, k, j):
        """(message object, encoder of the bytes expected, maximum)"""
        kind = rng.choice(["cc", "sx", "pc"])
        if kind == "cc":
            return CC(20 + 5 * i + j, 0), lambda v, c=20 + 5 * i + j: rig.cc(c, v), 127
        if kind == "pc":
            return PC(0), lambda v: rig.pc(v), 127
        return nrpn(1, 10 + i, 30 + j), lambda v, a=30 + j: rig.sysex(PRE, bytes([2, 0x7f, 1, 0, 10 + i, a, v >> 7, v & 127])), 16383

    n = rng.randint(1, 4)
    for i in range(n):
        a = Act()
        a.kind = rng.choice(["listen", "listen", "poll", "poll", "none"])
        a.lst = rng.random() < 0.25
        cnt = rng.randint(1, 3) if a.lst else 1
        sets = [one_set(i, k, k) for k in range(cnt)]
        a.enc = [s[1] for s in sets]
        kw = {"name": "act%d" % i, "set": [s[0] for s in sets] if a.lst else sets[0][0]}
        a.resp = None
        if a.kind == "listen":
            if rng.random() < 0.5:
                kw["response"] = CC(90 + i, 0)
                a.resp, a.rmax = (lambda v, c=90 + i: rig.cc(c, v)), 127
            else:
                kw["response"] = nrpn(1, 60 + i, 5)
                a.resp, a.rmax = (lambda v, p=60 + i: rig.sysex(PRE, bytes([0, 0, 1, 0, p, 5, v >> 7, v & 127]))), 16383
        elif a.kind == "poll":
            kw["request"] = nrpn(0x41, 60 + i, 5)
            kw["response"] = nrpn(1, 60 + i, 5)
            a.req = rig.sysex(PRE, bytes([2, 0x7f, 0x41, 0, 60 + i, 5]))
            a.resp, a.rmax = (lambda v, p=60 + i: rig.sysex(PRE, bytes([0, 0, 1, 0, p, 5, v >> 7, v & 127]))), 16383
        mapping = Mapping.get(**kw)
        a.mx = [s[2] for s in sets]
        a.on = [rng.choice([1, m, rng.randint(0, m)]) for m in a.mx]
        a.off = [rng.choice([0, 0, rng.randint(0, m)]) for m in a.mx]
        a.auto = [a.kind != "none" and rng.random() < 0.3 for _ in a.mx]
        if a.resp and a.rmax > min(a.mx):
            # an automatically restored value is sent as received
            a.auto = [x and m >= a.rmax for x, m in zip(a.auto, a.mx)]
        a.offv = [None if x else o for x, o in zip(a.auto, a.off)]
        dis = None
        a.denc = a.enc
        if not a.lst and rng.random() < 0.2:
            o, e, m = one_set(i, 0, 4)
            if m >= a.mx[0]:
                dis = Mapping.get(name="dis%d" % i, set=o)
                a.denc = [e]
        a.refc = rng.random() < 0.4
        a.ref = rng.randint(0, 127) if a.refc else a.on[0]
        a.cmp = rng.choice(list(CMP))
        a.mode = rng.choice(list(MODES))
        a.internal = rng.random() < (0.5 if a.kind == "none" else 0.15)
        a.color = rng.choice([(255, 255, 255), (10, 200, 90), (250, 0, 0)])
        a.text = rng.choice(["Tx", "On!"])
        a.toff = None
        a.dims = {k: rng.choice([None, None, 0.7, {"on": "off", "off": "on"}[s]]) for k, s in (("ddon", "on"), ("ddoff", "off"), ("lbon", "on"), ("lboff", "off"))}
        r = lambda key, s, base: base[s] if a.dims[key] is None else base[a.dims[key]] if isinstance(a.dims[key], str) else a.dims[key]
        a.ddon, a.ddoff, a.lbon, a.lboff = r("ddon", "on", DD), r("ddoff", "off", DD), r("lbon", "on", D), r("lboff", "off", D)
        a.label = rig.label(W, back=(1, 2, 3)) if rng.random() < 0.8 else None
        if a.label:
            labels.append(a.label)
        a.m = rig.SwModel()
        npix = rng.choice([0, 1, 3])
        a.pix = list(range(led, led + npix))
        led += npix
        offarg = [("auto" if x else o) for x, o in zip(a.auto, a.off)]
        common = dict(color=a.color, reference_value=a.ref if a.refc else None, comparison_mode=CMP[a.cmp], display_dim_factor_on=a.dims["ddon"], display_dim_factor_off=a.dims["ddoff"],
                      led_brightness_on=a.dims["lbon"], led_brightness_off=a.dims["lboff"], use_internal_state=a.internal, text=a.text)
        on = list(a.on) if a.lst else a.on[0]
        offa = offarg if a.lst else offarg[0]
        if dis is None and rng.random() < 0.5:
            action = BIN(mapping=mapping, value_on=on, value_off=offa, mode=MODES[a.mode], display=a.label, use_leds=True, **common)
        else:
            if rng.random() < 0.5:
                a.toff = "off!"
            action = PBA({"callback": BPC(mapping=mapping, mapping_disable=dis, value_enable=on, value_disable=offa, text_disabled=a.toff, **common),
                          "mode": MODES[a.mode], "display": a.label, "useSwitchLeds": True})
        a.state, a.seen, a.t = False, None, None
        a.dev = None            # the value an answering device has; None: does not answer
        a.val = None            # last value that arrived
        inputs.append({"assignment": {"model": a.m, "pixels": tuple(a.pix)} if npix else {"model": a.m}, "actions": [action]})
        acts.append(a)

    R = rig.Rig(W, inputs=inputs, labels=labels, config=cfg)
    outbox = []

    def deliver(a, v):
        """the value v arrives at the controller"""
        a.lastask = None
        if a.val != v:
            a.val = v
            evaluate(a)

    def evaluate(a):
        v = a.val
        st = False
        if v is not None:
            st = {"EQUAL": v == a.ref, "GREATER": v > a.ref, "GREATER_EQUAL": v >= a.ref, "LESS": v < a.ref, "LESS_EQUAL": v <= a.ref, "NO_STATE_CHANGE": a.state}[a.cmp]
        a.state = st
        if not st and v is not None:
            for k, x in enumerate(a.auto):
                if x:
                    a.offv[k] = v

    def command(a, state):
        a.state = state
        if a.lst:
            rec.n("list_sets")
        unknown = any(v is None for v in a.offv)
        if unknown and a.lst:
            # with a list nothing can be sent before the automatic values are known
            rec.n("auto_unknown")
            return []
        if state:
            rec.n("on_sent")
            return [e(v) for e, v in zip(a.enc, a.on)]
        if unknown:
            rec.n("auto_unknown")
            return []
        rec.n("off_sent")
        rec.n("auto_restored", sum(a.auto))
        return [e(v) for e, v in zip(a.denc, a.offv)]

    def tick(dt):
        """advance; the device answers what was asked; losses happen by time"""
        W.clock.advance(dt)
        R.c.tick()
        return collect()

    def collect():
        out = []
        for t, m in R.sent():
            for a in acts:
                if a.kind == "poll" and m == a.req:
                    a.asked = t
                    if a.dev is not None:
                        outbox.append((a, a.dev))
                    break
            else:
                out.append(m)
        return out

    def answer():
        while outbox:
            a, v = outbox.pop(0)
            R.feed(a.resp(v))
            deliver(a, v)
        R.c.tick()
        return collect()

    def settle(ms):
        out = []
        t = 0
        while t < ms:
            out += tick(10)
            t += 10
            out += answer()
        return out

    def verify(why):
        leds = R.leds
        for k, a in enumerate(acts):
            shown = a.kind != "none" or a.internal
            on = a.state and shown
            rec.n("display_checks")
            for p in a.pix:
                w = dim(a.color, a.lbon if on else a.lboff)
                check(near(leds[p], w), lambda: "%s: action %d is %s: LED shows %r, expected %r" % (why, k, "on" if on else "off", leds[p], w))
            if a.label:
                w = dim(a.color, a.ddon if on else a.ddoff)
                check(near(a.label.back_color, w), lambda: "%s: action %d is %s: label colour %r, expected %r" % (why, k, "on" if on else "off", a.label.back_color, w))
                eq(a.label.text, a.toff if a.toff and shown and not a.state else a.text, "%s: text of action %d" % (why, k))

    for a in acts:
        if a.kind == "poll" and rng.random() < 0.8:
            a.dev = rng.choice([0, a.on[0], rng.randint(0, a.rmax)])
    eq(settle(500), [], "messages sent without user input")
    verify("after start")
    hist = []
    for step in range(rng.randint(4, 16)):
        k = rng.random()
        a = rng.choice(acts)
        if k < 0.5:
            want = []
            long = rng.random() < 0.3
            md = a.mode
            st = a.state
            if md == "ENABLE":
                want += command(a, True) if not st else []
            elif md == "DISABLE":
                want += command(a, False) if st else []
            elif md in ("LATCH", "HOLD_MOMENTARY"):
                want += command(a, not st)
            elif md == "MOMENTARY":
                want += command(a, True) if not st else []
            elif md == "MOMENTARY_INVERSE":
                want += command(a, False) if st else []
            elif md == "ONE_SHOT":
                want += command(a, True)
            a.m.down = True
            W.clock.advance(5)
            R.c.tick()
            got = collect()
            eq(got, want, "messages of pressing a %s button (%s)" % (md, describe(a)))
            got = answer() + (settle(700) if long else [])
            verify("while %s button pressed" % md)
            eq(got, [], "messages while the button is down")
            want = []
            st = a.state
            if md == "MOMENTARY" and st:
                want = command(a, False)
            elif md == "MOMENTARY_INVERSE" and not st:
                want = command(a, True)
            elif md == "HOLD_MOMENTARY" and long:
                want = command(a, not st)
            elif md == "ONE_SHOT":
                a.state = False
            a.m.down = False
            W.clock.advance(5)
            R.c.tick()
            got = collect()
            eq(got, want, "messages of releasing a %s button (%s)" % (md, describe(a)))
            eq(answer(), [], "messages after release")
            hist.append(("press", md, long, a.state))
        elif k < 0.85 and a.resp:
            v = rng.choice([0, a.ref, min(a.ref + 1, a.rmax), max(a.ref - 1, 0), rng.randint(0, a.rmax), a.rmax])
            v = min(v, a.rmax)
            rec.n("reports")
            hist.append(("report", v))
            if a.kind == "listen":
                R.feed(a.resp(v))
                deliver(a, v)
                R.c.tick()
                eq(collect(), [], "messages after a report")
            else:
                a.dev = v
                eq(settle(cfg["updateInterval"] + 50), [], "messages after a device change")
        elif a.kind == "poll" and a.dev is not None and rng.random() < 0.5:
            # the device stops answering
            keep = a.dev
            a.dev = None
            out = settle(int(1.6 * LT) + 2 * cfg["updateInterval"] + 50)
            deliver(a, None)
            rec.n("losses")
            eq(out, [], "messages after answers got lost")
            verify("after lost answers")
            if rng.random() < 0.8:
                a.dev = keep if rng.random() < 0.5 else rng.randint(0, a.rmax)
                settle(int(1.6 * LT) + 2 * cfg["updateInterval"] + 50)
            hist.append(("loss", a.dev))
        else:
            eq(settle(rng.choice([50, 300, 900])), [], "messages sent without user input")
        verify("after %r" % (hist[-4:],))
        rec.ev(W.clock.ms, hist[-1] if hist else None)
    rec.sig(([(a.kind, a.mode, a.cmp, a.on, a.auto) for a in acts], repr(hist)))


def describe(a):
    return "%s, on %r off %r auto %r, state after %r" % (a.kind, a.on, a.offv, a.auto, a.state)
