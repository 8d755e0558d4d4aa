"""The real controller against the project's own virtual device (JavaScript, run in node): displays agree with the device, actions have their documented effect on it."""
from vlib import env, rig, vdev
from vlib.runner import Violation, check, eq
from props.K03 import CAT, EXT, SLOTS

ID = "K14"
RULE = ("A case is a random configuration of Kemper actions, encoders, pedals and labels connected over a lossless link (with delivery delay and chunking) to the project's virtual Kemper, under a history of "
        "presses, pedal and encoder moves and changes at the virtual device. At every settled moment each display is compared to the parameters of the virtual device, and every user input's effect is the "
        "difference of two full dumps of the virtual device. At the end everything shown is compared to a newly started controller. Signature = configuration and history.")
CASES = {"quick": 700, "thorough": 9000}
FLOORS = {"settled": 6000, "effects": 3500, "device_changes": 3000, "rig_effects": 900, "twins": 950, "tuner_sessions": 110, "display_checks": 38000, "messages_from_device": 500000}
LEVEL_NOTE = ("Exploration: real firmware and real virtual device run in lock step on a virtual clock; oracle for displays is the virtual device's own parameter storage, for actions an independent table of "
              "documented effects applied to the dump taken before.")
ASSUMPTIONS = ["node is available to run the JavaScript of the virtual device; its timers are driven by the virtual clock"]

BANKC = [(0, 0, 255), (255, 255, 0), (255, 0, 0), (100, 255, 100), (180, 0, 120)]
WH = (255, 255, 255)
FIXFX = {0: (1, "Transpose"), 1: (6, "Gate"), 2: (11, "Comp"), 3: (16, "Boost"), 4: (21, "Wah"), 5: (26, "Chorus"), 6: (36, "Air"), 7: (41, "Double")}
LOOPN = {"REC_PLAY_OVERDUB": 88, "STOP": 89, "TRIGGER": 90, "REVERSE": 91, "HALF_SPEED": 92, "CANCEL": 93, "ERASE": 94}
VOLATILE = {("n", 0, 1), ("n", 0, 3), ("n", 124, 0)}
KA = "pyswitch.clients.kemper.actions."
LA = "pyswitch.clients.local.actions."
KM = "pyswitch.clients.kemper.mappings."


def dim(c, f):
    return tuple(int(x * f) for x in c)


def near(a, b):
    return all(abs(x - y) <= 1 for x, y in zip(a, b))


class It:
    key = None
    color = None

    def __repr__(self):
        return "%s%r" % (self.kind, {k: v for k, v in vars(self).items() if k in ("slot", "rig", "bank", "d", "keep", "cc", "addr")})


def build(r, W):
    """Configuration from a seeded generator: returns (items, inputs, splash root parts ...)"""
    PB = W.get("pyswitch.controller.actions:PushButtonAction")
    items, inputs = [], []
    kinds = ["slot", "slot", "slot", "rig", "rig", "bankup", "bankdown", "rigup", "rigdown", "bank", "tuner", "fixed", "amp", "cab", "tap", "morph", "custom", "loop", "pot", "enc", "param"]
    led = 0
    used = set()
    labels = []
    for i in range(r.randint(2, 9)):
        it = It()
        it.kind = r.choice(kinds)
        if it.kind in used and it.kind in ("amp", "cab", "tap", "pot", "enc", "tuner", "param"):
            continue
        it.label = None if it.kind in ("pot", "enc") else rig.label(W, back=(1, 2, 3), y=10 * i)
        c = {"display": it.label}
        m = rig.SwModel()
        it.m = m
        n = 0
        if it.kind == "slot":
            it.slot = r.choice([k for k in range(10)])
            if ("slot", SLOTS[it.slot][1]) in used:
                continue
            used.add(("slot", SLOTS[it.slot][1]))
            it.ext = r.random() < 0.4
            f = W.get(KA + ("effect_state_extended_names:EFFECT_STATE_EXT" if it.ext else "effect_state:EFFECT_STATE"))
            a = f(it.slot, mode=PB.LATCH, **c)
            it.key = ("n", SLOTS[it.slot][1], 3)
        elif it.kind == "rig":
            it.rig, it.bank = r.randint(1, 5), r.choice([None, None, 1, 2, 26, 64, 125, r.randint(1, 125)])
            a = W.get(KA + "rig_select:RIG_SELECT")(rig=it.rig, bank=it.bank, display_mode=20, **c)
        elif it.kind in ("bankup", "bankdown"):
            it.d = 5 if it.kind == "bankup" else -5
            a = W.get(KA + "bank_up_down:" + ("BANK_UP" if it.d > 0 else "BANK_DOWN"))(**c)
        elif it.kind in ("rigup", "rigdown"):
            it.d, it.keep = 1 if it.kind == "rigup" else -1, r.random() < 0.4
            a = W.get(KA + "rig_up_down:" + ("RIG_UP" if it.d > 0 else "RIG_DOWN"))(keep_bank=it.keep, **c)
        elif it.kind == "bank":
            it.bank = r.choice([1, 2, 26, 64, 125])
            a = W.get(KA + "bank_select:BANK_SELECT")(bank=it.bank, display_mode=20, **c)
        elif it.kind == "tuner":
            a = W.get(KA + "tuner:TUNER_MODE")(mode=PB.LATCH, **c)
            it.key, it.color = ("n", 127, 126), WH
        elif it.kind == "fixed":
            k = r.choice(list(FIXFX))
            if ("f", k) in used:
                continue
            used.add(("f", k))
            a = W.get(KA + "fixed_fx:FIXED_EFFECT_STATE")(slot=k, mode=PB.LATCH, color=(90, 200, 30), text=FIXFX[k][1], **c)
            it.key, it.color = ("n", 5, FIXFX[k][0]), (90, 200, 30)
        elif it.kind in ("amp", "cab"):
            mp = W.get(KM + ("amp:MAPPING_AMP_STATE" if it.kind == "amp" else "cabinet:MAPPING_CABINET_STATE"))()
            a = W.get(LA + "binary_switch:BINARY_SWITCH")(mapping=mp, mode=PB.LATCH, color=(200, 30, 90), text=it.kind, **c)
            it.key, it.color = ("n", 0x0a if it.kind == "amp" else 0x0c, 2), (200, 30, 90)
        elif it.kind == "tap":
            a = W.get(KA + "tempo:TAP_TEMPO")(**c)
        elif it.kind == "morph":
            a = W.get(KA + "morph:MORPH_BUTTON")(**c)
        elif it.kind == "custom":
            it.cc, it.v = r.choice([90, 91, 92]), r.randint(1, 127)
            a = W.get(LA + "custom:CUSTOM_MESSAGE")(message=[176, it.cc, it.v], text="C", **c)
        elif it.kind == "loop":
            nm = r.choice(list(LOOPN))
            it.addr = LOOPN[nm]
            a = W.get(KA + "looper:LOOPER_" + nm)(**c)
        elif it.kind == "pot":
            it.m = rig.PotModel(r.randrange(65536))
            nm, it.key, it.scale = r.choice([("pedals:MAPPING_VOLUME_PEDAL", ("c", 7), 1), ("pedals:MAPPING_WAH_PEDAL", ("c", 1), 1), ("morph:MAPPING_MORPH_PEDAL", ("n", 0, 11), 128)])
            a = W.get("pyswitch.controller.actions.AnalogAction:AnalogAction")(mapping=W.get(KM + nm)())
        elif it.kind == "enc":
            it.m = rig.EncModel(r.randint(-4, 4))
            nm, it.key, it.lo, it.hi, it.step = r.choice([("amp:AMP_GAIN", ("n", 10, 4), 0, 16383, 80), ("rig_transpose:ENCODER_RIG_TRANSPOSE", ("n", 4, 4), 28, 100, 1)])
            a = W.get(KA + nm)()
        else:
            it.off = r.choice([-3000, -1, 1, 500])
            it.key = ("n", 4, 1)
            a = W.get(LA + "param_change:PARAMETER_UP_DOWN")(mapping=W.get(KM + "rig:MAPPING_RIG_VOLUME")(), offset=it.off, **c)
        used.add(it.kind)
        items.append(it)
        it.pix = []
        inp = {"assignment": {"model": it.m}, "actions": [a]}
        if it.kind not in ("pot", "enc"):
            n = r.choice([1, 2, 3])
            it.pix = list(range(led, led + n)) if it.kind != "tap" else []
            inp["assignment"]["pixels"] = tuple(range(led, led + n))
            led += n
            labels.append(it.label)
        inputs.append(inp)
    el, ui, km = W.imp("pyswitch.ui.elements"), W.imp("pyswitch.ui.ui"), W.imp("pyswitch.clients.kemper")

    def cb(x):
        return el.DisplayLabel(bounds=ui.DisplayBounds(0, 100, 240, 40), layout={"font": "/fonts/A.pcf", "text": "?"}, callback=x)
    names = {"name": cb(km.KemperRigNameCallback()), "id": cb(km.KemperRigNameCallback(show_name=False, show_rig_id=True)),
             "bpm": cb(W.get("pyswitch.clients.kemper.callbacks.tempo_bpm:KemperTempoDisplayCallback")()),
             "amp": cb(W.get("pyswitch.controller.callbacks.parameter_display:ParameterDisplayCallback")(mapping=W.get(KM + "amp:MAPPING_AMP_NAME")(), default_text="-"))}
    root = ui.DisplayElement(bounds=ui.DisplayBounds(0, 0, 240, 240), children=labels + list(names.values()) + [el.BidirectionalProtocolState(ui.DisplayBounds(230, 230, 4, 4))])
    splash = km.TunerDisplayCallback(splash_default=root, strobe=r.random() < 0.3)
    cfg = {"updateInterval": r.choice([100, 200])}
    R = rig.Rig(W, inputs=inputs, splash=splash, config=cfg, protocol=km.KemperBidirectionalProtocol(r.choice([10, 30]), tuner_mode=r.random() < 0.7))
    return R, items, names


class Link:
    """Moves bytes between the controller's port and the virtual device"""
    def __init__(self, r, W, R, dev, dt):
        self.r, self.W, self.R, self.dev, self.dt = r, W, R, dev, dt
        self.mode = r.choice(["now", "now", "delay"])
        self.pipe = []

    def tick(self):
        self.W.clock.advance(self.dt)
        self.dev.step([m for t, m in self.R.sent()])
        now = self.W.clock.ms
        for m in self.dev.take():
            t = now + (0 if self.mode == "now" else self.r.choice([0, 3, 20, 60]))
            if self.pipe and self.pipe[-1][0] > t:
                t = self.pipe[-1][0]
            self.pipe.append((t, m))
        while self.pipe and self.pipe[0][0] <= now:
            self.R.inport.feed(self.pipe.pop(0)[1])
        self.R.c.tick()

    def run(self, ms):
        t = 0
        while t < ms:
            self.tick()
            t += self.dt

    def settle(self):
        """Until the device has nothing going on any more (fades need a number of updates, not a time)"""
        self.run(max(1700, 45 * self.dt + 700))


def run_case(rng, rec, tier):
    import random
    seed, lseed = rng.random(), rng.random()
    dt = rng.choice([10, 20, 20, 40])
    W = env.World()
    bug = rng.random() < 0.4
    dev = vdev.VDev(W.clock, simulateMorphBug=bug)
    R, items, names = build(random.Random(seed), W)
    L = Link(random.Random(lseed), W, R, dev, dt)
    main = R.display.root
    if rng.random() < 0.7:
        dev.rig(rng.choice([0, 4, 5, 624, 620, 127, 128, rng.randrange(625)]))
    R.sent()
    L.run(800)
    L.settle()
    st = {"last": None}
    hist = []

    def verify(why):
        d, s = dev.dump()
        rec.n("settled")
        leds = R.leds
        tun = d[("n", 127, 126)] == 1
        eq(R.display.root is main, not tun, "%s: tuner mode is %r at the device: main screen shown" % (why, tun))
        eq(names["name"].text, d[("n", 0, 1)], "%s: rig name shown" % why)
        eq(names["id"].text, "%d-%d" % (s["rig"] // 5 + 1, s["rig"] % 5 + 1), "%s: rig ID shown" % why)
        eq(names["amp"].text, d[("n", 0, 16)], "%s: amp name shown" % why)
        eq(names["bpm"].text, "%d bpm" % s["bpm"], "%s: tempo shown" % why)
        rec.n("display_checks", 4)
        for it in items:
            rec.state((it.kind, tun))
            if it.kind == "slot":
                nm, page, _ = SLOTS[it.slot]
                t = d[("n", page, 0)]
                cat, col = CAT.get(t, ("-", (50, 50, 50)))
                on = d[it.key] == 1 and t in CAT
                eq(it.label.text, EXT.get(t, cat) if it.ext else cat, "%s: label of slot %s (type %d)" % (why, nm, t))
            elif it.kind in ("tuner", "fixed", "amp", "cab"):
                on, col = d.get(it.key, 0) == 1, it.color
            elif it.kind == "rig":
                b = it.bank - 1 if it.bank else s["rig"] // 5
                on, col = s["rig"] == b * 5 + it.rig - 1, BANKC[b % 5]
            elif it.kind == "bank":
                on, col = s["rig"] // 5 == it.bank - 1, BANKC[(it.bank - 1) % 5]
            else:
                continue
            rec.n("display_checks")
            if not tun:
                for p in it.pix:
                    want = dim(col, 0.3 if on else 0.02)
                    check(near(leds[p], want), lambda: "%s: %r is %s at the device: LED %d shows %r, expected %r" % (why, it, "on" if on else "off", p, leds[p], want))
            want = dim(col, 1 if on else 0.2)
            check(near(it.label.back_color, want), lambda: "%s: %r is %s at the device: label colour %r, expected %r" % (why, it, "on" if on else "off", it.label.back_color, want))
        return d, s

    def select(exp, rigno):
        """Effect of a rig key at the virtual device"""
        exp[("c", 32)], exp[("p",)] = rigno >> 7, rigno & 127
        if st["last"] == rigno:
            if not bug:
                exp[("n", 0, 11)] = 0 if exp[("n", 0, 11)] > 8191 else 16383
        else:
            exp[("n", 0, 11)] = 0
        st["last"] = rigno

    def effect(it, d, s):
        """Expected dump after a press of the item"""
        e = dict(d)
        rg = s["rig"]
        if it.kind == "slot":
            if d[("n", it.key[1], 0)] not in CAT:
                return None
            e[it.key] = 1 - d[it.key]
        elif it.kind in ("tuner", "fixed", "amp", "cab"):
            e[it.key] = 0 if d.get(it.key, 0) == 1 else 1
            if it.kind == "tuner":
                rec.n("tuner_sessions")
                e[("c", 31)] = e[it.key]
        elif it.kind == "rig":
            select(e, (it.bank - 1 if it.bank else rg // 5) * 5 + it.rig - 1)
        elif it.kind in ("bankup", "bankdown"):
            n = (rg + it.d) % 625
            e[("c", 32)], e[("p",)] = n >> 7, n & 127
        elif it.kind in ("rigup", "rigdown"):
            n = rg + it.d
            if it.keep:
                if n // 5 != rg // 5:
                    n = None
            n = None if n is None else n % 625
            if n is not None:
                select(e, n)
        elif it.kind == "bank":
            select(e, (it.bank - 1) * 5 + rg % 5)
        elif it.kind == "morph":
            if not bug:
                e[("n", 0, 11)] = 0 if d[("n", 0, 11)] > 8191 else 16383
        elif it.kind == "custom":
            e[("c", it.cc)] = it.v
        elif it.kind == "loop":
            e[("n", 125, it.addr)] = 0
        elif it.kind == "param":
            e[it.key] = min(16383, max(0, d.get(it.key, 0) + it.off))
        return e

    def compare(e, why):
        d, s = dev.dump()
        rec.n("effects")
        for k in set(d) | set(e):
            if k in VOLATILE or k == ("c", 31) or (k in (("n", 125, 84), ("n", 124, 15))):
                continue
            a, b = d.get(k, 0), e.get(k, 0)
            check(a == b, lambda: "%s: parameter %r of the device is %r, expected %r; configuration %r, history %r" % (why, k, a, b, items, hist[-6:]))

    verify("after start; items %r" % items)
    for step in range(rng.randint(4, 10)):
        d, s = dev.dump()
        tun = d[("n", 127, 126)] == 1
        if rng.random() < 0.65 or tun:
            it = rng.choice(items)
            long = rng.random() < 0.2
            if it.kind == "pot":
                v = rng.choice([0, 65535, rng.randrange(65536)])
                if abs((it.m.v >> 9) - (v >> 9)) < 2:     # nothing to send
                    continue
                it.m.v = v
                hist.append(("pot", v))
                L.settle()
                e = dict(d)
                e[it.key] = (v >> 9) * it.scale
                d2, _ = dev.dump()
                check(abs(d2.get(it.key, 0) - e[it.key]) <= it.scale, lambda: "pedal reading %d: parameter %r of the device is %r" % (v, it.key, d2.get(it.key)))
                e[it.key] = d2.get(it.key, 0)
                compare(e, "pedal to %d" % v)
                verify("after pedal")
                continue
            if it.kind == "enc":
                k = rng.choice([-60, -7, -1, 1, 3, 50])
                it.m.p += k
                hist.append(("enc", k))
                L.settle()
                e = dict(d)
                if not tun:
                    e[it.key] = max(it.lo, min(it.hi, d.get(it.key, 0) + k * it.step))
                    compare(e, "encoder %+d" % k)
                verify("after encoder")
                continue
            hist.append(("press", it, long))
            if it.kind == "tap" and not tun:
                iv = rng.choice([240, 400, 500, 640, 1000, 1200])
                ts = []
                for x in range(2):
                    ts.append(W.clock.ms)
                    it.m.down = True
                    L.run(2 * dt)
                    it.m.down = False
                    if x == 0:
                        L.run(iv - 2 * dt)
                L.settle()
                iv = ts[1] - ts[0]
                e = dict(d)
                e[("n", 4, 0)] = min(16383, int(60000 / iv + 0.5) * 64)
                compare(e, "two taps %d ms apart" % iv)
                verify("after taps")
                L.run(3500)     # no relation to later taps
                continue
            it.m.down = True
            L.run(rng.choice([700, 900]) if long and it.kind != "param" else rng.choice([dt, 2 * dt, 100]))
            it.m.down = False
            if tun:
                e = dict(d)
                e[("n", 127, 126)] = 0
                e[("c", 31)] = 0
            else:
                e = effect(it, d, s)
            if it.kind in ("rig", "bank", "rigup", "rigdown", "bankup", "bankdown") and not tun:
                rec.n("rig_effects")
            L.settle()
            if e is not None:
                compare(e, "press of %r on rig %d%s" % (it, s["rig"], " in tuner mode" if tun else ""))
            verify("after press of %r" % it)
        else:
            for _ in range(rng.choice([1, 1, 2, 4])):
                k = rng.randrange(9)
                if k == 0:
                    dev.rig(rng.choice([0, 4, 624, rng.randrange(625), (s["rig"] + 1) % 625]))
                elif k == 1:
                    dev.set(("n", rng.choice(SLOTS)[1], 0), rng.choice([0, rng.choice(list(CAT)), rng.choice(list(CAT))]))
                elif k in (2, 3):
                    dev.set(("n", rng.choice(SLOTS)[1], 3), rng.choice([0, 1]))
                elif k == 4:
                    dev.bpm(rng.randint(40, 250))
                elif k == 5:
                    dev.set(("n", 5, rng.choice(list(FIXFX.values()))[0]), rng.choice([0, 1]))
                elif k == 6:
                    dev.set(("n", rng.choice([0x0a, 0x0c]), 2), rng.choice([0, 1]))
                elif k == 7:
                    v = rng.choice([0, 1])
                    dev.set(("n", 127, 126), v)
                else:
                    dev.set(("n", 0, 16), "Amp %d" % rng.randrange(100))
                hist.append(("dev", k, dev.dump()[1]["rig"]))
                rec.n("device_changes")
                L.run(rng.choice([0, dt, 200]))
            L.settle()
            verify("after %r" % hist[-4:])
        rec.ev(W.clock.ms, repr(hist[-1]))
    d, s = dev.dump()
    if d[("n", 127, 126)] == 1:
        dev.set(("n", 127, 126), 0)
        L.settle()
    # morph: the controller tracks the state on its own (workaround for a bug of the device), see K10
    skip = ("custom", "pot", "enc", "tap", "param", "loop", "morph")
    a = {i: ([R.leds[p] for p in it.pix], it.label.text, it.label.back_color) for i, it in enumerate(items) if it.kind not in skip}
    # a controller newly connected to the same device
    rec.n("twins")
    W2 = env.World(start_ms=W.clock.ms)
    dev.clock = W2.clock
    R2, items2, names2 = build(random.Random(seed), W2)
    for x, y in zip(items, items2):
        if x.kind == "pot":
            y.m.v = x.m.v
    dev.take()
    L2 = Link(random.Random(lseed), W2, R2, dev, dt)
    L2.run(1000)
    L2.settle()
    b = {i: ([R2.leds[p] for p in it.pix], it.label.text, it.label.back_color) for i, it in enumerate(items2) if it.kind not in skip}
    for i in a:
        check(all(near(x, y) for x, y in zip(a[i][0], b[i][0])) and a[i][1] == b[i][1] and near(a[i][2], b[i][2]), lambda: "%r shows %r at the end, a newly connected controller shows %r; history %r" % (items[i], a[i], b[i], hist))
    rec.n("messages_from_device", dev.sent)
    rec.sig((repr(items), repr(hist), repr(a)))
